from ..harness import Job
from ._eos import GSW, h_deriv, h_gswc

BOX = "all s in [0,42], t in [-3,40], p in [0,11000]"


def JOBS(tier):
    js = []
    for n in ("jmd95", "jmdfwg06"):
        js.append(Job(f"{n}-s_t", h_deriv, dict(name=n, fn="rho_s_t", outs=("s", "t")), bounds=BOX, funcs=[f"eos.{n}.rho", f"eos.{n}.rho_s_t"]))
        js.append(Job(f"{n}-p", h_deriv, dict(name=n, fn="rho_p", outs=("p",)), bounds=BOX, funcs=[f"eos.{n}.rho", f"eos.{n}.rho_p"]))
    for fn, outs in GSW.items():
        js.append(Job(f"gsw-{fn[8:]}", h_deriv, dict(name="gsw", fn=fn, outs=outs), bounds=BOX, funcs=[f"eos.gsw.{fn}"]))
    js.append(Job("gswc", h_gswc, {}, bounds=BOX + "; the C library stubbed by known functions", funcs=["eos.gswc.*"]))
    return js


ASSUMES = ["real arithmetic: floating-point rounding is not modelled; agreement is to 1e-10 of the typical size"]
