from ..harness import Job
from ._eos import h_edge, h_gswc, h_value

BOX = "all s in [0,42], t in [-3,40], p in [0,11000]"


def JOBS(tier):
    js = []
    for n in ("jmd95", "jmdfwg06", "gsw"):
        fn = f"eos.{n}." + ("specvol" if n == "gsw" else "rho")
        js.append(Job(f"value-{n}", h_value, dict(name=n), bounds=BOX, funcs=[fn]))
        js.append(Job(f"edge-{n}", h_edge, dict(name=n), bounds="NaN in any argument; for gsw any s in [-5,0]", funcs=[fn], opts=dict(check_timeout=2000)))
    js.append(Job("gswc", h_gswc, {}, bounds=BOX + "; the C library stubbed by known functions", funcs=["eos.gswc.*"]))
    return js


ASSUMES = ["real arithmetic: floating-point rounding is not modelled; agreement is to 1e-12 of the typical size",
           "the compiled GSW C library behind eos.gswc is trusted (only the wiring to it is checked)"]
