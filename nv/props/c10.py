from ..harness import Job
from ._eos import h_bad_eos, h_bsq, h_cache, h_vec

F = ["eos.tools.make_eos", "eos.tools.make_eos_s_t", "eos.tools.make_eos_p", "eos.tools.make_bsq", "eos.tools.vectorize_eos", "eos.tools._make_eos"]


def JOBS(tier):
    js = [Job("refuse", h_bad_eos, {}, bounds="3 invalid values", funcs=F, witness=False),
          Job("vectorize", h_vec, {}, bounds="2x2x2 broadcast, any values", funcs=F),
          Job("history", h_cache, dict(n=2 if tier == "quick" else 3), bounds="2 (thorough 3) requests in any order, 2 EOS, 3 kinds, 5 (3) parameter pairs", funcs=F,
              opts=dict(witnesses=2))]
    for w in ("make_eos", "make_eos_s_t", "make_eos_p"):
        for s in ("callable", "jmd95", "jmdfwg06", "gsw"):
            js.append(Job(f"{w}-{s}", h_bsq, dict(which=w, src=s), bounds="any depth, gravity, reference density" + (", water" if s == "callable" else "; one water type"), funcs=F))
    return js
