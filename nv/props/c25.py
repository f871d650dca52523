from ..harness import Job
from ._label import h_pchip, h_veronis


def JOBS(tier):
    q = tier == "quick"
    F = ["label.veronis", "label._veronis", "label._veronis_affine", "label.pot_dens_1", "label._int_dlrpd_dz", "label._int_x_k", "ppinterp.lib.pval"]
    K = ("full", "land", "one", "shallow", "cavity")
    js = [Job("default", h_veronis, dict(nk=3, symT=not q, p0=False), bounds="cast of 3 levels, any S (T), p1; p0 and dp left out", funcs=F),
          Job("both", h_veronis, dict(nk=3, symT=False), bounds="cast of 3 levels, any S, p0, p1", funcs=F),
          Job("temp", h_veronis, dict(nk=3, symS=False), bounds="cast of 3 levels, any T, p0, p1", funcs=F),
          Job("kinds", h_veronis, dict(nk=4, symT=False, kinds=K, dp=2.0), bounds="cast of 4 levels, 5 NaN patterns, any S, p0, p1", funcs=F),
          Job("dp", h_veronis, dict(nk=3, symT=False, symS=False, dp="sym", hi=3, lo=0), bounds="fixed cast of 3 levels, any step in [0.5, 3], p0, p1", funcs=F),
          Job("factor", h_veronis, dict(nk=2, symT=False, b="sym", ref="sym", lo=0, hi=1), bounds="cast of 2 levels, any factor, reference, S, p0, p1", funcs=F),
          Job("curved", h_veronis, dict(nk=3, symT=not q, symS=False, curved=True, dp=0.75, lo=0, hi=3), bounds="cast of 3 levels (thorough: any T), integrand curved, steps of 0.75, any p0, p1", funcs=F),
          Job("curved-T", h_veronis, dict(nk=2, symT=True, symS=False, curved=True, dp=0.5, lo=0, hi=1), bounds="cast of 2 levels, any T, integrand curved, steps of 0.5, any p0, p1", funcs=F),
          Job("curved-dp", h_veronis, dict(nk=2, symT=False, symS=False, curved=True, dp="sym", lo=0, hi=1), bounds="fixed cast of 2 levels, integrand curved, any step in [0.5, 3], p0, p1", funcs=F),
          Job("pchip", h_pchip, dict(nk=3), bounds="fixed cast of 3 levels, PCHIP, steps of 0.5, any p0, p1", funcs=F)]
    js.append(Job("long", h_veronis, dict(nk=7, symT=False, symS=(4,), lo=-1, hi=11), bounds="cast of 7 levels, any S of one level, p0, p1", funcs=F))
    js.append(Job("shallow", h_veronis, dict(nk=6, symT=False, symS=(), kinds=("shallow", "cavity"), lo=-1, hi=8, dp=0.75), bounds="fixed cast of 5 levels under or over missing data, steps of 0.75, any p0, p1", funcs=F))
    if not q:
        js += [Job("all", h_veronis, dict(nk=3), bounds="cast of 3 levels, any S, T, p0, p1", funcs=F),
               Job("levels4", h_veronis, dict(nk=4, dp=0.5), bounds="cast of 4 levels, any S, T, p0, p1, steps of 0.5", funcs=F),
               Job("pchip4", h_pchip, dict(nk=4, dp=0.75), bounds="fixed cast of 4 levels, PCHIP, any p0, p1", funcs=F)]
    js.append(Job("memory", h_veronis, dict(nk=4, symT=False, symS=(), lay="any", lo=0, hi=4, dp=1.5), bounds="fixed cast of 4 levels, any of 4 combinations of memory layouts, any p0, p1", funcs=F))
    return js
