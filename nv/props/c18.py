from ..harness import Job
from ._contract import fz
from ._omega import h_update

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    F = ["surface.omega.omega_surf", "surface._vertsolve._make_vertsolve", "surface._vertsolve._vertsolve_omega", "surface._vertsolve._zero_potential"]
    J = lambda nm, b, **k: Job(nm, h_update, k, stubs=fz, bounds=b, funcs=F)
    js = [J("two-levels", "cast of 2 levels, any S, T, current depth and phi", nk=2),
          J("levels", "cast of 3 levels, any S, current depth and phi", nk=3, symT=False),
          J("levels-ST", "cast of 3 levels, any S, T, current depth and phi", nk=3),
          J("kinds", "cast of 3 levels with any of 5 NaN patterns", nk=3, symT=False, kinds=("full", "land", "one", "shallow", "cavity")),
          J("two-casts", "2 casts of 2 levels", nk=2, symT=False, n=2, kinds=("full", "land")),
          J("gradient", "2 casts of 2 levels, gradient formulation", nk=2, symT=False, n=2, form="gradient"),
          J("pchip", "fixed cast of 3 levels, PCHIP, any current depth and phi", nk=3, symT=False, symS=False, interp="pchip")]
    js.append(J("long", "fixed cast of 6 levels, any current depth and phi", nk=6, symT=False, symS=()))
    if not q:
        js += [J("levels4", "cast of 4 levels", nk=4, symT=False, kinds=("full", "shallow", "cavity")),
               J("pchip4", "fixed cast of 4 levels, PCHIP, any current depth and phi", nk=4, symT=False, symS=False, interp="pchip"),
               J("three-casts", "3 casts of 3 levels", nk=3, symT=False, n=3),
               J("pchip-S", "cast of 3 levels, PCHIP, any S, current depth and phi", nk=3, symT=False, interp="pchip")]
    return js
