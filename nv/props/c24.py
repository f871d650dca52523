from ..harness import Job
from ._contract import fz
from ._ntp import h_traj

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    F = ["traj.neutral_trajectory", "traj._ntp_bottle_to_cast", "traj._ntp_bottle_to_cast_ppc", "traj._pot_dens_diff", "lib._process_casts"]
    js = [Job("pair", h_traj, dict(nc=2, nk=2), stubs=fz, bounds="2 casts of 2 levels, any S, T, start", funcs=F),
          Job("chain", h_traj, dict(nc=3, nk=2, symT=not q), stubs=fz, bounds="3 casts of 2 levels, any S, (T,) start", funcs=F),
          Job("kinds", h_traj, dict(nc=2, nk=3, symT=False, kinds=("full", "land", "one", "shallow", "cavity")), stubs=fz, bounds="2 casts of 3 levels, 5 NaN patterns each, any S, start", funcs=F),
          Job("gap", h_traj, dict(nc=4, nk=2, symT=False, symS=False, kinds=("full", "land")), stubs=fz, bounds="4 fixed casts, any of them land, any start", funcs=F),
          Job("layout", h_traj, dict(nc=2, nk=3, symT=False, vd=0, p3d=True), stubs=fz, bounds="2 casts of 3 own levels, vertical dimension first, any S, start", funcs=F),
          Job("pchip", h_traj, dict(nc=2, nk=3, symT=False, symS=False, interp="pchip"), stubs=fz, bounds="2 fixed casts of 3 levels, PCHIP, any start", funcs=F)]
    js.append(Job("boussinesq", h_traj, dict(nc=2, nk=2, bsq=True, symT=False), stubs=fz, bounds="2 casts of 2 levels, depth instead of pressure, any S, start", funcs=F + ["eos.tools.make_bsq"]))
    js.append(Job("long", h_traj, dict(nc=2, nk=6, symT=False, symS=()), stubs=fz, bounds="2 fixed casts of 6 levels, any start", funcs=F))
    js.append(Job("far", h_traj, dict(nc=5, nk=2, symT=False, symS=()), stubs=fz, bounds="5 fixed casts of 2 levels, any start", funcs=F))
    js.append(Job("xr", h_traj, dict(nc=2, nk=2, symT=False, vd=0, p3d=True, xr="xr"), stubs=fz, bounds="2 casts with their own levels in xarray containers, named vertical dimension first, any S, start", funcs=F))
    js.append(Job("xr1", h_traj, dict(nc=3, nk=2, symT=False, symS=(), xr="xr"), stubs=fz, bounds="3 fixed casts in xarray containers, named vertical dimension, any start", funcs=F))
    js.append(Job("memory", h_traj, dict(nc=2, nk=3, symT=False, symS=(), p3d=True, lay="any"), stubs=fz, bounds="2 fixed casts of 3 own levels, any of 4 combinations of memory layouts, any start", funcs=F))
    return js
