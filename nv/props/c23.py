from ..harness import Job
from ._contract import fz
from ._ntp import h_link

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    F = ["traj.ntp_bottle_to_cast", "traj._ntp_bottle_to_cast", "traj._ntp_bottle_to_cast_ppc", "traj._pot_dens_diff"]
    B = "any bottle"
    js = [Job("two", h_link, dict(nk=2), stubs=fz, bounds=f"cast of 2 levels, any S, T; {B}", funcs=F),
          Job("levels", h_link, dict(nk=3, symT=not q), stubs=fz, bounds=f"cast of 3 levels, any S (thorough: T); {B}", funcs=F),
          Job("kinds", h_link, dict(nk=3, symT=False, kinds=("full", "land", "one", "shallow", "cavity")), stubs=fz, bounds=f"cast of 3 levels, 5 NaN patterns, any S; {B}", funcs=F),
          Job("kinds4", h_link, dict(nk=4, symT=False, kinds=("shallow", "cavity")), stubs=fz, bounds=f"cast of 4 levels, NaN at the top or bottom, any S; {B}", funcs=F),
          Job("pchip", h_link, dict(nk=3, symT=False, symS=False, interp="pchip"), stubs=fz, bounds=f"fixed cast of 3 levels, PCHIP; {B}", funcs=F)]
    js.append(Job("boussinesq", h_link, dict(nk=2, bsq=True), stubs=fz, bounds=f"cast of 2 levels, depth instead of pressure; {B}", funcs=F + ["eos.tools.make_bsq"]))
    js.append(Job("long", h_link, dict(nk=8, symT=False, symS=(4,), kinds=("full", "shallow")), stubs=fz, bounds=f"cast of 8 (7 valid) levels, any S of one level; {B}", funcs=F))
    js.append(Job("pchip-long", h_link, dict(nk=6, symT=False, symS=(), interp="pchip"), stubs=fz, bounds=f"fixed cast of 6 levels, PCHIP; {B}", funcs=F))
    js.append(Job("memory", h_link, dict(nk=4, symT=False, symS=(2,), lay="any"), stubs=fz, bounds=f"cast of 4 levels, any of 4 combinations of memory layouts, any S of one level; {B}", funcs=F))
    return js
