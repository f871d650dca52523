from ..harness import Job
from ._bfs import h_perim, h_wet
from ._contract import fz

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    kw = dict(stubs=fz)
    Fw = ["bfs.bfs_conncomp1_wet", "traj._ntp_bottle_to_cast", "traj._ntp_bottle_to_cast_ppc", "traj._pot_dens_diff"]
    Fp = ["bfs.bfs_conncomp1_wet_perim", "traj._ntp_bottle_to_cast_ppc", "traj._pot_dens_diff"]
    path3, tri = ((0, 1), (1, 2)), ((0, 1), (1, 2), (0, 2))
    star4, path4 = ((0, 1), (0, 2), (0, 3)), ((0, 1), (1, 2), (2, 3))
    dia4 = ((0, 1), (0, 2), (1, 3), (2, 3))
    K = ((0, 3), (0, 0), (1, 2), (1, 3))
    B = "any offsets of S and T, wet set, surface depths, mixed layer depths and root"
    js = []
    for nm, h, F in (("bfs", h_wet, Fw), ("perim", h_perim, Fp)):
        js += [Job(f"{nm}-path3", h, dict(edges=path3), bounds=f"3 casts in a row; {B}", funcs=F, **kw),
               Job(f"{nm}-tri", h, dict(edges=tri), bounds=f"3 mutually adjacent casts; {B}", funcs=F, **kw),
               Job(f"{nm}-tri-rev", h, dict(edges=tri, rev=True, ml=False), bounds=f"3 mutually adjacent casts, neighbours listed backwards, no mixed layer; {B}", funcs=F, **kw),
               Job(f"{nm}-kinds", h, dict(edges=path3 if q else tri, kinds=K), bounds=f"casts: full, land, one level, deep two levels; {B}", funcs=F, **kw),
               Job(f"{nm}-pair", h, dict(n=2, edges=((0, 1),), kinds=K), bounds=f"2 casts: full, land, one level, deep two levels; {B}", funcs=F, **kw)]
        if not q:
            for g, e in (("star4", star4), ("path4", path4), ("dia4", dia4)):
                js.append(Job(f"{nm}-{g}", h, dict(n=4, edges=e), bounds=f"4 casts ({g}); {B}", funcs=F, **kw))
        else:
            js.append(Job(f"{nm}-dia4", h, dict(n=4, edges=dia4, ml=False), bounds=f"4 casts in a ring, no mixed layer; {B}", funcs=F, **kw))
        js.append(Job(f"{nm}-grid6", h, dict(n=6, edges=((0, 1), (1, 2), (4, 3), (4, 5), (0, 3), (1, 4), (2, 5)), ml=False, csym=(1, 4)), bounds="2 x 3 casts, any salinity offsets of 2 dry ones and surface depth at the root, others wet or dry, no mixed layer", funcs=F, **kw))
        js.append(Job(f"{nm}-path6", h, dict(n=6, edges=((0, 1), (1, 2), (2, 3), (3, 4), (4, 5)), ml=False, csym=(1, 3)), bounds="6 casts in a row, any salinity offsets of 2 dry ones and surface depth at the root, others wet or dry, no mixed layer", funcs=F, **kw))
    for r in (0, 1, 2):
        js.append(Job(f"perim-rep{r}", h_perim, dict(n=3 if q else 4, edges=path3 if q else path4, rep=r), bounds=f"{r} passes; {B}", funcs=Fp, **kw))
    return js
