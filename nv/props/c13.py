from ..harness import Job
from ._grid import h_xgcm, h_xgcm_bad


def JOBS(tier):
    F = ["grid.xgcm.build_grid", "grid.xgcm.edgedata_to_maps", "grid.xgcm._build_im1_jm1"]
    js = []
    B = "any of 6 link patterns, any shift directions, any distances"
    for o in (("tile", "j", "i"), ("tile", "i", "j"), ("j", "tile", "i"), ("i", "j", "tile")):
        if tier == "quick" and o[0] != "tile":
            continue
        js.append(Job("xgcm-" + "".join(x[0] for x in o), h_xgcm, dict(order=o), bounds=f"2 tiles of 2x2; {B}", funcs=F))
    js.append(Job("xgcm-scalar", h_xgcm, dict(kinds=("scalar",) * 4), bounds=f"2 tiles of 2x2; {B}", funcs=F))
    js.append(Job("xgcm-default", h_xgcm, dict(kinds=("default",) * 4), bounds=f"2 tiles of 2x2; {B}", funcs=F))
    js.append(Job("xgcm-n3", h_xgcm, dict(n=3, tiles=3), bounds=f"3 tiles of 3x3; {B}", funcs=F))
    js.append(Job("xgcm-xarray", h_xgcm, dict(xr=True), bounds=f"2 tiles of 2x2, distances in xarray containers; {B}", funcs=F))
    js.append(Job("xgcm-memory", h_xgcm, dict(kinds=("F", "rev", "step", "F")), bounds=f"2 tiles of 2x2, distances in 3 memory layouts; {B}", funcs=F))
    js.append(Job("xgcm-big", h_xgcm, dict(n=4, tiles=4, seams=False), bounds="4 tiles of 4x4 in a ring, any shift directions, any distances", funcs=F))
    js.append(Job("xgcm-refuse", h_xgcm_bad, {}, bounds="any one bad dimension name or shift direction", funcs=F))
    return js
