from ..harness import Job
from ._grid import h_rect


def JOBS(tier):
    F = ["grid.rectilinear.build_grid", "grid.rectilinear.edgedata_to_maps"]
    nm = 3 if tier == "quick" else 4
    K = {"full": ("full",) * 4, "scalar": ("scalar",) * 4, "default": ("default",) * 4, "mixed": ("row", "scalar", "scalar", "row"),
         "col": ("col", "row", "full", "col"), "memory": ("F", "rev", "step", "F")}
    js = [Job("rect-big", h_rect, dict(nmin=4, nmax=5), bounds="4..5 x 4..5 cells, any periodicity, any distances (full)", funcs=F),
          Job("rect-long", h_rect, dict(nmin=1, nmax=1, long=9), bounds="1 x 9 or 9 x 1 cells, any periodicity, any distances (full)", funcs=F)]
    return js + [Job(f"rect-{n}", h_rect, dict(kinds=k, nmax=nm), bounds=f"1..{nm} x 1..{nm} cells, any periodicity, any distances ({n})", funcs=F) for n, k in K.items()]
