from ..harness import Job
from ._grid import h_tri


def JOBS(tier):
    F = ["grid.tripolar.build_grid", "grid.tripolar.edgedata_to_maps"]
    nm = 4 if tier == "quick" else 5
    K = {"full": ("full",) * 4, "padded": ("pad",) * 4, "default": ("default",) * 4, "scalar": ("scalar",) * 4, "memory": ("F", "rev", "step", "F"), "mixed": ("pad", "full", "scalar", "pad")}
    js = [Job(f"tri-big-{n}", h_tri, dict(nmin=5, nmax=6, kinds=K[n]), bounds=f"5 x 5..6 cells, any distances ({n})", funcs=F) for n in ("full", "padded")]
    return js + [Job(f"tri-{n}", h_tri, dict(kinds=k, nmax=nm), bounds=f"1..{nm-1} x 1..{nm} cells, any distances ({n})", funcs=F) for n, k in K.items()]
