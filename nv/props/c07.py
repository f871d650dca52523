from ..harness import Job
from ._interp import h_pval

F = ["ppinterp.ppinterp.pval"]


def JOBS(tier):
    return [Job(f"pval-{o}", h_pval, dict(order=o, dmax=o + 1), bounds=f"{o} symbolic coefficients, derivative orders 0..{o+1}", funcs=F)
            for o in ((1, 2, 3, 4, 5, 6, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9))]
