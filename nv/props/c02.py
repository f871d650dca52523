from ..harness import Job
from ._fzero import h_bounds, h_bounds_local


def JOBS(tier):
    F = ["fzero.guess_to_bounds"]
    return [Job(f"bounds-{g}", h_bounds, dict(guess=g), bounds="any range, guess position, f unknown", funcs=F)
            for g in ("in", "left", "right")] + [
        Job(f"local-{s}", h_bounds_local, dict(side=s), bounds="range [0,1], any guess, linear f with any zero", funcs=F)
        for s in ("left", "right")]
