from ..harness import Job
from ._fzero import h_brent, h_brent_bad, h_guess

G5 = (-4, -0.5, 0, 0.5, 4)
G7 = (-4, -1, -0.125, 0, 0.125, 1, 4)


def JOBS(tier):
    F = ["fzero.brent"]
    js = [Job("range-guards", h_brent_bad, {}, bounds="any a, b (possibly NaN, reversed, equal); f unknown; 2 evaluations", funcs=F),
          Job("brent-free-k1", h_brent, dict(K=1, ab=(0, 1), tfix=0.0625),
              bounds="range [0,1], t = 1/16; f unknown real values in [-8,8]; 1 interior evaluation", funcs=F),
          Job("brent-grid-k3", h_brent, dict(K=3, ab=(-1, 2), grid=G5),
              bounds="range [-1,2]; any tolerance t in [1/64,1]; f values in {+-4,+-1/2,0}; 3 interior evaluations", funcs=F),
          Job("brent-mixed-k3", h_brent, dict(K=3, ab=(0, 1), tfix=2.0 ** -16, grid=(-10, -4, 4, 7), free=(3,)),
              bounds="range [0,1], t = 2^-16; f values in {-10,-4,4,7} but the second interior one is unknown; 3 interior evaluations", funcs=F),
          Job("guess", h_guess, dict(guesses=(-3.0, 0.25, 1.5)) if tier == "quick" else {}, bounds="range [-1,2], 3 (7) guesses inside and outside, t = 2^-10; f a line with any zero; whole search unrolled", funcs=F + ["fzero.brent_guess", "fzero.guess_to_bounds"])]
    if tier == "thorough":
        js += [Job("brent-free-k1-t", h_brent, dict(K=1, ab=(0, 1)),
                   bounds="range [0,1], any t in [1/64,1]; f unknown; 1 interior evaluation", funcs=F),
               Job("brent-any-k1", h_brent, dict(K=1), bounds="any range in [-8,8]; any t; f unknown; 1 interior evaluation", funcs=F),
               Job("brent-grid-k3-7", h_brent, dict(K=3, ab=(-1, 2), grid=G7),
                   bounds="range [-1,2]; any t; f values in 7-point set; 3 interior evaluations", funcs=F),
               Job("brent-grid-k4", h_brent, dict(K=4, ab=(-1, 2), grid=G5),
                   bounds="range [-1,2]; any t; f values in 5-point set; 4 interior evaluations", funcs=F)]
    return js
