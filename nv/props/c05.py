from ..harness import Job
from ._interp import h_pchip, h_shape

F = ["ppinterp.pchip.*", "ppinterp.ppinterp.pval", "ppinterp.ppinterp.ppval_1", "ppinterp.ppinterp.ppval",
     "ppinterp.ppinterp.ppinterp_1", "ppinterp.lib.*", "ppinterp.tools.make_pp"]


def JOBS(tier):
    js = [Job("pchip-n2", h_pchip, dict(n=2, Xc=None), bounds="2 symbolic knots", funcs=F),
          Job("shape-n3", h_shape, dict(n=3, Xc=None), bounds="3 symbolic knots and data", funcs=F),
          Job("shape-n4", h_shape, dict(n=4, Xc=[0, 1, 3, 4]), bounds="4 fixed uneven knots, any data", funcs=F),
          Job("shape-n5", h_shape, dict(n=5, Xc=[-2, 1, 1.5, 4, 5], kind="u"), bounds="5 fixed uneven knots, any data", funcs=F),
          Job("pchip-n4", h_pchip, dict(n=4, Xc=[0, 1, 3, 4]), bounds="4 fixed uneven knots, any data and query", funcs=F),
          Job("pchip-n3", h_pchip, dict(n=3, Xc=[-1, 0.5, 4]), bounds="3 fixed uneven knots, any data and query", funcs=F),
          Job("pchip-n5", h_pchip, dict(n=5, Xc=[0, 1, 3, 4, 7], routes="1"), bounds="5 fixed uneven knots, any data and query", funcs=F)]
    for d in (1, 2, 3, 4):
        js.append(Job(f"pchip-n4-d{d}", h_pchip, dict(n=4, Xc=[0, 2, 3, 6], d=d, routes="1" if d > 1 else "all"), bounds=f"4 fixed uneven knots, derivative {d}", funcs=F))
    js.append(Job("pchip-n9", h_pchip, dict(n=9, Xc=None, ysym=(4,)), bounds="9 fixed uneven knots and data, one datum and the query symbolic", funcs=F))
    js.append(Job("pchip-n10", h_pchip, dict(n=10, Xc=None, ysym=(8, 9), routes="1"), bounds="10 fixed uneven knots and data, the last two data and the query symbolic", funcs=F))
    if tier == "thorough":
        js += [Job("pchip-n3-sym", h_pchip, dict(n=3, Xc=None), bounds="3 symbolic knots", funcs=F),
               Job("pchip-n6", h_pchip, dict(n=6, Xc=[0, 1, 3, 4, 7, 7.5]), bounds="6 fixed uneven knots", funcs=F),
               Job("shape-n6", h_shape, dict(n=6, Xc=[0, 1, 3, 4, 7, 7.5]), bounds="6 fixed uneven knots", funcs=F)]
    return js
