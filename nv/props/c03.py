from ..harness import Job
from ._interp import h_linear, h_pchip, h_range, h_range_nd

F = ["ppinterp.lib.valid_range", "ppinterp.lib.valid_range_1", "ppinterp.lib.valid_range_1_two",
     "ppinterp.ppinterp.ppval_1", "ppinterp.ppinterp.ppval", "ppinterp.ppinterp.ppinterp_1",
     "ppinterp.linear.*", "ppinterp.pchip.*"]


def JOBS(tier):
    js = [Job(f"range-n{n}", h_range, dict(n=n), bounds=f"arrays of {n}, any NaN pattern", funcs=F) for n in (1, 2, 3, 4, 5)]
    js += [Job("range-nd", h_range_nd, dict(n=3), bounds="2x3 array, any NaN pattern", funcs=F)]
    js += [Job("linear-n3-nan", h_linear, dict(n=3, nan_x=True, nan_y=True), bounds="3 symbolic knots, any NaN pattern in knots, data, query", funcs=F),
           Job("linear-n4-nan", h_linear, dict(n=4, nan_x=False, nan_y=True), bounds="4 symbolic knots, any NaN pattern in data and query", funcs=F),
           Job("pchip-n4-nan", h_pchip, dict(n=4, Xc=[0, 1, 3, 4], nan_y=True, nan_q=True), bounds="4 knots, any NaN pattern in data and query", funcs=F),
           Job("pchip-n3-nanxy", h_pchip, dict(n=3, Xc=[0, 1, 3], nan_y=True, nan_x=True, nan_q=True), bounds="3 knots, any NaN pattern in knots, data, query", funcs=F),
           Job("pchip-n5-nan", h_pchip, dict(n=5, Xc=[0, 1, 3, 4, 6], nan_y=True, routes="1"), bounds="5 knots, any NaN pattern in data", funcs=F,
               opts=dict(max_time=100 if tier == "quick" else 1500))]
    js += [Job("linear-block", h_linear, dict(n=9, nan_x=False, nan_y=False, ysym=(4,), blk=True), bounds="9 fixed knots and data (one symbolic), any valid block, maybe a stray datum after it, any query", funcs=F),
           Job("pchip-block", h_pchip, dict(n=8, Xc=None, ysym=(), blk=True, nan_q=True), bounds="8 fixed knots and data, any valid block, maybe a stray datum after it, any query", funcs=F)]
    if tier == "thorough":
        js += [Job("range-n6", h_range, dict(n=6), bounds="arrays of 6, any NaN pattern", funcs=F),
               Job("linear-n5-nan", h_linear, dict(n=5, nan_x=True, nan_y=True), bounds="5 symbolic knots, any NaN pattern", funcs=F),
               Job("pchip-n4-nanxy", h_pchip, dict(n=4, Xc=[0, 1, 3, 4], nan_y=True, nan_x=True, nan_q=True), bounds="4 knots, any NaN pattern", funcs=F)]
    return js
