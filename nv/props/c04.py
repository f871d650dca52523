from ..harness import Job
from ._interp import h_linear

F = ["ppinterp.linear.*", "ppinterp.ppinterp.pval", "ppinterp.ppinterp.ppval_1", "ppinterp.ppinterp.ppval",
     "ppinterp.ppinterp.ppinterp_1", "ppinterp.lib.*", "ppinterp.tools.make_pp"]


def JOBS(tier):
    js = []
    for n in (2, 3, 4, 5, 8) + ((6, 7) if tier == "thorough" else ()):
        js.append(Job(f"linear-n{n}", h_linear, dict(n=n, nan_x=False, nan_y=False), bounds=f"{n} symbolic knots, data, query", funcs=F))
    for d in (1, 2):
        js.append(Job(f"linear-n3-d{d}", h_linear, dict(n=3, nan_x=False, nan_y=True, d=d), bounds=f"3 symbolic knots, derivative {d}", funcs=F))
    js.append(Job("linear-n10", h_linear, dict(n=10, nan_x=False, nan_y=False, ysym=tuple(range(10))), bounds="10 fixed uneven knots, any data and query", funcs=F))
    if tier == "thorough":
        js.append(Job("linear-n5-nan", h_linear, dict(n=5, nan_x=True, nan_y=True), bounds="5 knots, any NaN pattern", funcs=F))
    return js
