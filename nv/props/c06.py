from ..harness import Job
from ._interp import h_broadcast, h_make_pp, h_routes

F = ["ppinterp.ppinterp.*", "ppinterp.linear.*", "ppinterp.pchip.*", "ppinterp.tools.make_pp", "ppinterp.lib.*"]


def JOBS(tier):
    js = []
    for d in (0, 1):
        js.append(Job(f"linear-n3-d{d}", h_routes, dict(interp="linear", n=3, Xc=None, d=d, nan_y=False), bounds="3 symbolic knots", funcs=F))
        js.append(Job(f"linear-n4-nan-d{d}", h_routes, dict(interp="linear", n=4, Xc=None, d=d, nan_y=True), bounds="4 symbolic knots, any NaN pattern", funcs=F))
    for d in (0, 1, 2):
        js.append(Job(f"pchip-n3-d{d}", h_routes, dict(interp="pchip", n=3, Xc=[0, 1, 3], d=d, nan_y=False), bounds=f"3 fixed knots, derivative {d}", funcs=F))
    for d in () if tier == "quick" else (0, 1, 2, 3):
        js.append(Job(f"pchip-n4-d{d}", h_routes, dict(interp="pchip", n=4, Xc=[0, 1, 3, 4], d=d, nan_y=False), bounds=f"4 fixed knots, derivative {d}", funcs=F))
    js.append(Job("pchip-n3-nan", h_routes, dict(interp="pchip", n=3, Xc=[0, 1, 3], d=0, nan_y=True), bounds="3 fixed knots, any NaN pattern", funcs=F))
    if tier == "thorough":
        js.append(Job("pchip-n4-nan", h_routes, dict(interp="pchip", n=4, Xc=[0, 1, 3, 4], d=0, nan_y=True), bounds="4 fixed knots, any NaN pattern", funcs=F))
    for i in ("linear", "pchip"):
        js.append(Job(f"factory-{i}", h_make_pp, dict(interp=i), bounds="every combination of options, before and after those of the other interpolant; 3 knots", funcs=F))
    js.append(Job("bc-linear", h_broadcast, dict(interp="linear", n=2, Xc=[0, 1]), bounds="2 x 2 stack of 2-knot problems, any NaN pattern", funcs=F))
    js.append(Job("bc-pchip", h_broadcast, dict(interp="pchip", n=2, Xc=[0, 3]), bounds="2 x 2 stack of 2-knot problems, any NaN pattern", funcs=F))
    if tier == "thorough":
        js.append(Job("bc-linear3", h_broadcast, dict(interp="linear", n=3, Xc=[0, 1, 4]), bounds="2 x 2 stack of 3-knot problems, any NaN pattern", funcs=F))
        js.append(Job("pchip-n5-d0", h_routes, dict(interp="pchip", n=5, Xc=[0, 1, 3, 4, 7], d=0, nan_y=False), bounds="5 fixed knots", funcs=F))
    return js
