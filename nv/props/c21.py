from ..harness import Job
from ._ntp import STAR6, h_eps


def JOBS(tier):
    q = tier == "quick"
    F = ["ntp.ntp_epsilon_errors", "ntp._ntp_epsilon_error1"]
    path3, multi = ((0, 1), (1, 2)), ((0, 1), (2, 0), (1, 1), (1, 0), (2, 1))
    B = "any s, t, p, any casts dry"
    js = [Job("dict-arr", h_eps, dict(edges=multi), bounds=f"3 casts, 5 pairs, any distances; {B}", funcs=F),
          Job("dict-none", h_eps, dict(edges=path3, dist="none"), bounds=f"3 casts, no distances; {B}", funcs=F),
          Job("dict-scalar", h_eps, dict(edges=path3, dist="scalar"), bounds=f"3 casts, one distance; {B}", funcs=F),
          Job("tuple", h_eps, dict(edges=path3, form="tuple", dist="none"), bounds=f"3 casts, edges only; {B}", funcs=F),
          Job("2d", h_eps, dict(shape=(2, 2), edges=((0, 1), (0, 2), (1, 3), (3, 2))), bounds=f"2 x 2 casts; {B}", funcs=F)]
    js.append(Job("boussinesq", h_eps, dict(bsq=True), bounds=f"3 casts, depth instead of pressure; {B}", funcs=F + ["eos.tools.make_bsq"]))
    js.append(Job("big", h_eps, dict(shape=(6,), edges=STAR6, nan="one"), bounds="6 casts, 7 pairs, any distances, any s, t, p, any one cast dry", funcs=F))
    js.append(Job("xr", h_eps, dict(shape=(2, 2), edges=((0, 1), (0, 2), (1, 3), (3, 2)), xr=True), bounds=f"2 x 2 casts in xarray containers; {B}", funcs=F))
    if not q:
        js.append(Job("2d-big", h_eps, dict(shape=(2, 3), edges=((0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5))), bounds=f"2 x 3 casts; {B}", funcs=F))
    js.append(Job("memory", h_eps, dict(shape=(2, 3), edges=((0, 1), (1, 2), (4, 3), (4, 5), (0, 3), (1, 4), (2, 5)), lay="any", nan="one"), bounds="2 x 3 casts, any of 4 combinations of memory layouts, any s, t, p, any one cast dry", funcs=F))
    js.append(Job("integers", h_eps, dict(ints=True, nan=False), bounds="3 casts, integer salinities -2..3, any t, p", funcs=F))
    return js
