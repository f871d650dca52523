from ..harness import Job
from ._ntp import STAR6, h_norms


def JOBS(tier):
    q = tier == "quick"
    F = ["ntp.ntp_epsilon_errors_norms", "ntp.ntp_epsilon_errors", "ntp._ntp_epsilon_error1"]
    path3, tri = ((0, 1), (1, 2)), ((0, 1), (2, 1), (0, 2))
    B = "any s, t, p, any casts dry"
    js = [Job(f"{a}-{b}", h_norms, dict(edges=path3, dist=a, perp=b), bounds=f"3 casts in a row, dist {a}, distperp {b}; {B}", funcs=F)
          for a in ("arr", "scalar", "none") for b in ("arr", "scalar", "none")]
    js.append(Job("tri", h_norms, dict(edges=tri, small=True), bounds="3 mutually adjacent casts, any s, any casts dry, any distances", funcs=F))
    js.append(Job("2d", h_norms, dict(shape=(2, 2), edges=((0, 1), (0, 2), (1, 3), (2, 3)), small=True, dist="scalar" if q else "arr"), bounds="2 x 2 casts, any s, any casts dry", funcs=F))
    js.append(Job("boussinesq", h_norms, dict(bsq=True, edges=((0, 1),), shape=(2,)), bounds=f"2 casts, depth instead of pressure; {B}", funcs=F + ["eos.tools.make_bsq"]))
    js.append(Job("big", h_norms, dict(shape=(6,), edges=STAR6, nan="one", small=True, dist="scalar", perp="scalar"), bounds="6 casts, 7 pairs, any s, any one cast dry, one distance and width", funcs=F))
    js.append(Job("memory", h_norms, dict(shape=(2, 2), edges=((0, 1), (0, 2), (1, 3)), small=True, dist="scalar", lay="any", nan="one"), bounds="2 x 2 casts, any of 4 combinations of memory layouts, any s, any one cast dry", funcs=F))
    return js
