from ..harness import Job
from ._stab import h_count, h_stab

ASSUMES = ["scipy.optimize.minimize returns the optimum of a quadratic cost under affine constraints; replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    F = ["stability.count_unstable", "lib._process_casts"]
    G = ["stability.stabilize_ST", "stability.calc_dLRPDdp_fd_1", "lib._process_casts", "ppinterp.lib.valid_range_1"]
    K = ("full", "land", "one", "shallow", "cavity")
    js = [Job("count", h_count, dict(nk=3), bounds="cast of 3 levels, any S, T", funcs=F),
          Job("count-kinds", h_count, dict(nk=4, kinds=K, symT=False), bounds="cast of 4 levels, 5 NaN patterns, any S", funcs=F),
          Job("count-layout", h_count, dict(shape=(2, 1), nk=3, vd=1, symT=False, p3d=True), bounds="2 x 1 casts with their own levels, vertical dimension in the middle", funcs=F),
          Job("count-casts", h_count, dict(shape=(2,), nk=2, vd=0, kinds=("full", "land")), bounds="2 casts, vertical dimension first", funcs=F),
          Job("pair", h_stab, dict(nk=2, mind="scalar"), bounds="2 bottles, any S, T, minimum gradient", funcs=G),
          Job("pair-weight", h_stab, dict(nk=2, weight=0.5), bounds="2 bottles, weight 0.5, default minimum, any S, T", funcs=G),
          Job("tb", h_stab, dict(nk=3, tb=True, mind="array", symT=not q), bounds="3 bottles, thermobaric density, any S (T), minimum gradients", funcs=G),
          Job("kinds", h_stab, dict(nk=3, kinds=K, mind="array"), bounds="3 levels, 5 NaN patterns, any S, T, minimum gradients", funcs=G),
          Job("pair-tb", h_stab, dict(nk=2, tb=True, mind="scalar"), bounds="2 bottles, thermobaric density, any S, T, minimum gradient", funcs=G),
          Job("three", h_stab, dict(nk=3, weight=2.5, mind="array"), bounds="3 bottles, weight 2.5, any S, T, minimum gradients", funcs=G),
          Job("count-xr", h_count, dict(shape=(2, 1), nk=2, vd=1, symT=False, xr=True), bounds="2 x 1 casts in xarray containers, named vertical dimension", funcs=F),
          Job("xr", h_stab, dict(shape=(2, 1), nk=2, vd=1, symT=False, xr=True), bounds="2 x 1 casts in xarray containers, named vertical dimension in the middle", funcs=G),
          Job("xr0", h_stab, dict(shape=(2,), nk=2, vd=0, symT=False, xr=True, p3d=True), bounds="2 casts with their own levels in xarray containers, named vertical dimension first", funcs=G),
          Job("layout", h_stab, dict(shape=(2, 1), nk=2, vd=1, symT=False, p3d=True), bounds="2 x 1 casts with their own levels, vertical dimension in the middle", funcs=G),
          Job("layout0", h_stab, dict(shape=(2,), nk=3, vd=0, symT=False, kinds=("full", "shallow"), mind="array"), bounds="2 casts of 3 levels, vertical dimension first", funcs=G),
          Job("count-long", h_count, dict(nk=8, symT=False, symS=(2, 5)), bounds="cast of 8 levels, any S of two", funcs=F),
          Job("four", h_stab, dict(nk=4, symT=False, symS=(1,), mind="scalar"), bounds="4 bottles, any S of one, minimum gradient", funcs=G),
          Job("five", h_stab, dict(nk=5, symT=False, symS=(2,)), bounds="5 bottles, any S of one", funcs=G),
          Job("count-memory", h_count, dict(shape=(2, 2), nk=3, symT=False, symS=(1,), p3d=True, lay="any"), bounds="2 x 2 casts with their own levels, any of 4 combinations of memory layouts, any S of one level", funcs=F),
          Job("memory", h_stab, dict(shape=(2, 1), nk=2, vd=1, symT=False, p3d=True, lay="any"), bounds="2 x 1 casts with their own levels, any of 4 combinations of memory layouts, vertical dimension in the middle, any S", funcs=G),
          Job("casts", h_stab, dict(shape=(2,), nk=2, symT=False, kinds=("full", "land")), bounds="2 casts, any of them land, any S", funcs=G)]
    return js
