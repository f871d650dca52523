from ..harness import Job
from ._ntp import h_ml


def JOBS(tier):
    q = tier == "quick"
    F = ["mixed_layer.mixed_layer", "lib._process_vert_dim", "lib._process_casts", "eos.tools.vectorize_eos", "ppinterp"]
    js = [Job("default", h_ml, dict(nk=3), bounds="cast of 3 levels, any S, T of a stable cast", funcs=F),
          Job("threshold", h_ml, dict(nk=3, ref="sym", drop="sym", symT=not q), bounds="3 levels, any threshold and reference pressure", funcs=F),
          Job("kinds", h_ml, dict(nk=4, kinds=("full", "land", "one", "shallow", "cavity"), symT=False), bounds="4 levels, 5 NaN patterns, any S", funcs=F),
          Job("bottle0", h_ml, dict(nk=3, bottle=0), bounds="3 levels, first bottle", funcs=F),
          Job("bottle2", h_ml, dict(nk=4, bottle=2, symT=False), bounds="4 levels, third bottle", funcs=F),
          Job("volume", h_ml, dict(nk=3, vol=True, symT=False), bounds="3 levels, specific volume, any S", funcs=F),
          Job("layout", h_ml, dict(shape=(2, 1), nk=3, vd=1, symT=False, p3d=True), bounds="2 x 1 casts with their own levels, vertical dimension in the middle", funcs=F),
          Job("layout0", h_ml, dict(shape=(2,), nk=2, vd=0, bottle=0, symT=False), bounds="2 casts, vertical dimension first, 1D depths", funcs=F)]
    js.append(Job("boussinesq", h_ml, dict(nk=3, bsq=True, symT=False), bounds="3 levels, depth instead of pressure, any S", funcs=F + ["eos.tools.make_bsq"]))
    js.append(Job("long", h_ml, dict(nk=8, symT=False, symS=(4,), ref="sym", drop="sym", kinds=("full", "shallow")), bounds="8 (7 valid) levels, any S of one level, threshold, reference pressure", funcs=F))
    js.append(Job("xr", h_ml, dict(shape=(2, 1), nk=3, vd=1, symT=False, p3d=True, xr="xr"), bounds="2 x 1 casts with their own levels in xarray containers, named vertical dimension in the middle", funcs=F))
    js.append(Job("xr0", h_ml, dict(shape=(2,), nk=2, vd=0, symT=False, bottle=0, xr="xr"), bounds="2 casts in xarray containers, named vertical dimension first, 1D depths", funcs=F))
    js.append(Job("memory", h_ml, dict(shape=(2, 2), nk=3, symT=False, symS=(1,), p3d=True, lay="any"), bounds="2 x 2 casts with their own levels, any of 4 combinations of memory layouts, any S of one level", funcs=F))
    return js
