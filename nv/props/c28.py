from ..harness import Job
from ._contract import fz
from ._lib import h_casts, h_pin_dict
from ._surf import h_surf

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    L = ["lib._process_casts", "lib._contiguous_casts", "lib._process_vert_dim", "lib.xr_to_np"]
    X = L + ["lib._xrs_in", "lib._xr_in", "lib._xr_out", "lib._process_pin_cast", "surface.isopycnal._isopycnal"]
    js = [Job("casts-nd", h_casts, dict(), bounds="2 x 3 casts of 2, casts along any dimension, any values and NaN", funcs=L),
          Job("casts-1d", h_casts, dict(p="1d"), bounds="2 x 3 casts of 2, depths 1D, casts along any dimension", funcs=L),
          Job("casts-memory", h_casts, dict(hshape=(2,), nk=3, memory=True), bounds="2 casts of 3 levels, casts along any dimension, any of 4 memory layouts of each array", funcs=L),
          Job("casts-memory-1d", h_casts, dict(hshape=(2,), nk=2, memory=True, p="1d"), bounds="2 casts of 2 levels, depths 1D, casts along any dimension, any of 4 memory layouts of each array", funcs=L),
          Job("casts-pair", h_casts, dict(hshape=(2,), nk=2, p="1d"), bounds="2 casts of 2 levels (square), depths 1D", funcs=L),
          Job("casts-single", h_casts, dict(hshape=(), nk=3, p="1d"), bounds="one cast", funcs=L),
          Job("casts-xr", h_casts, dict(hshape=(2, 2), wrap="all"), bounds="2 x 2 casts of 2, xarray containers, dimension by name or number", funcs=L),
          Job("casts-xr-1d", h_casts, dict(hshape=(2, 2), wrap="ST", p="1d"), bounds="2 x 2 casts of 2, S and T in xarray containers, depths a 1D array", funcs=L),
          Job("pin-2d", h_pin_dict, dict(), bounds="2 x 3 casts, any cast, key order and vertical dimension", funcs=["lib._process_pin_cast"]),
          Job("pin-1d", h_pin_dict, dict(shape=(3,)), bounds="3 casts", funcs=["lib._process_pin_cast"])]
    for ans in ("potential", "anomaly"):
        js += [Job(f"{ans}-xr", h_surf, dict(ans=ans, mode="pin", shape=(2, 1), nk=2, p3d=True, vd=1, symT=False, xr="xr"), stubs=fz, bounds="2 x 1 casts in xarray containers, vertical dimension in the middle, any S, pin given in any way", funcs=X),
               Job(f"{ans}-xr0", h_surf, dict(ans=ans, mode="ref+iso", shape=(2,), nk=2, vd=0, symT=False, xr="np"), stubs=fz, bounds="2 casts in xarray containers, 1D depths, vertical dimension first and without a coordinate, any S", funcs=X)]
    js += [Job("potential-np1", h_surf, dict(ans="potential", mode="pin", shape=(1, 2), nk=2, vd=1, symT=False), stubs=fz, bounds="1 x 2 casts of 2 levels, 1D depths, vertical dimension in the middle", funcs=L),
           Job("potential-np0", h_surf, dict(ans="potential", mode="ref+pin", shape=(2, 1), nk=2, p3d=True, vd=0, symT=False), stubs=fz, bounds="2 x 1 casts of 2 levels, own depths, vertical dimension first", funcs=L)]
    if not q:
        js.append(Job("anomaly-np2", h_surf, dict(ans="anomaly", mode="pin", shape=(2, 2), nk=2, p3d=True, vd=0, symT=False), stubs=fz, bounds="2 x 2 casts of 2 levels, own depths, vertical dimension first", funcs=L))
        js.append(Job("potential-xr3", h_surf, dict(ans="potential", mode="pin", shape=(2, 2), nk=3, p3d=True, vd=1, symT=False, xr="xr", kinds=("full", "land")), stubs=fz, bounds="2 x 2 casts of 3 levels in xarray containers", funcs=X))
    return js
