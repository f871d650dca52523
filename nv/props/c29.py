from ..harness import Job
from ._lib import h_aggsum, h_div, h_first_nan, h_take, h_val_at


def JOBS(tier):
    q = tier == "quick"
    T, A, D, N, V = (["lib.take_fill"], ["lib.aggsum"], ["grid.tools.divergence", "lib.aggsum"], ["lib.find_first_nan", "lib._find_first_nan"], ["lib.val_at"])
    js = [Job("take-2d", h_take, dict(), bounds="2 x 2 data with any NaN, 3 indices in -2..3", funcs=T),
          Job("take-fill", h_take, dict(shape=(3,), m=3, fill=True), bounds="3 data, 3 indices in -2..2, any fill value", funcs=T),
          Job("aggsum", h_aggsum, dict(m=3 if q else 4), bounds="3 (4) data, any groups of 3, some excluded", funcs=A),
          Job("div", h_div, dict(edges=((0, 1), (1, 2), (2, 0), (2, 1))), bounds="3 nodes, 4 edges, any vectors, widths, areas", funcs=D),
          Job("div-scalar", h_div, dict(perp="scalar", area="scalar"), bounds="3 nodes, 2 edges, one width and area", funcs=D),
          Job("div-plain", h_div, dict(perp=None, area=None, n=4, edges=((1, 0), (3, 1), (0, 2))), bounds="4 nodes, 3 edges, no widths or areas", funcs=D),
          Job("nan-last", h_first_nan, dict(), bounds="2 x 3, any NaN pattern", funcs=N),
          Job("nan-mid", h_first_nan, dict(shape=(2, 2, 2), axis=1), bounds="2 x 2 x 2 along the middle, any NaN pattern", funcs=N),
          Job("nan-first", h_first_nan, dict(shape=(3, 2), axis=0), bounds="3 x 2 along the first, any NaN pattern", funcs=N),
          Job("val-nd", h_val_at, dict(hshape=(2, 1), nk=3), bounds="2 x 1 x 3, any indices from -2", funcs=V),
          Job("val-1d", h_val_at, dict(hshape=(2,), mode="1d"), bounds="3 values, 2 indices from -2", funcs=V),
          Job("val-int", h_val_at, dict(hshape=(2, 2), nk=2, mode="int"), bounds="2 x 2 x 2, one index from -2", funcs=V)]
    js += [Job("take-big", h_take, dict(shape=(3, 4), m=9), bounds="3 x 4 data with any NaN, 9 indices, the first 2 any", funcs=T) if not q else
           Job("take-big", h_take, dict(shape=(7,), m=9, fill=True), bounds="7 data, 9 indices, the first 2 any, any fill value", funcs=T),
           Job("aggsum-big", h_aggsum, dict(m=9, n=7), bounds="9 data into 7 groups, the first 3 any", funcs=A),
           Job("nan-long", h_first_nan, dict(shape=(3, 8), block=True), bounds="3 x 8, valid up to any place in each row", funcs=N),
           Job("nan-long-mid", h_first_nan, dict(shape=(1, 7, 2), axis=1, block=True), bounds="1 x 7 x 2 along the middle, valid up to any place", funcs=N)]
    if not q:
        js += [Job("take-more", h_take, dict(shape=(2, 3), m=4), bounds="2 x 3 data, 4 indices", funcs=T),
               Job("nan-big", h_first_nan, dict(shape=(2, 4, 2), axis=1), bounds="2 x 4 x 2, any NaN pattern", funcs=N),
               Job("val-more", h_val_at, dict(hshape=(2, 2), nk=3), bounds="2 x 2 x 3, any indices", funcs=V)]
    js += [Job("nan-memory", h_first_nan, dict(shape=(2, 3), anylay=True), bounds="2 x 3, any NaN pattern, any of 4 memory layouts", funcs=N),
           Job("val-memory", h_val_at, dict(hshape=(2, 2), nk=2, anylay=True), bounds="2 x 2 x 2, any of 4 memory layouts of values and of indices, any indices from -2", funcs=V)]
    return js
