"""Grids: lists of adjacent water columns with their distances."""
import itertools
import sys
import types

import numpy as np

from ._lay import lay


def match(E, got, spec, msg):
    """got and spec: lists of (node, node, dist, distperp); equal as multisets of
    undirected edges carrying data"""
    g, s = {}, {}
    for d, l in ((g, got), (s, spec)):
        for a, b, x, y in l:
            d.setdefault((min(a, b), max(a, b)), []).append((x, y))
    E.check(set(g) == set(s), f"{msg}: adjacent pairs are {sorted(g)}, expected {sorted(s)}")
    if set(g) != set(s):
        return
    for k in s:
        if len(g[k]) != len(s[k]):
            E.fail(f"{msg}: pair {k} listed {len(g[k])} times, expected {len(s[k])}")
            continue
        if len(s[k]) == 1:
            E.eq(g[k][0][0], s[k][0][0], f"{msg}: distance of {k}")
            E.eq(g[k][0][1], s[k][0][1], f"{msg}: face width of {k}")
            continue
        alts = []
        for p in itertools.permutations(range(len(s[k]))):
            alts.append(E.And(*[E.And(g[k][i][0] == s[k][j][0], g[k][i][1] == s[k][j][1]) for i, j in enumerate(p)]))
        E.check(E.Or(*alts), f"{msg}: data of the repeated pair {k}")


def glist(E, g, N, msg):
    a, b = g["edges"]
    E.check(len(a) == len(b) == len(g["dist"]) == len(g["distperp"]), f"{msg}: lengths differ")
    return [(int(a[i]), int(b[i]), g["dist"][i], g["distperp"][i]) for i in range(len(a))]


def dvar(E, name, kind, shape):
    """a distance given as a scalar / a row / a column / a full array, and its
    broadcast value"""
    if kind == "default":
        return None, (lambda *k: E.const(1.0))
    if kind == "scalar":
        v = E.float(name, 0.5, 9)
        return v, (lambda *k: v)
    if kind == "row":
        v = E.floats(name, shape[-1], 0.5, 9)
        return v, (lambda *k: v[k[-1]])
    if kind == "col":
        v = E.floats(name, shape[:-1] + (1,), 0.5, 9)
        return v, (lambda *k: v[k[:-1] + (0,)])
    v = E.floats(name, shape, 0.5, 9)
    if kind in ("F", "rev", "step"):
        v = lay(v, kind)
    return v, (lambda *k: v[k])


def h_rect(E, kinds=("full",) * 4, nmax=3, nmin=1, long=None):
    m = E.mod("neutralocean.grid.rectilinear")
    ni, nj = E.concrete_int(E.int("ni", nmin, nmax)), E.concrete_int(E.int("nj", nmin, nmax))
    if long:
        ni, nj = (ni, long) if E.bool("along 2nd") else (long, nj)
    per = (bool(E.bool("per0")), bool(E.bool("per1")))
    vs = {n: dvar(E, n, k, (ni, nj)) for n, k in zip(("dxC", "dyC", "dyG", "dxG"), kinds)}
    kw = {n: v[0] for n, v in vs.items() if v[0] is not None}
    g = m.build_grid((ni, nj), per, **kw)
    f = {n: v[1] for n, v in vs.items()}
    lin = lambda i, j: (i % ni) * nj + (j % nj)
    spec = []
    for i in range(ni):
        for j in range(nj):
            if i > 0 or per[0]:
                spec.append((lin(i, j), lin(i - 1, j), f["dxC"](i, j), f["dyG"](i, j)))
            if j > 0 or per[1]:
                spec.append((lin(i, j), lin(i, j - 1), f["dyC"](i, j), f["dxG"](i, j)))
    match(E, glist(E, g, ni * nj, "rectilinear"), spec, "rectilinear")
    # edge data can be laid back on the two maps
    for what, x, y in (("dist", "dxC", "dyC"), ("distperp", "dyG", "dxG")):
        Fi, Fj = m.edgedata_to_maps(g[what], (ni, nj), per)
        E.check(Fi.shape == (ni, nj) and Fj.shape == (ni, nj), "map shapes")
        for i in range(ni):
            for j in range(nj):
                E.eq(Fi[i, j], f[x](i, j) if (i > 0 or per[0]) else E.nan, f"map of {what} in the 1st dimension [{i},{j}]")
                E.eq(Fj[i, j], f[y](i, j) if (j > 0 or per[1]) else E.nan, f"map of {what} in the 2nd dimension [{i},{j}]")


def h_tri(E, kinds=("full",) * 4, nmax=4, nmin=1):
    m = E.mod("neutralocean.grid.tripolar")
    nj, ni = E.concrete_int(E.int("nj", nmin, nmax - 1)), E.concrete_int(E.int("ni", nmin, nmax))
    vs = {}
    for n, k in zip(("e1u", "e2v", "e2u", "e1v"), kinds):
        if k == "pad":
            v = E.floats(n, (nj + 1, ni + 2), 0.5, 9)
            vs[n] = (v, (lambda v: lambda j, i: v[j, i + 1])(v))
        else:
            vs[n] = dvar(E, n, k, (nj, ni))
    kw = {n: v[0] for n, v in vs.items() if v[0] is not None}
    f = {n: v[1] for n, v in vs.items()}
    g = m.build_grid((nj, ni), **kw)
    lin = lambda j, i: j * ni + i % ni
    spec = []
    for j in range(nj):
        for i in range(ni):
            nb = lin(j + 1, i) if j < nj - 1 else lin(nj - 1, ni - 1 - i)
            spec.append((lin(j, i), nb, f["e2v"](j, i), f["e1v"](j, i)))
            spec.append((lin(j, i), lin(j, i + 1), f["e1u"](j, i), f["e2u"](j, i)))
    match(E, glist(E, g, ni * nj, "tripolar"), spec, "tripolar")
    for what, x, y in (("dist", "e2v", "e1u"), ("distperp", "e1v", "e2u")):
        V, U = m.edgedata_to_maps(g[what], (nj, ni))
        E.check(V.shape == (nj, ni) and U.shape == (nj, ni), "map shapes")
        for j in range(nj):
            for i in range(ni):
                E.eq(V[j, i], f[x](j, i), f"V map of {what} [{j},{i}]")
                E.eq(U[j, i], f[y](j, i), f"U map of {what} [{j},{i}]")


# ------------------------------------------------------------------ graphs
BIG = ((0, 5), (6, 2), (1, 0), (2, 5), (4, 6), (3, 1), (5, 4), (6, 0))


def _edges(E, n, ne, distinct=False, loops=True):
    if ne > 7:  # all but the fourth fixed
        a, b = [list(x) for x in zip(*BIG[:ne])]
        a[3], b[3] = E.concrete_int(E.int("a3", 0, n - 1)), E.concrete_int(E.int("b3", 0, n - 1))
        if distinct:
            ps = [(min(x, y), max(x, y)) for x, y in zip(a, b)]
            E.assume(len(set(ps)) == len(ps) and a[3] != b[3])
        return a, b
    a = [E.concrete_int(E.int(f"a{i}", 0, n - 1)) for i in range(ne)]
    b = [E.concrete_int(E.int(f"b{i}", 0, n - 1)) for i in range(ne)]
    if not loops or distinct:
        E.assume(all(x != y for x, y in zip(a, b)))
    if distinct:
        ps = [(min(x, y), max(x, y)) for x, y in zip(a, b)]
        E.assume(len(set(ps)) == len(ps))
    return a, b


def _amax(a, b, given, n):
    return n if given else max(max(a), max(b)) + 1


def h_csr(E, n=3, ne=3):
    m = E.mod("neutralocean.grid.graph")
    a, b = _edges(E, n, ne)
    given = bool(E.bool("N_given"))
    edges = (np.array(a), np.array(b))
    ptr, ind = m.edges_to_csr(edges, n) if given else m.edges_to_csr(edges)
    N = _amax(a, b, given, n)
    E.check(len(ptr) == N + 1, f"indptr has {len(ptr)} entries for {N} nodes")
    E.check(len(ind) == 2 * ne, "indices length")
    if len(ptr) != N + 1 or len(ind) != 2 * ne:
        return
    for q in range(N):
        want = []
        for x, y in zip(a, b):
            if x == q:
                want.append(y)
            if y == q:
                want.append(x)
        got = [int(ind[k]) for k in range(int(ptr[q]), int(ptr[q + 1]))]
        E.check(got == want, f"neighbours of {q}: {got}, expected {want} (in the order of the edges)")


def h_graph(E, n=3, ne=2, weighted=True):
    m = E.mod("neutralocean.grid.graph")
    a, b = _edges(E, n, ne, distinct=True)
    given = bool(E.bool("N_given"))
    kw = {}
    w = [E.const(1.0)] * ne
    if weighted:
        w = E.floats("w", ne, 0.25, 8)
        kw["weights"] = w
    if given:
        kw["N"] = n
    G = m.edges_to_graph((np.array(a), np.array(b)), **kw)
    N = _amax(a, b, given, n)
    E.check(tuple(G.shape) == (N, N), f"shape {G.shape}")
    if tuple(G.shape) != (N, N):
        return
    D = G.toarray()
    for i in range(N):
        for j in range(N):
            want = E.const(0.0)
            for k in range(ne):
                if (a[k], b[k]) in ((i, j), (j, i)):
                    want = w[k]
            E.eq(D[i, j], want, f"G[{i},{j}]")


def h_binary(E, n=3, ne=3, neg=False):
    m = E.mod("neutralocean.grid.graph")
    if neg:  # a negative node: no value
        a, b = ([E.concrete_int(E.int(f"{x}_{k}", -2, n - 1)) for k in range(ne)] for x in "ab")
    else:
        a, b = _edges(E, n, ne)
    v = E.floats("v", n, -4, 4, nan=True)

    def fcn(x, y):
        return 2.0 * x - 3.0 * y
    f = E.njit(fcn)
    two = bool(E.bool("nodes_2d"))
    val = v.reshape((1, n)) if two else v
    ev = m.graph_binary_fcn((np.array(a), np.array(b)), val, f)
    E.check(len(ev) == ne, "length")
    for k in range(ne):
        E.eq(ev[k], 2.0 * v[a[k]] - 3.0 * v[b[k]] if min(a[k], b[k]) >= 0 else E.nan, f"value on edge {k}")


def h_div(E, n=3, ne=3, data="arrays"):
    m = E.mod("neutralocean.grid.tools")
    a, b = _edges(E, n, ne)
    N = _amax(a, b, False, n)
    v = E.floats("v", ne, -4, 4)
    if data == "arrays":
        dp = E.floats("dp", ne, 0.5, 2)
        ar = [1.0, 2.0, 4.0, 0.5, 2.0, 0.25, 8.0][:N]
        got = m.divergence(v, (np.array(a), np.array(b)), dp, E.arr(ar))
    else:
        dp = [E.const(1.0)] * ne
        ar = [1.0] * N
        got = m.divergence(v, (np.array(a), np.array(b)))
    E.check(len(got) == N, f"{len(got)} values for {N} nodes")
    tot = E.const(0.0)
    for q in range(N):
        want = E.const(0.0)
        for k in range(ne):
            if a[k] == q:
                want = want + v[k] * dp[k]
            if b[k] == q:
                want = want - v[k] * dp[k]
        E.eq(got[q] * ar[q], want, f"net outflow of node {q}")
        tot = tot + got[q] * ar[q]
    E.eq(tot, E.const(0.0), "flow over a closed graph sums to zero")


def _sparse(E, o, fmt):
    """a scipy sparse matrix (its stand-in in the symbolic run)"""
    if fmt == "dense":
        return E.arr(o)
    if E.symbolic:
        from .. import spshim
        ij = [(i, j) for i in range(len(o)) for j in range(len(o[0])) if o[i][j] is not None]
        return spshim.Sparse((E.arr([o[i][j] for i, j in ij]) if ij else [], (np.array([k[0] for k in ij], dtype=int), np.array([k[1] for k in ij], dtype=int))),
                             shape=(len(o), len(o[0])), fmt=fmt)
    import scipy.sparse as sp
    return getattr(sp, fmt + "_matrix")(np.array([[0.0 if x is None else x for x in r] for r in o]))


def h_buildgraph(E, n=3, form="matrix", fmt="csr"):
    m = E.mod("neutralocean.grid.graph")
    sided = E.concrete_int(E.int("sided", 0, 1))  # 0: both triangles, 1: one entry per pair
    pairs = []
    zero = E.const(0.0) if fmt == "dense" else None
    D = [[zero] * n for _ in range(n)]
    P = [[zero] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if not bool(E.bool(f"e{i}{j}")):
                continue
            d, q = E.float(f"d{i}{j}", 0.25, 8), E.float(f"p{i}{j}", 0.25, 8)
            if sided == 0:
                D[i][j] = D[j][i] = d
                P[i][j] = P[j][i] = q
                if form == "matrix" and bool(E.bool(f"u{i}{j}")):
                    D[j][i] = d + 1.0   # only the sparsity structure counts here
            else:
                up = bool(E.bool(f"up{i}{j}"))
                x, y = (i, j) if up else (j, i)
                D[x][y] = d
                P[x][y] = q
            pairs.append((i, j, d, q) if form != "matrix" else (i, j, E.const(1.0), E.const(1.0)))
    if form == "matrix":
        g = m.build_grid(_sparse(E, D, fmt))
    else:
        g = m.build_grid({"dist": _sparse(E, D, fmt), "distperp": _sparse(E, P, fmt)})
    match(E, glist(E, g, n, "graph"), pairs, f"graph from {form}")


def h_buildgraph_bad(E, fmt="csr"):
    """a dict without both matrices, or with different structures, is refused"""
    m = E.mod("neutralocean.grid.graph")
    D = [[None] * 3 for _ in range(3)]
    P = [[None] * 3 for _ in range(3)]
    # the two matrices have entries at different places (the same row or column at most)
    cells = [(0, 1), (1, 0), (0, 2), (2, 1)]
    x, y = (cells[E.concrete_int(E.int(f"at_{k}", 0, 3))] for k in "dp")
    E.assume(x != y)
    D[x[0]][x[1]] = E.float("d", 0.25, 8)
    P[y[0]][y[1]] = E.float("p", 0.25, 8)
    if fmt == "dense":
        D = [[E.const(0.0) if x is None else x for x in r] for r in D]
        P = [[E.const(0.0) if x is None else x for x in r] for r in P]
    w = E.concrete_int(E.int("what", 0, 2))
    G = [{"dist": _sparse(E, D, fmt)}, {"distperp": _sparse(E, P, fmt)},
         {"dist": _sparse(E, D, fmt), "distperp": _sparse(E, P, fmt)}][w]
    try:
        m.build_grid(G)
        ok = False
    except ValueError:
        ok = True
    E.check(ok, "an inconsistent graph was accepted")


def h_symstruct(E, n=3, fmt="csr"):
    m = E.mod("neutralocean.grid.graph")
    zero = E.const(0.0) if fmt == "dense" else None
    N = n + E.concrete_int(E.int("more columns", 0, 1))
    o = [[zero] * N for _ in range(n)]
    has = {}
    for i in range(n):
        for j in range(N):
            has[i, j] = bool(E.bool(f"h{i}{j}"))
            if has[i, j]:
                o[i][j] = E.float(f"x{i}{j}", 0.25, 8)
    r = bool(m.sym_structure(_sparse(E, o, fmt)))
    E.check(r == (n == N and all(has[i, j] == has[j, i] for i, j in has)), f"sym_structure returned {r}")


# ------------------------------------------------------------------ xgcm
class FakeXgcm(types.ModuleType):
    """Stand-in for the parts of xgcm < 0.9 that grid/xgcm.py uses (the xgcm in
    this sandbox has another interface): pad along one axis over the face links
    (same axis, not reversed), fill elsewhere, apply the function along the
    last axis."""

    def __init__(self):
        super().__init__("xgcm")
        self.Grid = FakeGrid


class FakeGrid:
    def __init__(self, ds, periodic=None, face_connections=None, coords=None, **k):
        if periodic not in (False, None, []):
            raise TypeError("only non-periodic grids are modelled")
        (self.tile, self.links), = face_connections.items()
        self.coords = coords

    def apply_as_grid_ufunc(self, func, *args, axis=None, signature="", boundary_width=None, boundary=None, fill_value=None, **k):
        import xarray as xr
        (idx,) = args
        ((ax,),) = axis
        (w,) = boundary_width.values()
        if boundary not in ("fill",) or fill_value is None:
            raise TypeError("boundary")
        dim = self.coords[ax]["center"]
        x = idx.transpose(self.tile, *[d for d in idx.dims if d not in (dim, self.tile)], dim)
        v = x.values
        nf, m, n = v.shape
        out = np.full((nf, m, n + w[0] + w[1]), fill_value, dtype=v.dtype)
        out[:, :, w[0]:w[0] + n] = v
        for f in range(nf):
            link = self.links.get(f, {}).get(ax, (None, None))
            for side in (0, 1):
                if link[side] is None or w[side] == 0:
                    continue
                g, gax, rev = link[side]
                if gax != ax or rev:
                    raise NotImplementedError("only same-axis links are modelled")
                if side == 0:
                    out[f, :, :w[0]] = v[g, :, n - w[0]:]
                else:
                    out[f, :, w[0] + n:] = v[g, :, :w[1]]
        # core dimension last; the tile keeps its relative place
        dims = [d for d in idx.dims if d != dim] + [dim]
        y = xr.DataArray(out, dims=x.dims).transpose(*dims)
        r = func(y.values)
        return xr.DataArray(r, dims=dims)


def _links(layout, tiles):
    """two (or one) tiles; layout: which of the four seams exist"""
    xs, ys = layout
    d = {f: {} for f in range(tiles)}
    last = tiles - 1
    # X: tile f's right neighbour is tile f+1; closed ring when xs == 2
    for f in range(tiles):
        left = (f - 1, "X", False) if f > 0 else ((last, "X", False) if xs == 2 else None)
        right = (f + 1, "X", False) if f < last else ((0, "X", False) if xs == 2 else None)
        if xs == 0:
            left = right = None
        if left or right:
            d[f]["X"] = (left, right)
        if ys:
            d[f]["Y"] = ((f, "Y", False), (f, "Y", False))
    return d


def h_xgcm_bad(E):
    """dimension names without the tile, 'i' or 'j' are refused; so are shift directions other than left and right"""
    if E.symbolic:
        E.loader.ext["xgcm"] = FakeXgcm()
    else:
        sys.modules["xgcm"] = FakeXgcm()
    m = E.mod("neutralocean.grid.xgcm")
    fc = {"tile": _links((0, 0), 2)}
    order, sh = ["tile", "j", "i"], ["left", "right"]
    w = E.concrete_int(E.int("what", 0, 4))
    if w < 3:
        order[w] = "other"
        exc = ValueError
    else:
        sh[w - 3] = "up"
        exc = AssertionError
    d = E.float("d", 0.5, 9)
    try:
        m.build_grid(2, fc, tuple(order), *sh, dxC=d)
        ok = False
    except exc:
        ok = True
    E.check(ok, "a grid with bad dimension names or shift directions was accepted")


def h_xgcm(E, n=2, tiles=2, order=("tile", "j", "i"), kinds=("full",) * 4, xr=False, seams=True):
    if E.symbolic:
        E.loader.ext["xgcm"] = FakeXgcm()
    else:
        sys.modules["xgcm"] = FakeXgcm()
    m = E.mod("neutralocean.grid.xgcm")
    xs, ys = (E.concrete_int(E.int("xlinks", 0, 2)), E.concrete_int(E.int("ylinks", 0, 1))) if seams else (2, 1)
    xl, yl = bool(E.bool("xleft")), bool(E.bool("yleft"))
    links = _links((xs, ys), tiles)
    fc = {"tile": links}
    shape = tuple({"tile": tiles, "j": n, "i": n}[d] for d in order)
    vs = {q: dvar(E, q, k, shape) for q, k in zip(("dxC", "dyC", "dyG", "dxG"), kinds)}
    kw = {q: v[0] for q, v in vs.items() if v[0] is not None}
    f = {q: v[1] for q, v in vs.items()}
    sh = ("left" if xl else "right", "left" if yl else "right")
    if xr:
        import xarray
        kw = {q: xarray.DataArray(v, dims=order) for q, v in kw.items()}
    g = m.build_grid(n, fc, order, *sh, **kw)

    def at(t, j, i):
        return tuple({"tile": t, "j": j, "i": i}[d] for d in order)

    def lin(t, j, i):
        return int(np.ravel_multi_index(at(t, j, i), shape))

    def step(t, j, i, ax, d):
        k = (i if ax == "X" else j) + d
        if not 0 <= k < n:
            l = links[t].get(ax, (None, None))[0 if d < 0 else 1]
            if l is None:
                return None
            t, k = l[0], k % n
        return lin(t, j, k) if ax == "X" else lin(t, k, i)
    spec, mi, mj = [], {}, {}
    for t in range(tiles):
        for j in range(n):
            for i in range(n):
                k = at(t, j, i)
                b = step(t, j, i, "X", -1 if xl else 1)
                mi[k] = mj[k] = None
                if b is not None:
                    spec.append((lin(t, j, i), b, f["dxC"](*k), f["dyG"](*k)))
                    mi[k] = ("dxC", "dyG")
                b = step(t, j, i, "Y", -1 if yl else 1)
                if b is not None:
                    spec.append((lin(t, j, i), b, f["dyC"](*k), f["dxG"](*k)))
                    mj[k] = ("dyC", "dxG")
    match(E, glist(E, g, tiles * n * n, "tiles"), spec, "tiled grid")
    for w, what in enumerate(("dist", "distperp")):
        Fi, Fj = m.edgedata_to_maps(g[what], n, fc, order, *sh)
        E.check(Fi.shape == shape and Fj.shape == shape, "map shapes")
        for k in np.ndindex(shape):
            E.eq(Fi[k], f[mi[k][w]](*k) if mi[k] else E.nan, f"i map of {what} {k}")
            E.eq(Fj[k], f[mj[k][w]](*k) if mj[k] else E.nan, f"j map of {what} {k}")
