"""Array utilities and input handling."""
import itertools
import numpy as np
from ._lay import KINDS, any_lay, lay
from ._omega import priv


def ints(E, name, n, lo, hi):
    return [E.concrete_int(E.int(f"{name}_{i}", lo, hi)) for i in range(n)]


def h_take(E, shape=(2, 2), m=3, fill=None):
    L = E.mod("neutralocean.lib")
    n = int(np.prod(shape))
    a = E.floats("a", shape, -4, 4, nan=True)
    idx = ints(E, "i", m if m < 5 else 2, -2, n - 1)
    idx += [(3 * j) % n if j % 4 else -1 for j in range(len(idx), m)]
    kw = {}
    want = E.nan
    if fill:
        want = kw["fillval"] = E.float("fill", -4, 4)
    b = L.take_fill(a, np.array(idx), **kw)
    E.check(b.shape == (m,), "shape")
    flat = a.reshape(-1)
    for j, i in enumerate(idx):
        E.eq(b[j], flat[i] if i >= 0 else want, f"element {j}", tol=0.0)


def h_aggsum(E, m=4, n=3):
    L = E.mod("neutralocean.lib")
    a = E.floats("a", m, -4, 4)
    idx = ints(E, "i", m if m < 5 else 3, -2, n - 1)
    idx += [(3 * j) % n if j % 4 else -1 for j in range(len(idx), m)]
    b = L.aggsum(a, np.array(idx), n)
    E.check(b.shape == (n,), "one sum per group")
    for g in range(n):
        t = E.const(0.0)
        for j, i in enumerate(idx):
            if i == g:
                t = t + a[j]
        E.eq(b[g], t, f"sum of group {g}", tol=1e-12)


def h_div(E, n=3, edges=((0, 1), (1, 2)), perp="arr", area="arr"):
    L = E.mod("neutralocean.grid.tools")
    ne = len(edges)
    v = E.floats("v", ne, -4, 4)
    kw = {}
    q = r = None
    if perp == "arr":
        q = kw["distperp"] = E.floats("q", ne, 0.5, 2)
    elif perp == "scalar":
        q = kw["distperp"] = E.float("q", 0.5, 2)
    if area == "arr":
        r = kw["area"] = E.floats("r", n, 0.5, 2)
    elif area == "scalar":
        r = kw["area"] = E.float("r", 0.5, 2)
    d = L.divergence(v, (np.array([a for a, _ in edges]), np.array([b for _, b in edges])), **kw)
    E.check(d.shape == (n,), "one value per node")
    at = lambda x, i, kind: 1.0 if x is None else x[i] if kind == "arr" else x
    for i in range(n):
        t = E.const(0.0)
        for k, (a, b) in enumerate(edges):
            f = v[k] * at(q, k, perp)
            if a == i:
                t = t + f
            if b == i:
                t = t - f
        E.eq(d[i] * at(r, i, area), t, f"divergence at node {i}", tol=1e-9)


def h_first_nan(E, shape=(2, 3), axis=-1, block=False, anylay=False):
    L = E.mod("neutralocean.lib")
    if block:  # valid up to any place in each column
        a = E.floats("a", shape, -4, 4)
        nax = axis % len(shape)
        rest = shape[:nax] + shape[nax + 1:]
        for ix in np.ndindex(*rest):
            k = E.concrete_int(E.int("len" + "".join(map(str, ix)), 0, shape[nax]))
            for i in range(k, shape[nax]):
                if i != k + 1:
                    a[ix[:nax] + (i,) + ix[nax:]] = E.nan
    else:
        a = E.floats("a", shape, -4, 4, nan=True)
    if anylay:
        a = any_lay(E, a, "a")
    k = L.find_first_nan(a, axis) if axis != -1 else L.find_first_nan(a)
    ax = axis % len(shape)
    rest = shape[:ax] + shape[ax + 1:]
    E.check(np.shape(k) == rest, "shape")
    for ix in np.ndindex(*rest):
        col = [a[ix[:ax] + (i,) + ix[ax:]] for i in range(shape[ax])]
        want = next((i for i, x in enumerate(col) if E.concretize_nan(x)), shape[ax])
        E.eq(E.const(k[ix]), E.const(want), f"first NaN of {ix}", tol=0.0)


def h_val_at(E, hshape=(2,), nk=3, mode="nd", anylay=False):
    L = E.mod("neutralocean.lib")
    if mode == "1d":
        T = E.floats("T", nk, -4, 4, nan=True)
    else:
        T = E.floats("T", hshape + (nk,), -4, 4, nan=True)
    T0 = [T[i] for i in np.ndindex(*T.shape)]
    if mode == "int":
        k = E.concrete_int(E.int("k", -2, nk - 1))
        out = L.val_at(T, k)
        kk = {ix: k for ix in np.ndindex(*hshape)}
    else:
        ks = ints(E, "k", int(np.prod(hshape)), -2, nk - 1)
        ka = np.array(ks).reshape(hshape)
        if anylay:
            T, ka = any_lay(E, T, "T"), any_lay(E, ka, "k")
        out = L.val_at(T, ka)
        kk = {ix: int(ka[ix]) for ix in np.ndindex(*hshape)}
    E.check(np.shape(out) == hshape, f"shape {np.shape(out)}, expected {hshape}")
    if np.shape(out) != hshape:
        return
    for ix in np.ndindex(*hshape):
        k = kk[ix]
        want = E.nan if k < 0 else (T0[k] if mode == "1d" else T0[int(np.ravel_multi_index(ix + (k,), T.shape))])
        E.eq(out[ix], want, f"value at {ix}", tol=0.0)
    for j, i in enumerate(np.ndindex(*T.shape)):
        E.eq(T[i], T0[j], f"input changed at {i}", tol=0.0)


# ------------------------------------------------------------------ inputs
def h_casts(E, hshape=(2, 3), nk=2, p="nd", wrap=None, memory=False):
    """casts come out along the last dimension, whatever dimension they were along"""
    f = priv(E, "neutralocean.lib", "_process_casts", "S T P vert_dim")
    full = hshape + (nk,)
    vd = E.concrete_int(E.int("vert_dim", -len(full), len(full) - 1))
    pos = vd % len(full)
    n = int(np.prod(full))
    mk = lambda nm: E.floats(nm, full, -4, 4, nan=True)
    A, B = mk("S"), mk("T")
    C = mk("P") if p == "nd" else E.floats("P", nk, -4, 4)
    mv = lambda X: E.np.moveaxis(X, -1, pos)
    S, T, P = mv(A), mv(B), mv(C) if p == "nd" else C
    if memory:
        S, T, P = (any_lay(E, X, nm) for X, nm in ((S, "S"), (T, "T"), (P, "P")))
    if wrap:
        import xarray as xr
        dims = list("xywv"[: len(hshape)])
        dims.insert(pos, "z")
        S, T = xr.DataArray(S, dims=dims), xr.DataArray(T, dims=dims)
        if wrap == "all":
            P = xr.DataArray(P, dims=dims if p == "nd" else ("z",))
        if E.bool("by_name"):
            vd = "z"
    s, t, q = f(S, T, P, vd)
    for nm, X, Y in (("S", s, A), ("T", t, B), ("P", q, C)):
        E.check(X.shape == full, f"{nm} has shape {X.shape}, expected {full}")
        if X.shape != full:
            return
        for ix in np.ndindex(*full):
            E.eq(X[ix], Y[ix] if nm != "P" or p == "nd" else Y[ix[-1]], f"{nm}[{ix}]", tol=0.0)


def h_pin_dict(E, shape=(2, 3)):
    """a pinning cast given by coordinates is the cast with those coordinates"""
    f = priv(E, "neutralocean.lib", "_process_pin_cast", "pin_cast S")
    import xarray as xr
    nd = len(shape)
    vd = E.concrete_int(E.int("vert_dim", 0, nd))
    hd = list("xyw"[:nd])
    dims = list(hd)
    dims.insert(vd, "z")
    sh = list(shape)
    sh.insert(vd, 2)
    co = {d: [3.0 * i + j for i in range(n)] for j, (d, n) in enumerate(zip(hd, shape))}
    S = xr.DataArray(np.zeros(sh), dims=dims, coords=co)
    at = [E.concrete_int(E.int(f"at_{j}", 0, n - 1)) for j, n in enumerate(shape)]
    items = [(d, co[d][i]) for d, i in zip(hd, at)]
    perms = list(itertools.permutations(items))
    got = f(dict(perms[E.concrete_int(E.int("order", 0, len(perms) - 1))]), S)
    E.check(tuple(got) == tuple(at), f"cast {got}, expected {tuple(at)}")
    E.check(tuple(np.atleast_1d(f(at[0], S))) == (at[0],), "pinning cast given by a number")
    E.check(tuple(f(tuple(at), S)) == tuple(at), "pinning cast given by a tuple")
