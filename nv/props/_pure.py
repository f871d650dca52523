"""Calls leave their arguments alone and give the same answer again."""
import numpy as np
from ._bfs import eos_lin
from ._contract import fz  # noqa
from ._omega import eos_lin_s_t

A = np.array


def leaves(x, path=""):
    """(path, array or number) of everything inside x"""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], f"{path}[{k!r}]")
    elif isinstance(x, (tuple, list)):
        for i, y in enumerate(x):
            yield from leaves(y, f"{path}[{i}]")
    elif hasattr(x, "dims") and hasattr(x, "values"):
        yield from leaves(x.values, path + ".values")
    elif isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, (int, float, np.integer, np.floating)) or type(x).__name__.startswith("Sym"):
        yield path, x


def snap(x):
    return [(p, np.array(y, dtype=object) if isinstance(y, np.ndarray) else y) for p, y in leaves(x)]


def same(E, what, old, x, margin=1e-6, tol=0.0):
    new = list(leaves(x))
    E.check([p for p, _ in old] == [p for p, _ in new], f"{what}: different structure")
    for (p, a), (_, b) in zip(old, new):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        E.check(a.shape == b.shape, f"{what}{p}: shape")
        if a.shape != b.shape:
            continue
        for i in np.ndindex(a.shape):
            if a[i] is b[i]:
                continue
            E.eq(E.const(a[i]), E.const(b[i]), f"{what}{p}{list(i) if i else ''}", margin, tol)


def twice(E, f, args, kw=None, skip=(), tol=1e-9):
    """call f twice: arguments unchanged both times, equal results"""
    kw = kw or {}
    before = snap((args, kw))
    r1 = f(*args, **kw)
    same(E, "argument changed: ", before, (args, kw))
    s1 = snap(r1)
    r2 = f(*args, **kw)
    same(E, "argument changed by the second call: ", before, (args, kw))
    keep = lambda x: [(p, v) for p, v in x if not any(s in p for s in skip)]
    same(E, "first result changed by the second call: ", s1, r1)
    E.check(len(keep(s1)) == len(keep(list(leaves(r2)))), "the second result has another structure")
    for (p, a), (_, b) in zip(keep(s1), keep(snap(r2))):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        E.check(a.shape == b.shape, f"result{p}: shape")
        for i in np.ndindex(a.shape):
            E.eq(E.const(a[i]), E.const(b[i]), f"the second call gives another result{p}{list(i) if i else ''}", 1e-6, tol)


def casts(E, n=2, nk=2, xr=False, land=False):
    """stable casts S = c + P, T = d - 2 P, each with its own depths"""
    c = [E.float(f"c_{i}", -1, 1) for i in range(n)]
    P = [[E.const(float(k) + 0.25 * i) for k in range(nk)] for i in range(n)]
    ok = [not (land and i and E.concrete_int(E.int(f"land_{i}", 0, 1))) for i in range(n)]
    S = E.arr([c[i] + P[i][k] if ok[i] else E.nan for i in range(n) for k in range(nk)]).reshape((n, nk))
    T = E.arr([E.const(float(i)) - 2.0 * P[i][k] if ok[i] else E.nan for i in range(n) for k in range(nk)]).reshape((n, nk))
    P = E.arr([x for r in P for x in r]).reshape((n, nk))
    if xr:
        import xarray
        S, T, P = (xarray.DataArray(X, dims=("x", "z")) for X in (S, T, P))
    return S, T, P


def grid(full=True):
    g = {"edges": (A([0]), A([1]))}
    if full:
        g.update(dist=A([2.0]), distperp=A([3.0]))
    return g


def h_surface(E, ans="potential", xr=False, diags=True):
    m = E.mod("neutralocean.surface.isopycnal")
    S, T, P = casts(E, xr=xr, land=True)
    kw = dict(eos=(E.njit(eos_lin), E.njit(eos_lin_s_t)), diags=diags, output=False, TOL_P_SOLVER=1e-9, vert_dim="z" if xr else -1)
    if diags:
        kw["grid"] = grid(ans == "potential")
    x = E.float("pin_p", 0, 1)
    mode = E.concrete_int(E.int("mode", 0, 1))
    if mode:
        kw.update(ref=0.5 if ans == "potential" else (34.0, 3.0), pin_cast=0, pin_p=x)
    else:
        kw.update(pin_cast=0, pin_p=x)
    twice(E, getattr(m, ans + "_surf"), (S, T, P), kw, skip=("timer",), tol=1e-7)


def h_omega(E, init="array", xr=False):
    m = E.mod("neutralocean.surface.omega")
    S, T, P = casts(E, xr=xr)
    p = E.float("pin_p", 0.25, 1)
    kw = dict(eos=(E.njit(eos_lin), E.njit(eos_lin_s_t)), output=False, TOL_P_SOLVER=1e-9, ITER_MAX=1, vert_dim="z" if xr else -1)
    if init == "array":
        q = E.float("p_1", -1, 2, nan=True)
        pi = E.arr([p, q])
        kw["p_ml"] = E.arr([E.const(-1.0), E.float("ml", -1, 1)])
    else:
        pi = p if E.symbolic else float(p)
    twice(E, m.omega_surf, (S, T, P, grid(init == "array"), 0, pi), kw, skip=("timer",), tol=1e-6)


def h_traj(E):
    m = E.mod("neutralocean.traj")
    S, T, P = casts(E)
    eos = E.njit(eos_lin)
    twice(E, m.neutral_trajectory, (S, T, P, E.float("p0", 0, 1)), dict(eos=eos, tol_p=1e-9), tol=1e-7)
    b = [E.float(x, -2, 2) for x in ("sB", "tB", "pB")]
    twice(E, m.ntp_bottle_to_cast, (*b, S[1], T[1], P[1]), dict(eos=eos, tol_p=1e-9), tol=1e-7)


def h_label(E):
    S, T, P = casts(E, nk=3)
    eos, es = E.njit(eos_lin), E.njit(eos_lin_s_t)
    twice(E, E.mod("neutralocean.label").veronis, (E.float("p1", -1, 3), S[0], T[0], P[0]), dict(p0=E.float("p0", 0, 2), eos=(eos, es)))
    twice(E, E.mod("neutralocean.mixed_layer").mixed_layer, (S, T, P), dict(eos=eos, ref_p=0.0, pot_dens_diff=0.5, bottle_index=0))
    twice(E, E.mod("neutralocean.stability").count_unstable, (S, T, P), dict(eos=eos))


def h_ntp(E):
    m = E.mod("neutralocean.ntp")
    s, t, p = E.floats("s", 2, -4, 4, nan=True), E.floats("t", 2, -4, 4), E.floats("p", 2, 0, 4)
    s = s if E.symbolic else np.asarray(s)
    es = E.njit(eos_lin_s_t)
    wet = [not E.concretize_nan(x) for x in s]
    t, p = (E.arr([x if w else E.nan for x, w in zip(X, wet)]) for X in (t, p))
    for full in (True, False):
        twice(E, m.ntp_epsilon_errors, (s, t, p, grid(full), es))
        twice(E, m.ntp_epsilon_errors_norms, (s, t, p, grid(full), es))


def h_interp(E, interp="linear"):
    tools, pp = E.mod("neutralocean.ppinterp.tools"), E.mod("neutralocean.ppinterp.ppinterp")
    n = 3
    X = E.arr([0.0, 1.0, 3.0])
    Y, Z = E.floats("y", n, -4, 4, nan=True), E.floats("z", n, -4, 4)
    Z = E.arr([E.nan if E.concretize_nan(y) else z for y, z in zip(Y, Z)])
    x = E.float("x", -1, 4)
    for kind in ("1", "u"):
        f = tools.make_pp(interp, kind=kind, out="coeffs")
        twice(E, f, (X, Y))
        C, D = f(X, Y), f(X, Z)
        if kind == "1":
            twice(E, pp.ppval_1, (x, X, C, 0))
            twice(E, pp.ppval_1_two, (x, X, C, D, 0))
            twice(E, pp.pval, (x, C[0], 0))
        twice(E, tools.make_pp(interp, kind=kind, out="interp"), (x, X, Y, 0))
        twice(E, tools.make_pp(interp, kind=kind, out="interp", num_dep_vars=2), (x, X, Y, Z, 0))


def h_grid(E, kind="rect"):
    d = lambda nm, shp: E.floats(nm, shp, 0.5, 2)
    if kind == "rect":
        m = E.mod("neutralocean.grid.rectilinear")
        twice(E, m.build_grid, ((2, 3), (True, False), d("a", (2, 3)), d("b", (2, 3)), d("c", (2, 3)), d("e", (2, 3))))
        twice(E, m.edgedata_to_maps, (d("v", 6 + 4), (2, 3), (True, False)))
    else:
        m = E.mod("neutralocean.grid.tripolar")
        twice(E, m.build_grid, ((2, 4), d("a", (2, 4)), d("b", (2, 4)), d("c", (2, 4)), d("e", (2, 4))))
        twice(E, m.edgedata_to_maps, (d("v", 16), (2, 4)))


def h_graph(E):
    m, L, T = E.mod("neutralocean.grid.graph"), E.mod("neutralocean.lib"), E.mod("neutralocean.grid.tools")
    edges = (A([0, 1, 0]), A([1, 2, 2]))
    v, w = E.floats("v", 3, -4, 4), E.floats("w", 3, 0.5, 2)
    twice(E, m.edges_to_csr, (edges, 3))
    twice(E, lambda *a: m.edges_to_graph(*a).toarray(), (edges, 3, v))
    twice(E, T.divergence, (v, edges, w, w))
    twice(E, L.aggsum, (v, A([1, -1, 0]), 2))
    twice(E, L.take_fill, (v, A([1, -1, 0])))
    twice(E, L.val_at, (v, A([1, -1, 0])))
    twice(E, L.find_first_nan, (v.reshape((1, 3)),))
