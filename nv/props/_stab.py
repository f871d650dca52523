"""Static stability."""
import numpy as np
from ._surf import Ocean, eos_tb
from ._bfs import eos_lin


def rho(s, t, p):
    return s - t * (0.25 + 0.125 * p)


def h_count(E, shape=(1,), nk=3, kinds=("full",), vd=-1, p3d=False, symT=True, xr=False, symS=True, lay=None):
    """number of adjacent pairs whose upper bottle is at least as dense, at their mean pressure"""
    m = E.mod("neutralocean.stability")
    oc = Ocean(E, shape, nk, kinds, symT=symT, symS=symS, vd=vd, p3d=p3d, lay=lay)
    S, T, P = oc.args()
    kw = {} if vd == -1 else {"vert_dim": vd}
    if xr:
        S, T, P = oc.xargs()
        kw = {"vert_dim": "z"}
    got = m.count_unstable(S, T, P, eos=E.njit(eos_tb), **kw)
    want = 0
    for ix in np.ndindex(*shape):
        k, K = oc.rng[ix]
        for i in range(k, K - 1):
            q = 0.5 * (oc.P[ix][i] + oc.P[ix][i + 1])
            if rho(oc.S[ix][i], oc.T[ix][i], q) >= rho(oc.S[ix][i + 1], oc.T[ix][i + 1], q):
                want += 1
    E.eq(E.const(got), E.const(want), "number of unstable pairs", tol=0.0)


class Minimizer:
    """Contract of scipy.optimize.minimize for a diagonal quadratic cost under affine constraints: the optimum, by
    its optimality conditions."""

    def __init__(self, E):
        self.E, self.n = E, 0

    def __call__(self, fun, x0, args=(), jac=None, constraints=(), **k):
        E = self.E
        n = len(x0)
        args = args if isinstance(args, tuple) else (args,)
        cons = [constraints] if isinstance(constraints, dict) else list(constraints)
        self.n += 1
        unit = lambda i: E.arr([E.const(1.0 if j == i else 0.0) for j in range(n)])
        zero = E.arr([E.const(0.0)] * n)
        W = [E.const(fun(unit(i), *args)) for i in range(n)]
        rows = []  # value at zero, gradient
        for c in cons:
            val = lambda x: [E.const(v) for v in np.asarray(c["fun"](x, *c.get("args", ())), dtype=object).reshape(-1)]
            c0 = val(zero)
            up = [val(unit(i)) for i in range(n)]
            rows += [(c["type"], c0[m], [up[i][m] - c0[m] for i in range(n)]) for m in range(len(c0))]
        lam = [E.fresh("lam") for _ in rows]
        x = []
        for i in range(n):
            v = E.const(0.0)
            for l, (_, _, g) in zip(lam, rows):
                v = v + l * g[i]
            x.append(v / (2.0 * W[i]))
        for l, (ty, c0, g) in zip(lam, rows):
            v = c0
            for gi, xi in zip(g, x):
                v = v + gi * xi
            if ty == "eq":
                E.assume(v == 0)
            else:
                E.assume(E.Or(E.And(v == 0, l >= 0), E.And(l == 0, v >= 0)))
        x = E.arr(x)
        if callable(jac):
            # exact for a quadratic cost
            base = [E.fresh("b") for _ in range(n)]
            g = jac(E.arr(base), *args)
            for i in range(n):
                up = E.arr([v + 1.0 if j == i else v for j, v in enumerate(base)])
                dn = E.arr([v - 1.0 if j == i else v for j, v in enumerate(base)])
                E.eq(2.0 * g[i], fun(up, *args) - fun(dn, *args), f"gradient of the cost, component {i}", ident=True)

        class R:
            pass
        r = R()
        r.x, r.success, r.status, r.message, r.fun, r.nit = x, True, 0, "", fun(x, *args), 1
        return r


def h_stab(E, shape=(1,), nk=2, kinds=("full",), vd=-1, p3d=False, weight=None, mind=None, tb=False, lo=-2, hi=2, symT=True, xr=False, symS=True, lay=None):
    m = E.mod("neutralocean.stability")
    oc = Ocean(E, shape, nk, kinds, symT=symT, symS=symS, vd=vd, p3d=p3d, lo=lo, hi=hi, lay=lay)
    S, T, P = oc.args()
    ixs = list(np.ndindex(*shape))
    w = 10.0 if weight is None else weight
    kw = {"verbose": False}
    if weight is not None:
        kw["weight"] = weight
    if vd != -1:
        kw["vert_dim"] = vd
    if xr:
        S, T, P = oc.xargs()
        kw["vert_dim"] = "z"
    mn = [1e-6] * (nk - 1)
    if mind == "scalar":
        kw["min_dLRPDdp"] = v = E.float("min", 0, 1)
        mn = [v] * (nk - 1)
    elif mind == "array":
        mn = [E.float(f"min_{i}", 0, 1) for i in range(nk - 1)]
        kw["min_dLRPDdp"] = E.arr(mn)
    r = rho if tb else (lambda s, t, p: s - 0.25 * t)

    def grad(ix, S, T):
        k, K = oc.rng[ix]
        out = []
        for i in range(k, K - 1):
            q = 0.5 * (oc.P[ix][i] + oc.P[ix][i + 1])
            out.append((r(S[i + 1], T[i + 1], q) - r(S[i], T[i], q)) / (oc.P[ix][i + 1] - oc.P[ix][i]))
        return out
    if E.symbolic:
        from .. import spshim
        spshim.MINIMIZE[0] = mz = Minimizer(E)
        try:
            m.stabilize_ST(S, T, P, E.njit(eos_tb if tb else eos_lin), **kw)
        finally:
            spshim.MINIMIZE[0] = None
    else:
        m.stabilize_ST(S, T, P, E.njit(eos_tb if tb else eos_lin), **kw)
    if xr:
        S, T = S.values, T.values
    # back to casts
    mv = lambda A: E.np.moveaxis(A, vd, -1) if vd not in (-1, len(shape)) else A
    S, T = mv(S), mv(T)
    for ix in ixs:
        wd = f"cast {ix}"
        k, K = oc.rng[ix]
        for i in range(nk):
            if not k <= i < K:
                E.check(E.And(E.isnan(S[ix][i]), E.isnan(T[ix][i])), f"{wd}: missing bottle {i} got a value")
        g0 = grad(ix, oc.S[ix], oc.T[ix])
        if bool(E.And(*[g >= mn[k + i] for i, g in enumerate(g0)])):
            for i in range(k, K):
                E.eq(S[ix][i], oc.S[ix][i], f"{wd}: stable, but salinity {i} changed", tol=0.0)
                E.eq(T[ix][i], oc.T[ix][i], f"{wd}: stable, but temperature {i} changed", tol=0.0)
            continue
        g1 = grad(ix, S[ix], T[ix])
        for i, g in enumerate(g1):
            E.le(mn[k + i], g, f"{wd}: gradient {i} is below the minimum", tol=1e-5)
        # optimality conditions of the least weighted change
        n = K - k
        dS = [S[ix][i] - oc.S[ix][i] for i in range(k, K)]
        dT = [T[ix][i] - oc.T[ix][i] for i in range(k, K)]
        be = [0.25 + 0.125 * (0.5 * (oc.P[ix][i] + oc.P[ix][i + 1])) if tb else 0.25 for i in range(k, K - 1)]
        mu, acc = [], E.const(0.0)
        for i in range(n - 1):
            acc = acc - w * dS[i]
            mu.append(acc)
        tl = dict(margin=1e-2, tol=1e-3)
        msg = f"{wd}: not the smallest weighted change"
        E.eq(w * dS[n - 1], mu[-1], msg + " (salinity)", **tl)
        for i in range(n):
            want = (be[i] * mu[i] if i < n - 1 else 0.0) - (be[i - 1] * mu[i - 1] if i else 0.0)
            E.eq(dT[i], want, f"{msg} (temperature {i})", **tl)
        for i in range(n - 1):
            E.le(0.0, mu[i], f"{msg} (pair {i} made less stable)", **tl)
            E.check(E.Or(E.abs(mu[i]) <= 1e-3, g1[i] - mn[k + i] <= 1e-3), f"{msg} (pair {i} more stable than needed)")
