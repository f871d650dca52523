"""Omega surfaces."""
import inspect
import numpy as np
from ._bfs import csr, distances, eos_lin, A_T, SL, link
from ._surf import eos_tb, eos_tb_s_t, Ocean, TOL


def eos_lin_s_t(s, t, p):
    return 1.0 + 0.0 * s, -0.25 + 0.0 * t


def priv(E, mod, name, params):
    """an internal function; if it is no longer there, or takes other parameters, the harness is not applicable"""
    f = getattr(E.mod(mod), name, None)
    if not E.symbolic:
        return f
    if f is None:
        raise E.S.Unsupported(f"{mod} has no {name}")
    try:
        have = list(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        raise E.S.Unsupported(f"{mod}.{name}: signature")
    if have != params.split():
        raise E.S.Unsupported(f"{mod}.{name} has other parameters")

    def g(*a, **k):
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError as e:
            raise E.S.Unsupported(f"{mod}.{name}: {e}")
        return f(*a, **k)
    return g


def h_update(E, nk=3, kinds=("full",), interp="linear", symT=True, symS=True, n=1, form="poisson"):
    """one iteration moves each cast next to the pinning cast to where its locally referenced
    potential density has changed by phi = minus its neutrality error"""
    m = E.mod("neutralocean.surface.omega")
    oc = Ocean(E, (n + 1,), nk, kinds, symT=symT, symS=symS)
    E.assume(oc.rng[(0,)] == (0, nk))
    c0 = E.float("c", -8, 8)
    oc.S[(0,)], oc.T[(0,)] = [c0] * nk, [E.const(0.0)] * nk
    S, T, P = oc.args()
    pp = E.const(0.5)
    p0 = [pp]
    for c in range(1, n + 1):
        k, K = oc.rng[(c,)]
        p0.append(E.float(f"p_{c}", oc.P[(c,)][k], oc.P[(c,)][K - 1]) if K - k > 1 else E.const(0.5))
    grid = {"edges": (np.array([0] * n), np.arange(1, n + 1))}
    s, t, p, _ = m.omega_surf(S, T, P, grid, 0, E.arr(p0), eos=(E.njit(eos_tb), E.njit(eos_tb_s_t)), interp=interp, ITER_MAX=1, ITER_START_WETTING=np.inf,
                              OMEGA_FORMULATION=form, TOL_P_SOLVER=TOL, diags=False, output=False)
    E.eq(p[0], pp, "pinning cast: moved", tol=0.0)
    E.eq(s[0], c0, "pinning cast: salinity", tol=1e-9)
    E.eq(t[0], E.const(0.0), "pinning cast: temperature", tol=1e-9)
    for c in range(1, n + 1):
        ix = (c,)
        w = f"cast {c}"
        k, K = oc.rng[ix]
        if K - k < 2:
            E.check(E.And(E.isnan(p[c]), E.isnan(s[c]), E.isnan(t[c])), f"{w}: not NaN although the cast is too short")
            continue
        s0, t0 = oc.at(ix, p0[c], interp)
        g = lambda a, b: a - b * (0.25 + 0.125 * p0[c])
        phi = c0 - s0 + (0.25 + 0.0625 * (pp + p0[c])) * t0
        want = g(s0, t0) + phi
        top, bot = g(oc.S[ix][k], oc.T[ix][k]) - want, g(oc.S[ix][K - 1], oc.T[ix][K - 1]) - want
        gap = 1e-6 if form == "poisson" else 1e-4
        if E.concretize_nan(p[c]):
            E.check(E.And(E.isnan(s[c]), E.isnan(t[c])), f"{w}: p is NaN but s or t is not")
            E.check(E.Or(E.And(top > -gap, bot > -gap), E.And(top < gap, bot < gap)), f"{w}: lost although the target lies between the ends")
            continue
        E.le(oc.P[ix][k], p[c], f"{w}: above the cast")
        E.le(p[c], oc.P[ix][K - 1], f"{w}: below the cast")
        s1, t1 = oc.at(ix, p[c] if E.symbolic else min(max(p[c], oc.P[ix][k]), oc.P[ix][K - 1]), interp)
        E.eq(s[c], s1, f"{w}: salinity is not that of the cast at p", tol=1e-8)
        E.eq(t[c], t1, f"{w}: temperature is not that of the cast at p", tol=1e-8)
        E.eq(g(s1, t1), want, f"{w}: locally referenced density is not changed by phi", tol=gap, ident=True)


# ------------------------------------------------------------------ the linear problem
def solve_phi(E, comp, ref, edges, ratio, e):
    """least squares heights on a connected component by exact elimination: for every node
    sum over its edges of ratio (phi_node - phi_other -+ e) = 0, phi_ref = 0"""
    others = [i for i in sorted(comp) if i != ref]
    n = len(others)
    pos = {i: k for k, i in enumerate(others)}
    A = [[E.const(0.0)] * n for _ in range(n)]
    r = [E.const(0.0)] * n
    for k, (a, b) in enumerate(edges):
        if a not in comp or b not in comp or a == b:
            continue
        for u, v, sg in ((a, b, 1.0), (b, a, -1.0)):
            if u in pos:
                i = pos[u]
                A[i][i] = A[i][i] + ratio[k]
                r[i] = r[i] + sg * ratio[k] * e[k]
                if v in pos:
                    A[i][pos[v]] = A[i][pos[v]] - ratio[k]
    # Gaussian elimination; the pivots of a grounded Laplacian are positive
    for i in range(n):
        for j in range(i + 1, n):
            m = A[j][i] / A[i][i]
            A[j] = [x - m * y for x, y in zip(A[j], A[i])]
            r[j] = r[j] - m * r[i]
    x = [None] * n
    for i in reversed(range(n)):
        v = r[i]
        for j in range(i + 1, n):
            v = v - A[i][j] * x[j]
        x[i] = v / A[i][i]
    phi = {ref: E.const(0.0)}
    phi.update({i: x[pos[i]] for i in others})
    return phi
