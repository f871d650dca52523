"""Veronis density."""
import numpy as np
from ._interp import find_piece, lin, pchip_slopes, hermite
from ._lay import flat3
from ._surf import Ocean, eos_tb, eos_tb_s_t

BSQ = dict(grav=16.0, rho_c=1250.0)


def eos_q(s, t, p):
    return s - t * 0.25


def eos_q_s_t(s, t, p):
    """curved in p: the trapezoidal rule is not exact"""
    return 1.0 + 0.0 * s, -(0.25 + 0.125 * p * p)


def h_veronis(E, nk=3, kinds=("full",), dp=None, b=None, ref=None, p0=True, curved=False, interp="linear", symT=True, symS=True, lo=-1, hi=5, lay=None):
    m = E.mod("neutralocean.label")
    oc = Ocean(E, (1,), nk, kinds, symT=symT, symS=symS)
    S, T, P = oc.args()
    S, T, P = flat3(E, S, T, P, lay)
    ix = (0,)
    k, K = oc.rng[ix]
    kw = dict(eos=(E.njit(eos_tb), E.njit(eos_q_s_t if curved else eos_tb_s_t)))
    step = 1.0
    if dp == "sym":
        step = kw["dp"] = E.float("dp", 0.5, 3)
    elif dp is not None:
        step = kw["dp"] = dp
    fac = 1.0
    if b == "sym":
        fac = kw["b"] = E.float("b", -2, 2)
    pr = 0.0
    if ref == "sym":
        pr = kw["p_ref"] = E.float("p_ref", -1, 5)
    if interp != "linear":
        kw["interp"] = interp
    p1 = E.float("p1", lo, hi)
    if p0:
        a = kw["p0"] = E.float("p0", lo, hi)
    else:
        a = oc.P[ix][0]
    v = m.veronis(p1, S, T, P, **kw)
    Pk = oc.P[ix]
    inside = lambda x: E.And(Pk[k] <= x, x <= Pk[K - 1]) if K - k > 1 else False
    if not (inside(a) and inside(p1)):
        E.check(E.isnan(v), "value although p0 or p1 is outside the cast")
        return
    s0, t0 = oc.at(ix, a, interp)
    d0 = s0 - t0 * (0.25 + 0.125 * pr)
    up = bool(p1 < a)
    x0, x1 = (p1, a) if up else (a, p1)
    i0, i1 = find_piece(E, x0, Pk, k, K), find_piece(E, x1, Pk, k, K)
    tot, err = E.const(0.0), E.const(0.0)
    sl = None
    if interp == "pchip":
        sl = [pchip_slopes(E, Pk, Y, k, K)[0] for Y in (oc.S[ix], oc.T[ix])]
    for i in range(i0, i1 + 1):
        u = x0 if i == i0 else Pk[i]
        w = x1 if i == i1 else Pk[i + 1]
        h = Pk[i + 1] - Pk[i]
        if interp == "linear":
            ds, dt = (oc.S[ix][i + 1] - oc.S[ix][i]) / h, (oc.T[ix][i + 1] - oc.T[ix][i]) / h
            if curved:
                tot = tot + ds * (w - u) - dt * (0.25 * (w - u) + 0.125 / 3 * (w * w * w - u * u * u))
                err = err + 2.0 * h * step * step * E.abs(dt) * 0.25 / 12
            else:
                tot = tot + ds * (w - u) - dt * (0.25 * (w - u) + 0.0625 * (w * w - u * u))
        else:
            # the density here has constant derivatives: the integral is a difference
            raise NotImplementedError
    want = d0 + fac * (-tot if up else tot)
    if curved:
        E.le(E.abs(v - want), E.abs(fac * err) if fac != 1.0 else err, "trapezoidal error is larger than steps of dp allow", tol=1e-9)
    else:
        E.eq(v, want, "surface density plus integrated gradient", tol=1e-9)


def h_pchip(E, nk=3, dp=0.5):
    """constant derivatives: the integrand is the slope of the interpolant, a quadratic"""
    m = E.mod("neutralocean.label")
    oc = Ocean(E, (1,), nk, ("full",), symT=False, symS=False)
    S, T, P = oc.args()
    S, T = S.reshape(-1), T.reshape(-1)
    ix = (0,)
    from ._omega import eos_lin_s_t
    from ._bfs import eos_lin
    p0, p1 = E.float("p0", 0, 4), E.float("p1", 0, 4)
    Pk = oc.P[ix]
    E.assume(E.And(p0 <= Pk[nk - 1], p1 <= Pk[nk - 1]))
    v = m.veronis(p1, S, T, P, p0=p0, dp=dp, interp="pchip", eos=(E.njit(eos_lin), E.njit(eos_lin_s_t)))
    s1, t1 = oc.at(ix, p1, "pchip")
    err = 0.0
    for Y, w in ((oc.S[ix], 1.0), (oc.T[ix], 0.25)):
        d, _, _ = pchip_slopes(E, Pk, Y, 0, nk)
        for i in range(nk - 1):
            h = Pk[i + 1] - Pk[i]
            c3 = (d[i] + d[i + 1] - 2.0 * (Y[i + 1] - Y[i]) / h) / (h * h)
            err = err + 2.0 * w * E.abs(c3) * h * dp * dp * 0.5
    E.le(E.abs(v - (s1 - 0.25 * t1)), err + 1e-9, "trapezoidal error is larger than steps of dp allow", tol=1e-9)
