"""Neutrality errors, neutral links, neutral trajectories, mixed layer."""
import numpy as np
from ._lay import combo, flat3, lay as lay_
from ._surf import Ocean, eos_tb, TOL


def eos_gen_s_t(s, t, p):
    return 1.0 + 0.125 * t + 0.0625 * p, -0.25 - 0.125 * p - 0.0625 * s


def surf_arrays(E, shape, nan=True):
    n = int(np.prod(shape))
    out = []
    if nan == "one":
        dry = E.concrete_int(E.int("dry", -1, n - 1))
        wet = [i != dry for i in range(n)]
    else:
        wet = [not E.bool(f"dry_{i}") for i in range(n)] if nan else [True] * n
    for nm, lo, hi in (("s", -4, 4), ("t", -4, 4), ("p", 0, 8)):
        out.append([E.float(f"{nm}_{i}", lo, hi) if wet[i] else E.nan for i in range(n)])
    return out, wet


def geom(E, kind, name, ne):
    """a distance given per edge, as a number, or left out"""
    if kind == "none":
        return None, [E.const(1.0)] * ne
    if kind == "scalar":
        v = E.float(name, 0.5, 4)
        return v, [v] * ne
    v = [E.float(f"{name}_{i}", 0.5, 4) for i in range(ne)]
    return E.arr(v), v


def eps_ref(E, s, t, p, edges, scale=1.0):
    e = []
    for a, b in edges:
        rs, rt = eos_gen_s_t(0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b]) * scale)
        e.append(rs * (s[b] - s[a]) + rt * (t[b] - t[a]))
    return e


STAR6 = ((0, 3), (2, 1), (4, 3), (3, 5), (5, 0), (1, 4), (2, 5))
BSQ = dict(grav=16.0, rho_c=1250.0)  # pressure = 2 depth


def h_eps(E, shape=(3,), edges=((0, 1), (1, 2)), form="dict", dist="arr", bsq=False, nan=True, xr=False, lay=None, ints=False):
    """neutrality error of each pair of adjacent casts"""
    m = E.mod("neutralocean.ntp")
    (s, t, p), wet = surf_arrays(E, shape, nan)
    if ints:  # salinities given as integers
        si = [E.concrete_int(E.int(f"s_{i}", -2, 3)) for i in range(len(s))]
        s, t, p = [E.const(x) for x in si], [x if w else E.const(0.5) for x, w in zip(t, wet)], [x if w else E.const(0.5) for x, w in zip(p, wet)]
    g = (np.array([a for a, b in edges]), np.array([b for a, b in edges]))
    da, d = geom(E, dist, "dist", len(edges))
    if form == "dict":
        g = {"edges": g}
        if da is not None:
            g["dist"] = da
    kw = BSQ if bsq else {}
    mk = lambda x: E.arr(x).reshape(shape)
    if xr:
        import xarray
        mk = lambda x: xarray.DataArray(E.arr(x).reshape(shape), dims=list("xyz"[:len(shape)]))
    ks = combo(E, lay)
    A = [lay_(mk(x), k) for x, k in zip((s, t, p), ks)] if lay is not None else [mk(x) for x in (s, t, p)]
    if ints:
        A[0] = np.array(si).reshape(shape)
    e = m.ntp_epsilon_errors(*A, g, E.njit(eos_gen_s_t), **kw)
    E.check(e.shape == (len(edges),), "one error per edge")
    ref = eps_ref(E, s, t, p, edges, 2.0 if bsq else 1.0)
    for i in range(len(edges)):
        E.eq(e[i] * d[i], ref[i], f"error of edge {i}", tol=1e-9)


def h_norms(E, shape=(3,), edges=((0, 1), (1, 2)), dist="arr", perp="arr", small=False, bsq=False, nan=True, lay=None):
    """area-weighted RMS and mean absolute neutrality error"""
    m = E.mod("neutralocean.ntp")
    if small:
        s, wet = surf_arrays(E, shape, nan)[0][0], None
        wet = [not E.concretize_nan(x) for x in s]
        t = [E.const(0.5 * i) if w else E.nan for i, w in enumerate(wet)]
        p = [E.const(1.0 + i) if w else E.nan for i, w in enumerate(wet)]
    else:
        (s, t, p), wet = surf_arrays(E, shape, nan)
    ne = len(edges)
    g = {"edges": (np.array([a for a, b in edges]), np.array([b for a, b in edges]))}
    da, d = geom(E, dist, "dist", ne)
    pa, q = geom(E, perp, "perp", ne)
    if da is not None:
        g["dist"] = da
    if pa is not None:
        g["distperp"] = pa
    mk = lambda x: E.arr(x).reshape(shape)
    A = [lay_(mk(x), k) for x, k in zip((s, t, p), combo(E, lay))]
    rms, mav = m.ntp_epsilon_errors_norms(*A, g, E.njit(eos_gen_s_t), **(BSQ if bsq else {}))
    e = eps_ref(E, s, t, p, edges, 2.0 if bsq else 1.0)
    ok = [i for i, (a, b) in enumerate(edges) if wet[a] and wet[b]]
    if not ok:
        E.eq(rms, E.const(0.0), "RMS of no errors", tol=0.0)
        E.eq(mav, E.const(0.0), "MAV of no errors", tol=0.0)
        return
    den = sum((d[i] * q[i] for i in ok[1:]), d[ok[0]] * q[ok[0]])
    # weights: area dist*perp; error per distance: e/dist
    s2 = sum((q[i] * e[i] * e[i] / d[i] for i in ok[1:]), q[ok[0]] * e[ok[0]] * e[ok[0]] / d[ok[0]])
    s1 = sum((q[i] * E.abs(e[i]) for i in ok[1:]), q[ok[0]] * E.abs(e[ok[0]]))
    E.eq(mav * den, s1, "area-weighted mean absolute error", tol=1e-9, ident=True)
    E.le(E.const(0.0), rms, "RMS is negative", tol=0.0)
    E.eq(rms * rms * den, s2, "area-weighted mean square error", tol=1e-9, ident=True)


# ------------------------------------------------------------------ neutral links
def one_link(E, oc, ix, sB, tB, pB, s, t, p, interp, w, scale=1.0):
    """(s, t, p) is neutrally related to the bottle and lies on cast ix"""
    f = lambda a, b, q: a - b * (0.25 + 0.125 * scale * q)
    k, K = oc.rng[ix]
    if not oc.valid(ix):
        E.check(E.And(E.isnan(p), E.isnan(s), E.isnan(t)), f"{w}: value on a cast without two valid bottles")
        return
    P = oc.P[ix]
    if E.concretize_nan(sB) or E.concretize_nan(tB):
        E.check(E.And(E.isnan(p), E.isnan(s), E.isnan(t)), f"{w}: value although the bottle is NaN")
        return
    g = lambda j: (lambda q: f(sB, tB, q) - f(oc.S[ix][j], oc.T[ix][j], q))(0.5 * (pB + P[j]))
    top, bot = g(k), g(K - 1)
    if E.concretize_nan(p):
        E.check(E.And(E.isnan(s), E.isnan(t)), f"{w}: p is NaN but s or t is not")
        E.check(E.Or(E.And(top > -1e-7, bot > -1e-7), E.And(top < 1e-7, bot < 1e-7)), f"{w}: no link although the ends of the cast are on either side of the bottle")
        return
    E.le(P[k], p, f"{w}: above the cast")
    E.le(p, P[K - 1], f"{w}: below the cast")
    s1, t1 = oc.at(ix, p if E.symbolic else min(max(p, P[k]), P[K - 1]), interp)
    E.eq(s, s1, f"{w}: salinity is not that of the cast at p", tol=1e-8)
    E.eq(t, t1, f"{w}: temperature is not that of the cast at p", tol=1e-8)
    q = 0.5 * (pB + p)
    E.eq(f(s1, t1, q), f(sB, tB, q), f"{w}: not neutrally related at the mean pressure", tol=1e-6)


def h_link(E, nk=3, kinds=("full",), interp="linear", symT=True, symS=True, bsq=False, lay=None):
    m = E.mod("neutralocean.traj")
    oc = Ocean(E, (1,), nk, kinds, symT=symT, symS=symS)
    S, T, P = oc.args()
    sB, tB = E.float("sB", -4, 4 if nk < 5 else 60), E.float("tB", -4, 4)
    pB = E.float("pB", -2, 6 if nk < 5 else 12)
    S, T, P = flat3(E, S, T, P, lay)
    kw = dict(tol_p=TOL, **(BSQ if bsq else {}))
    if interp != "linear":
        kw["interp"] = interp
    s, t, p = m.ntp_bottle_to_cast(sB, tB, pB, S, T, P, eos=E.njit(eos_tb), **kw)
    one_link(E, oc, (0,), sB, tB, pB, s, t, p, interp, "link", 2.0 if bsq else 1.0)


def h_traj(E, nc=3, nk=2, kinds=("full",), interp="linear", symT=True, symS=True, vd=-1, p3d=False, out=True, bsq=False, xr=None, lay=None):
    m = E.mod("neutralocean.traj")
    oc = Ocean(E, (nc,), nk, kinds, symT=symT, symS=symS, vd=vd, p3d=p3d, lay=lay)
    S, T, P = oc.args() if not xr else oc.xargs(xr)
    k, K = oc.rng[(0,)]
    E.assume(K - k > 1)
    p0 = E.float("p0", -1 if out else 0, 6 if nk < 5 else 12)
    if not out:
        E.assume(E.And(oc.P[(0,)][k] <= p0, p0 <= oc.P[(0,)][K - 1]))
    kw = dict(tol_p=TOL, **(BSQ if bsq else {}))
    if interp != "linear":
        kw["interp"] = interp
    if vd != -1:
        kw["vert_dim"] = vd
    if xr:
        kw["vert_dim"] = "z"
    s, t, p = m.neutral_trajectory(S, T, P, p0, eos=E.njit(eos_tb), **kw)
    if xr:
        s, t, p = (getattr(x, "values", x) for x in (s, t, p))
    E.check(s.shape == (nc,) and t.shape == (nc,) and p.shape == (nc,), "one bottle per cast")
    s0, t0 = oc.at((0,), p0, interp)
    E.eq(s[0], s0, "salinity of the first bottle", tol=1e-9)
    E.eq(t[0], t0, "temperature of the first bottle", tol=1e-9)
    if E.concretize_nan(s0):
        lost = True
    else:
        E.eq(p[0], p0, "pressure of the first bottle", tol=0.0)
        lost = False
    for c in range(1, nc):
        if lost:
            E.check(E.And(E.isnan(p[c]), E.isnan(s[c]), E.isnan(t[c])), f"cast {c}: trajectory continues after it left the ocean")
            continue
        one_link(E, oc, (c,), s[c - 1], t[c - 1], p[c - 1], s[c], t[c], p[c], interp, f"cast {c}", 2.0 if bsq else 1.0)
        lost = E.concretize_nan(p[c])


# ------------------------------------------------------------------ mixed layer
def eos_rho(s, t, p):
    return 1000.0 + s - t * (0.25 + 0.001 * p)


def eos_vol(s, t, p):
    return 1.0 / (1000.0 + s - t * (0.25 + 0.001 * p))


def h_ml(E, shape=(1,), nk=3, kinds=("full",), vol=False, interp="linear", bottle=None, vd=-1, p3d=False, symT=True, symS=True, ref=None, drop=None, bsq=False, xr=False, lay=None):
    m = E.mod("neutralocean.mixed_layer")
    oc = Ocean(E, shape, nk, kinds, symT=symT, symS=symS, vd=vd, p3d=p3d, lay=lay)
    S, T, P = oc.args() if not xr else oc.xargs(xr)
    kw = dict(BSQ) if bsq else {}
    b = 1 if bottle is None else bottle
    if bottle is not None:
        kw["bottle_index"] = bottle
    refp = 100.0
    if ref == "sym":
        refp = kw["ref_p"] = E.float("ref_p", 0, 1000)
    diff = 0.03
    if drop == "sym":
        diff = kw["pot_dens_diff"] = E.float("diff", 0.0, 2)
    if vd != -1:
        kw["vert_dim"] = vd
    if xr:
        kw["vert_dim"] = "z"
    if interp != "linear":
        kw["interp"] = interp
    dens = {}
    for ix in np.ndindex(*shape):
        k, K = oc.rng[ix]
        r = dens[ix] = [eos_rho(oc.S[ix][i], oc.T[ix][i], refp * (2.0 if bsq else 1.0)) if k <= i < K else E.nan for i in range(nk)]
        # stable casts: density increases from bottle to bottle
        E.assume(E.And(*[r[i] + 1e-3 <= r[i + 1] for i in range(k, K - 1)]))
    ml = m.mixed_layer(S, T, P, eos=E.njit(eos_vol if vol else eos_rho), **kw)
    if xr:
        ml = getattr(ml, "values", ml)
    E.check(ml.shape == shape, "one depth per cast")
    for ix in np.ndindex(*shape):
        w = f"cast {ix}"
        k, K = oc.rng[ix]
        if not oc.valid(ix) or not k <= b < K:
            E.check(E.isnan(ml[ix]), f"{w}: mixed layer without two valid bottles or without the near-surface bottle")
            continue
        r = dens[ix]
        d = [r[i] - r[b] for i in range(nk)]
        z = ml[ix]
        lo, hi = d[k], d[K - 1]
        if E.concretize_nan(z):
            E.check(E.Or(diff < lo + 1e-9, diff > hi - 1e-9), f"{w}: no mixed layer although the threshold is reached")
            continue
        E.le(lo, diff, f"{w}: mixed layer although the threshold is above the cast")
        E.le(diff, hi, f"{w}: mixed layer although the threshold is never reached")
        for i in range(k, K - 1):
            P_ = oc.P[ix]
            inside = E.And(d[i] <= diff, diff <= d[i + 1])
            val = P_[i] + (diff - d[i]) / (d[i + 1] - d[i]) * (P_[i + 1] - P_[i])
            E.check(E.Implies(inside, E.abs(z - val) <= 1e-5), f"{w}: not where the density exceeds that of the near-surface bottle by the threshold (piece {i})")
