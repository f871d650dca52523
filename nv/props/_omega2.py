"""The omega surface driver, through omega_surf."""
import numpy as np
from ._lay import combo, lay as lay_
from ._bfs import A_T, SL, distances, csr, eos_lin
from ._omega import eos_lin_s_t, solve_phi
from ._surf import KINDS, TOL, eos_tb, eos_tb_s_t

MARGIN = 1e-3


def eos_v(s, t, p):
    return 0.001 - 1e-06 * (s - 0.25 * t - 33.75)


def eos_v_s_t(s, t, p):
    return -1e-06 + 0.0 * s, 0.25e-06 + 0.0 * t


class Model:
    """what each step of omega_surf does to casts S = c + P, T = d - 2P (density c - d/4 + 1.5 P)"""

    def __init__(self, E, n, edges, c, d, rng, pin, ml):
        self.E, self.n, self.edges, self.c, self.d, self.rng, self.pin, self.ml = E, n, edges, c, d, rng, pin, ml
        self.nb = csr(n, edges)[2]
        self.p = [None] * n

    def dens(self, i, p=None):
        p = self.p[i] if p is None else p
        return self.c[i] - A_T * self.d[i] + SL * p

    def above(self, x, y):
        """x > y, away from a tie"""
        E = self.E
        E.assume(E.abs(x - y) >= MARGIN)
        return bool(x > y)

    def reach(self, i, dens):
        """depth on cast i with this density, None if there is none"""
        k, K = self.rng[i]
        if K - k < 2:
            return None
        r = (dens - (self.c[i] - A_T * self.d[i])) / SL
        if self.above(float(k), r) or self.above(r, float(K - 1)):
            return None
        return r

    def component(self):
        return set(distances(self.n, self.nb, self.pin, [x is not None for x in self.p]))

    def wet(self, rep):
        comp = self.component()
        self.p = [x if i in comp else None for i, x in enumerate(self.p)]
        todo = sorted({j for i in comp for j in self.nb[i] if j not in comp})
        seen = set(comp) | set(todo)
        new = 0
        while todo and (rep is None or rep > 0):
            rep = None if rep is None else rep - 1
            nxt = []
            for i in todo:
                src = [j for j in self.nb[i] if self.p[j] is not None]
                r = [self.reach(i, self.dens(j)) for j in src]
                r = [x for x in r if x is not None and (self.ml is None or self.above(x, self.ml[i]))]
                if r:
                    tot = r[0]
                    for x in r[1:]:
                        tot = tot + x
                    self.p[i] = tot / float(len(r))
                    new += 1
                    for j in self.nb[i]:
                        if j not in seen:
                            seen.add(j)
                            nxt.append(j)
            todo = nxt
        return new

    def update(self):
        """with density depending on S and T only the least squares solution is exact"""
        comp = self.component()
        old = list(self.p)
        phi = [None] * self.n
        for i in range(self.n):
            if i not in comp:
                self.p[i] = None
                continue
            phi[i] = self.dens(self.pin, old[self.pin]) - self.dens(i, old[i])
            if i != self.pin:
                self.p[i] = self.reach(i, self.dens(self.pin, old[self.pin]))
        return old, phi

    def norms(self, w, dist):
        """sums for the neutrality error norms of the surface: area, area |e|, area e^2"""
        E = self.E
        a = s1 = s2 = E.const(0.0)
        for k, (i, j) in enumerate(self.edges):
            if self.p[i] is not None and self.p[j] is not None:
                e = (self.dens(j) - self.dens(i)) / dist[k]
                ar = w[k] * dist[k]
                a, s1, s2 = a + ar, s1 + ar * E.abs(e), s2 + ar * e * e
        return a, s1, s2


def mean(E, xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t / float(len(xs))


def h_omega(E, n=3, edges=((0, 1), (1, 2)), nk=3, kinds=("full",), init="array", ml=None, form=None, iters=(None, 2), wetting=None, rep=None,
            tol=None, dptol=None, vol=False, diags=True, geom=True, pins=None, shape=None, vd=-1, xr=False, dry=True, out=True, norms=True, csym=None, warm=False, lay=None):
    m = E.mod("neutralocean.surface.omega")
    if warm:
        warmup(E, m)
    shape = shape or (n,)
    c = [E.float(f"c_{i}", -3, 3) if csym is None or i in csym else E.const((0.0, 0.75, -0.5, 0.25, -1.0, 0.5)[i]) for i in range(n)]
    d = [E.const(float(1 - i)) for i in range(n)]
    rng = [KINDS[kinds[E.concrete_int(E.int(f"cast_{i}", 0, len(kinds) - 1))] if len(kinds) > 1 else kinds[0]](nk) for i in range(n)]
    S = [[c[i] + float(k) if rng[i][0] <= k < rng[i][1] else E.nan for k in range(nk)] for i in range(n)]
    T = [[d[i] - 2.0 * k if rng[i][0] <= k < rng[i][1] else E.nan for k in range(nk)] for i in range(n)]
    S, T = (E.arr([x for r in A for x in r]).reshape(tuple(shape) + (nk,)) for A in (S, T))
    P = E.arr([float(k) for k in range(nk)])
    if vd != -1:
        S, T = (E.np.moveaxis(A, -1, vd) for A in (S, T))
    ks = combo(E, lay)
    S, T, P = (lay_(A, k) for A, k in zip((S, T, P), ks))
    pin = pins[E.concrete_int(E.int("pin", 0, len(pins) - 1))] if pins else E.concrete_int(E.int("pin", 0, n - 1))
    E.assume(rng[pin][1] - rng[pin][0] > 1)
    if ml == "arr":
        pml = E.floats("ml", n, -1, 3)
    elif ml == "dict":
        # density rises by SL per unit of depth everywhere: the mixed layer base is as far below the bottle
        dd, bot = E.float("mld", 0.125, SL * (nk - 1) - 0.125), E.concrete_int(E.int("mlb", 0, 1))
        E.assume(float(bot) + dd / SL + MARGIN <= nk - 1)
        pml = E.arr([float(bot) + dd / SL] * n)
    mo = Model(E, n, edges, c, d, rng, pin, pml if ml else None)
    # the initial surface
    pp = E.float("pin_p", 0, nk - 1)
    E.assume(E.And(rng[pin][0] <= pp, pp <= rng[pin][1] - 1))
    if init == "scalar":
        mo.p[pin] = pp
        p_init = pp if E.symbolic else float(pp)
        mo.wet(rep)
    else:
        pi = []
        for i in range(n):
            x = pp if i == pin else E.float(f"p_{i}", -1 if out else 0, nk if out else nk - 1, nan=dry)
            pi.append(x)
            k, K = rng[i]
            if i == pin:
                mo.p[i] = x
            elif not E.concretize_nan(x) and K - k > 1 and (not out and K - k == nk or not mo.above(float(k), x) and not mo.above(x, float(K - 1))):
                mo.p[i] = x
        p_init = lay_(E.arr(pi).reshape(shape), ks[0])
        E.assume(all(mo.p[i] is None or i in mo.component() for i in range(n)))
    kw = dict(eos=(E.njit(eos_v), E.njit(eos_v_s_t)) if vol else (E.njit(eos_lin), E.njit(eos_lin_s_t)), output=False, TOL_P_SOLVER=TOL)
    scale = -1e-6 if vol else 1.0
    w, dist = [1.0] * len(edges), [1.0] * len(edges)
    grid = {"edges": (np.array([a for a, b in edges]), np.array([b for a, b in edges]))}
    if geom:
        w, dist = [1.0 + 0.5 * i for i in range(len(edges))], [2.0 - 0.25 * i for i in range(len(edges))]
        grid["distperp"], grid["dist"] = np.array(w), np.array(dist)
    if not diags:
        kw["diags"] = False
    if ml:
        kw["p_ml"] = lay_(pml.reshape(shape), ks[1]) if ml == "arr" else dict(pot_dens_diff=dd, ref_p=0.5, bottle_index=bot)
        E.assume(pml[pin] + MARGIN <= pp)
    if form:
        kw["OMEGA_FORMULATION"] = form
    imin, imax = iters
    if imin == "sym":
        imin = E.concrete_int(E.int("iter_min", 0, 3))
    if imax == "sym":
        imax = E.concrete_int(E.int("iter_max", 0, 3))
    for nm, v in (("ITER_MIN", imin), ("ITER_MAX", imax), ("ITER_WET_PERIM", rep)):
        if v is not None:
            kw[nm] = v
    imin, imax = 1 if imin is None else imin, 10 if imax is None else imax
    ws, we = 1, 5
    if wetting == "never":
        kw["ITER_START_WETTING"] = np.inf
        ws = 10 ** 6
    elif wetting == "sym":
        ws = kw["ITER_START_WETTING"] = E.concrete_int(E.int("wet_start", 1, 3))
        we = kw["ITER_STOP_WETTING"] = E.concrete_int(E.int("wet_stop", 0, 3))
    eps = 1e-7
    if tol == "sym":
        eps = kw["TOL_LRPD_MAV"] = E.float("tol", 0.01, 4)
    elif tol is not None:
        eps = kw["TOL_LRPD_MAV"] = tol
    dpt = 0.0
    if dptol == "sym":
        dpt = kw["TOL_P_CHANGE_RMS"] = E.float("dptol", 0.01, 4)
    if vd != -1:
        kw["vert_dim"] = vd
    pin_arg = pin if len(shape) == 1 else tuple(int(x) for x in np.unravel_index(pin, shape))
    if xr:
        import xarray
        dims = list("xyw"[: len(shape)])
        dims.insert(vd if vd >= 0 else len(dims), "z")
        S, T = xarray.DataArray(S, dims=dims, name="salt"), xarray.DataArray(T, dims=dims, name="temp")
        kw["vert_dim"] = "z"
        if init == "array":
            p_init = xarray.DataArray(p_init, dims=[q for q in dims if q != "z"])
    s, t, p, dg = m.omega_surf(S, T, P, grid, pin_arg, p_init, **kw)
    if xr:
        hd = tuple("xyw"[: len(shape)])
        for A, nm in ((s, "salt"), (t, "temp")):
            E.check(hasattr(A, "dims") and tuple(A.dims) == hd and A.name == nm, f"{nm}: container of the output")
        s, t, p = (A.values if hasattr(A, "dims") else A for A in (s, t, p))
    E.check(s.shape == shape and t.shape == shape and p.shape == shape, "output shape")
    s, t, p = (E.np.reshape(A, -1) for A in (s, t, p))
    # the model
    rec = [dict(wet=sum(x is not None for x in mo.p), norms=mo.norms(w, dist))]
    it = 0
    for it in range(1, imax + 1):
        if ml and it > 1:
            mo.p = [x if x is None or mo.above(x, pml[i]) else None for i, x in enumerate(mo.p)]
        new = mo.wet(rep) if ws <= it <= we else 0
        old, phi = mo.update()
        ph = [E.abs(x) for x in phi if x is not None]
        dp = [E.abs(a - b) for a, b in zip(mo.p, old) if a is not None and b is not None]
        rec.append(dict(wet=sum(x is not None for x in mo.p), new=new, phi=mean(E, ph), dp=dp, norms=mo.norms(w, dist)))
        if it >= imin:
            stop = False
            if isinstance(eps, float) and 0 < eps < MARGIN:
                # exactly met, or missed by far
                E.assume(E.Or(mean(E, ph) <= eps / 100, mean(E, ph) >= MARGIN))
                stop = bool(mean(E, ph) < eps)
            elif eps > 0 and not mo.above(mean(E, ph), eps):
                stop = True
            elif dptol and not _rms_above(E, dp, dpt):
                stop = True
            if stop:
                break
    # the surface
    for i in range(n):
        x = mo.p[i]
        if x is None:
            E.check(E.And(E.isnan(p[i]), E.isnan(s[i]), E.isnan(t[i])), f"cast {i} should not be on the surface")
            continue
        E.eq(p[i], x, f"depth of cast {i}", tol=0.0 if i == pin else 1e-5)
        E.eq(s[i], c[i] + x, f"salinity of cast {i}", tol=1e-5)
        E.eq(t[i], d[i] - 2.0 * x, f"temperature of cast {i}", tol=1e-5)
    if not diags:
        return
    for k in ("e_MAV", "e_RMS", "n_wet", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_newly_wet", "timer_bfs", "timer_mat", "timer_update"):
        E.check(len(dg[k]) == it + 1, f"{k}: {len(dg[k])} values for {it} iterations")
    for i, r in enumerate(rec):
        E.check(int(dg["n_wet"][i]) == r["wet"], f"n_wet of iteration {i}")
        if norms:
            a, s1, s2 = r["norms"]
            E.eq(dg["e_MAV"][i] * a, s1 * abs(scale), f"e_MAV of iteration {i}", tol=1e-5, ident=True)
            E.eq(dg["e_RMS"][i] * dg["e_RMS"][i] * a, s2 * scale * scale, f"e_RMS of iteration {i}", tol=1e-5, ident=True)
        if i == 0:
            continue
        E.check(int(dg["n_newly_wet"][i]) == r["new"], f"n_newly_wet of iteration {i}")
        E.eq(dg["ϕ_MAV"][i] / abs(scale), r["phi"], f"phi_MAV of iteration {i}", tol=1e-5)
        if r["dp"]:
            E.eq(dg["Δp_MAV"][i], mean(E, r["dp"]), f"dp_MAV of iteration {i}", tol=1e-5)
            mx = r["dp"][0]
            for x in r["dp"][1:]:
                mx = E.max(mx, x)
            E.eq(dg["Δp_Linf"][i], mx, f"dp_Linf of iteration {i}", tol=1e-5)
            E.eq(dg["Δp_RMS"][i] * dg["Δp_RMS"][i], mean(E, [x * x for x in r["dp"]]), f"dp_RMS of iteration {i}", tol=1e-5)


def warmup(E, m):
    """an unrelated call before, with every option different"""
    S, T = E.arr([34.0, 35.0, 36.0, 34.5, 35.5, 36.5]).reshape((2, 3)), E.arr([9.0, 5.0, 1.0, 8.0, 4.0, 0.0]).reshape((2, 3))
    g = {"edges": (np.array([0]), np.array([1])), "dist": np.array([3.0]), "distperp": np.array([5.0])}
    m.omega_surf(S, T, E.arr([0.0, 1.0, 2.0]), g, 1, E.arr([1.0, 1.0]), eos=(E.njit(eos_v), E.njit(eos_v_s_t)), output=False, TOL_P_SOLVER=TOL,
                 ITER_MAX=1, interp="pchip", OMEGA_FORMULATION="gradient", p_ml=E.arr([0.0, 0.0]))


def _rms_above(E, dp, tol):
    ms = mean(E, [x * x for x in dp])
    E.assume(E.abs(ms - tol * tol) >= MARGIN)
    return bool(ms > tol * tol)


def h_weights(E, form="poisson", edges=((0, 1), (2, 1), (0, 2)), n=3, geom="arr", flat=False, nsym=1, dry=False, csym=None, pins=None, dsym=()):
    """one iteration with a density for which the surface cannot be made neutral: least squares
    with weights distperp / dist"""
    m = E.mod("neutralocean.surface.omega")
    nk = 3
    csym = (range(n) if flat else ()) if csym is None else csym
    c = [E.float(f"c_{i}", -1, 1) if i in csym else E.const((0.0, 1.0, -0.5, 0.25, 0.5, -0.25, 0.75, 0.125, -0.75)[i]) for i in range(n)]
    d = [E.float(f"d_{i}", -4, 4) if i in dsym else E.const((0.0, 2.0, 3.0, 1.0, 1.5, 2.5, 0.5, 1.0, 2.0)[i]) for i in range(n)]
    S = E.arr([c[i] + float(k) for i in range(n) for k in range(nk)]).reshape((n, nk))
    T = E.arr([d[i] - 2.0 * k for i in range(n) for k in range(nk)]).reshape((n, nk))
    P = E.arr([float(k) for k in range(nk)])
    p0 = [E.const((0.5, 1.0, 1.75, 0.75, 1.25, 0.875, 1.0, 1.5, 1.125)[i]) if flat or i >= nsym else E.float(f"p_{i}", 0, nk - 1) for i in range(n)]
    ref = pins[E.concrete_int(E.int("pin", 0, len(pins) - 1))] if pins else E.concrete_int(E.int("pin", 0, n - 1))
    wet = [i == ref or dry is False or dry is not True and i not in dry or bool(E.bool(f"wet_{i}")) for i in range(n)]
    comp = set(distances(n, csr(n, edges)[2], ref, wet))
    ne = len(edges)
    w, ds = ([1.0, 3.0, 0.5, 2.0, 1.5] + [1.0, 2.0, 0.75, 1.25] * 2)[:ne], ([2.0, 1.0, 0.5, 1.5, 1.0] + [0.5, 1.0, 3.0] * 3)[:ne]
    grid = {"edges": (np.array([a for a, b in edges]), np.array([b for a, b in edges]))}
    if geom == "arr":
        grid["distperp"], grid["dist"] = np.array(w), np.array(ds)
    elif geom == "mixed":
        w = [3.0] * ne
        grid["distperp"], grid["dist"] = 3.0, np.array(ds)
    elif geom == "scalar":
        w, ds = [3.0] * ne, [2.0] * ne
        grid["distperp"], grid["dist"] = 3.0, 2.0
    elif geom == "perp":
        ds = [1.0] * ne
        grid["distperp"] = np.array(w)
    elif geom == "dist":
        w = [1.0] * ne
        grid["dist"] = np.array(ds)
    elif geom == "none":
        w, ds = [1.0] * ne, [1.0] * ne
    elif geom == "sym":
        w = [x * x for x in (E.float(f"w_{i}", 0.5, 2) for i in range(ne))] if form == "gradient" else [E.float(f"w_{i}", 0.25, 4) for i in range(ne)]
        grid["distperp"], grid["dist"] = E.arr(w), np.array(ds)
    s, t, p, _ = m.omega_surf(S, T, P, grid, ref, E.arr([x if i in comp else E.nan for i, x in enumerate(p0)]), eos=(E.njit(eos_tb), E.njit(eos_tb_s_t)), output=False, diags=False,
                              TOL_P_SOLVER=TOL, ITER_MAX=1, ITER_START_WETTING=np.inf, OMEGA_FORMULATION=form)
    s0, t0 = [c[i] + p0[i] for i in range(n)], [d[i] - 2.0 * p0[i] for i in range(n)]
    e = [(s0[b] - s0[a]) - (0.25 + 0.0625 * (p0[a] + p0[b])) * (t0[b] - t0[a]) for a, b in edges]
    ratio = [(x if geom == "sym" else E.const(x)) / y for x, y in zip(w, ds)]
    phi = solve_phi(E, comp, ref, edges, ratio, e)
    E.eq(p[ref], p0[ref], "pinned depth", tol=0.0)
    for i in range(n):
        if i not in comp:
            E.check(E.isnan(p[i]), f"cast {i} is not connected to the pinning cast but not NaN")
            continue
        a = 0.25 + 0.125 * p0[i]
        g = lambda x: c[i] + x - a * (d[i] - 2.0 * x)
        gap = 1e-5 if form == "poisson" else 1e-4
        if E.concretize_nan(p[i]):
            E.check(E.Or(g(0.0) > g(p0[i]) + phi[i] - gap, g(nk - 1.0) < g(p0[i]) + phi[i] + gap), f"cast {i}: lost although its new depth is inside the cast")
            continue
        E.eq(s[i], c[i] + p[i], f"cast {i}: salinity", tol=1e-7)
        E.eq(t[i], d[i] - 2.0 * p[i], f"cast {i}: temperature", tol=1e-7)
        E.eq(g(p[i]), g(p0[i]) + phi[i], f"cast {i}: not moved by the least squares solution", tol=gap, margin=1e-3, ident=True)


def h_refuse(E):
    """bad requests raise, they do not return a surface"""
    m = E.mod("neutralocean.surface.omega")
    n, nk = 2, 2
    S = E.arr([E.float(f"c_{i}", -1, 1) + float(k) for i in range(n) for k in range(nk)]).reshape((n, nk))
    T = E.arr([1.0] * (n * nk)).reshape((n, nk))
    P = E.arr([0.0, 1.0])
    grid = {"edges": (np.array([0]), np.array([1]))}
    kw = dict(eos=(E.njit(eos_lin), E.njit(eos_lin_s_t)), output=False, diags=False, ITER_MAX=1)
    mode = E.concrete_int(E.int("mode", 0, 4))
    x = E.float("x", -3, 3)
    if mode == 0:  # the surface is not in the pinning cast
        E.assume(E.Or(x < -MARGIN, x > 1 + MARGIN))
        a, err = E.arr([x, E.const(0.5)]), RuntimeError
    elif mode == 1:
        a, err = E.arr([E.nan, E.const(0.5)]), RuntimeError
    elif mode == 2:
        E.assume(E.Or(x < -MARGIN, x > 1 + MARGIN))
        a, err = (x if E.symbolic else float(x)), RuntimeError
    elif mode == 3:
        a, err = E.arr([0.5, 0.5, 0.5]), ValueError
    else:
        a, err = E.arr([0.5, 0.5]), ValueError
        kw["OMEGA_FORMULATION"] = "other"
    try:
        m.omega_surf(S, T, P, grid, 0, a, **kw)
    except err:
        return
    E.fail(f"no {err.__name__} for request {mode}")
