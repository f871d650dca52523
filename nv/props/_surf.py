"""Isosurfaces of potential density and in-situ anomaly."""
import numpy as np
from ._lay import combo, lay as lay_
from ._interp import lin, find_piece, pchip_slopes, hermite

TOL = 1e-9


def eos_tb(s, t, p):
    """a small thermobaric equation of state"""
    return s - t * (0.25 + 0.125 * p)


def eos_tb_s_t(s, t, p):
    return 1.0 + 0.0 * s, -(0.25 + 0.125 * p)


LEV = (0.0, 1.0, 3.0, 4.0, 6.0, 6.5, 9.0, 10.0)
KINDS = {"full": lambda nk: (0, nk), "land": lambda nk: (nk, nk), "one": lambda nk: (0, 1), "shallow": lambda nk: (0, nk - 1), "cavity": lambda nk: (1, nk)}


class Ocean:
    """casts laid out as a horizontal shape; `kind` of each cast chosen symbolically from kinds"""

    def __init__(self, E, shape, nk, kinds=("full",), lev=LEV, symT=True, p3d=False, lo=-4, hi=4, vd=-1, symS=True, lay=None):
        self.lay = combo(E, lay)
        self.E, self.shape, self.nk = E, shape, nk
        n = int(np.prod(shape))
        self.S, self.T, self.P, self.rng = {}, {}, {}, {}
        for c, ix in enumerate(np.ndindex(*shape)):
            kk = kinds[E.concrete_int(E.int(f"cast_{c}", 0, len(kinds) - 1))] if len(kinds) > 1 else kinds[0]
            k, K = KINDS[kk](nk)
            off = 0.5 * c if p3d else 0.0
            self.rng[ix] = (k, K)
            self.P[ix] = [E.const(lev[i] + off) for i in range(nk)]
            if isinstance(symS, tuple):  # these levels only
                self.S[ix] = [E.float(f"S_{c}_{i}", lo, 10 * hi) if i in symS and k <= i < K else E.const(float((i * i) / (c + 1) - 1)) if k <= i < K else E.nan for i in range(nk)]
            elif symS:
                self.S[ix] = [E.float(f"S_{c}_{i}", lo, hi) if k <= i < K else E.nan for i in range(nk)]
            else:
                self.S[ix] = [E.const(float((i * i) / (c + 1) - 1)) if k <= i < K else E.nan for i in range(nk)]
            if symT is True:
                self.T[ix] = [E.float(f"T_{c}_{i}", lo, hi) if k <= i < K else E.nan for i in range(nk)]
            else:
                self.T[ix] = [E.const(float((c + 1) * 0.5 - i)) if k <= i < K else E.nan for i in range(nk)]
        self.p3d = p3d
        self.vd = vd

    def arr(self, D):
        """array with the casts along dimension vd"""
        nk = self.nk
        full = self.shape + (nk,)
        flat = [D[ix][i] for ix in np.ndindex(*self.shape) for i in range(nk)]
        a = self.E.arr(flat).reshape(full)
        if self.vd not in (-1, len(full) - 1):
            a = self.E.np.moveaxis(a, -1, self.vd)
        return a

    def args(self):
        P = self.arr(self.P) if self.p3d else self.E.arr(self.P[next(iter(self.P))])
        return tuple(lay_(x, k) for x, k in zip((self.arr(self.S), self.arr(self.T), P), self.lay))

    def valid(self, ix):
        k, K = self.rng[ix]
        return K - k > 1

    def xargs(self, p1d="np"):
        """the same in xarray containers (the vertical dimension has no coordinate when p1d is np)"""
        import xarray as xr
        hd = tuple("xyw"[: len(self.shape)])
        dims = list(hd)
        dims.insert(self.vd if self.vd >= 0 else len(dims), "z")
        co = {d: 10.0 * np.arange(n) + 5.0 for d, n in zip(hd, self.shape)}
        if p1d != "np":
            co["z"] = np.arange(self.nk) * 2.0
        S, T, P = self.args()
        S, T = (xr.DataArray(A, dims=dims, coords=co, name=nm, attrs={"units": nm}) for A, nm in ((S, "salt"), (T, "temp")))
        if self.p3d:
            P = xr.DataArray(P, dims=dims, coords=co, name="pres", attrs={"units": "dbar"})
        elif p1d == "xr":
            P = xr.DataArray(P, dims=("z",), coords={"z": co["z"]}, name="pres", attrs={"units": "dbar"})
        self.co, self.hd = {d: co[d] for d in hd}, hd
        return S, T, P

    def unwrap(self, A, w, name=None):
        """output in a container of the horizontal dimensions"""
        E = self.E
        E.check(hasattr(A, "dims"), f"{w}: not in an xarray container")
        E.check(tuple(A.dims) == self.hd, f"{w}: dimensions {A.dims}, expected {self.hd}")
        for d in self.hd:
            E.check(d in A.coords and A.coords[d].values.tolist() == self.co[d].tolist(), f"{w}: coordinate {d} lost")
        if name is not None:
            E.check(A.name == name[0] and A.attrs.get("units") == name[1], f"{w}: name or attributes lost")
        return A.values

    def at(self, ix, p, interp="linear"):
        """S, T of cast ix at p by the textbook interpolant"""
        E = self.E
        k, K = self.rng[ix]
        if K - k < 2:
            return E.nan, E.nan
        i = find_piece(E, p, self.P[ix], k, K)
        if i is None:
            return E.nan, E.nan
        if interp == "linear":
            return lin(self.P[ix], self.S[ix], i, p), lin(self.P[ix], self.T[ix], i, p)
        out = []
        for Y in (self.S[ix], self.T[ix]):
            d, _, _ = pchip_slopes(E, self.P[ix], Y, k, K)
            out.append(hermite(p, self.P[ix], Y, d, i))
        return tuple(out)


def chain_grid(E, n, dist=True):
    edges = (np.arange(n - 1), np.arange(1, n))
    g = {"edges": edges}
    if dist:
        g["dist"] = E.arr([E.const(2.0 + i) for i in range(n - 1)])
        g["distperp"] = E.arr([E.const(1.0 + 0.5 * i) for i in range(n - 1)])
    return g


def h_surf(E, ans, mode, shape=(2,), nk=2, kinds=("full",), interp="linear", diags=False, grid_dist=True, boxed=True, p3d=False, vd=-1, symT=True, symS=True, xr=None, lay=None):
    m = E.mod("neutralocean.surface.isopycnal")
    oc = Ocean(E, shape, nk, kinds, symT=symT, p3d=p3d, vd=vd, symS=symS, lay=lay)
    S, T, P = oc.args() if not xr else oc.xargs(xr)
    eos, eos_s_t = E.njit(eos_tb), E.njit(eos_tb_s_t)
    kw = dict(eos=(eos, eos_s_t) if diags else eos, diags=diags, output=False, TOL_P_SOLVER=TOL, interp=interp, vert_dim=vd)
    ixs = list(np.ndindex(*shape))
    n = len(ixs)
    if diags:
        kw["grid"] = chain_grid(E, n, grid_dist)
    if ans == "potential":
        ref = E.float("ref", -1, 5)
        f = lambda s, t, p, ref: s - t * (0.25 + 0.125 * ref)
    else:
        ref = (E.float("ref_s", -2, 2), E.float("ref_t", -2, 2))
        f = lambda s, t, p, ref: s - t * (0.25 + 0.125 * p) - (ref[0] - ref[1] * (0.25 + 0.125 * p))
    iso = E.float("iso", -3, 3 if nk < 5 else 80)
    pin = None
    if "pin" in mode:
        c = E.concrete_int(E.int("pin_cast", 0, n - 1))
        pin = ixs[c]
        k, K = oc.rng[pin]
        E.assume(K - k > 1)
        pp = E.float("pin_p", -1, 6 if nk < 5 else 12)
        E.assume(E.And(oc.P[pin][k] <= pp, pp <= oc.P[pin][K - 1]))
        kw["pin_p"] = pp
        if xr and E.bool("pin_as_dict"):
            kw["pin_cast"] = {d: float(oc.co[d][i]) for d, i in (zip(oc.hd, pin) if E.bool("pin_order") else reversed(list(zip(oc.hd, pin))))}
        else:
            kw["pin_cast"] = pin if len(shape) > 1 or E.bool("pin_as_tuple") else c
    if "ref" in mode:
        kw["ref"] = ref
        if ans == "anomaly" and mode in ("ref+pin", "ref+iso+pin"):
            part = E.concrete_int(E.int("ref_partial", 0, 3))
            if part:
                kw["ref"] = tuple(None if part >> i & 1 else ref[i] for i in (0, 1))
    if "iso" in mode:
        kw["isoval"] = iso
    if xr and E.bool("dim_by_name"):
        kw["vert_dim"] = "z"
    s, t, p, d = (m.potential_surf if ans == "potential" else m.anomaly_surf)(S, T, P, **kw)
    if xr:
        s, t = oc.unwrap(s, "salinity", ("salt", "salt")), oc.unwrap(t, "temperature", ("temp", "temp"))
        p = oc.unwrap(p, "pressure", ("pres", "dbar") if p3d or xr == "xr" else None)
    # what the surface should be
    full = kw.get("ref") is ref and "iso" in mode
    if full:
        pass
    else:
        s0, t0 = oc.at(pin, pp, interp)
        if "ref" not in mode or kw["ref"] is not ref:
            ref = pp if ans == "potential" else (s0, t0)
        iso = f(s0, t0, pp, ref)
    if ans == "potential":
        E.eq(d["ref"], ref, "reported reference value", tol=1e-9)
    else:
        E.eq(d["ref"][0], ref[0], "reported reference salinity", tol=1e-9)
        E.eq(d["ref"][1], ref[1], "reported reference temperature", tol=1e-9)
    E.eq(d["isoval"], iso, "reported isovalue", tol=1e-9)
    E.check(s.shape == shape and t.shape == shape and p.shape == shape, "output shape")
    pinned = pin is not None and not full
    for ix in ixs:
        w = f"cast {ix}"
        k, K = oc.rng[ix]
        if not oc.valid(ix):
            E.check(E.And(E.isnan(p[ix]), E.isnan(s[ix]), E.isnan(t[ix])), f"{w}: value on a cast without two valid bottles")
            continue
        if pinned and ix == pin:
            E.eq(p[ix], pp, f"{w}: not at the pinning depth", tol=0.0)
            E.eq(s[ix], s0, f"{w}: salinity at the pinning depth", tol=1e-9)
            E.eq(t[ix], t0, f"{w}: temperature at the pinning depth", tol=1e-9)
            continue
        top = f(oc.S[ix][k], oc.T[ix][k], oc.P[ix][k], ref) - iso
        bot = f(oc.S[ix][K - 1], oc.T[ix][K - 1], oc.P[ix][K - 1], ref) - iso
        if E.concretize_nan(p[ix]):
            E.check(E.And(E.isnan(s[ix]), E.isnan(t[ix])), f"{w}: p is NaN but s or t is not")
            g = 1e-7
            E.check(E.Or(E.And(top > -g, bot > -g), E.And(top < g, bot < g)), f"{w}: no surface although it lies between the ends of the cast")
            continue
        E.le(oc.P[ix][k], p[ix], f"{w}: surface above the cast")
        E.le(p[ix], oc.P[ix][K - 1], f"{w}: surface below the cast")
        if E.symbolic:
            s1, t1 = oc.at(ix, p[ix], interp)
        else:
            s1, t1 = oc.at(ix, min(max(p[ix], oc.P[ix][k]), oc.P[ix][K - 1]), interp)
        E.eq(s[ix], s1, f"{w}: salinity is not that of the cast at p", tol=1e-8)
        E.eq(t[ix], t1, f"{w}: temperature is not that of the cast at p", tol=1e-8)
        E.eq(f(s1, t1, p[ix], ref), iso, f"{w}: value on the surface is not the isovalue", tol=1e-6)
    if diags:
        nw = E.const(0.0)
        for ix in ixs:
            nw = nw + E.ite(E.isnan(p[ix]), E.const(0.0), E.const(1.0))
        E.eq(d["n_wet"], nw, "reported number of wet casts")


def _named(a):
    """equations of state that are different functions with one name"""
    def density(s, t, p):
        return s - t * (a + 0.125 * p)
    return density


def h_history(E, calls=2, interps=("linear", "pchip"), sym=True):
    """surfaces computed one after another in a session, each with its own kind, equation of state and
    interpolant: each is the surface asked for"""
    m = E.mod("neutralocean.surface.isopycnal")
    oc = Ocean(E, (1,), 3, symS=False, symT=False)
    S, T, P = oc.args()
    eos = [E.njit(_named(a)) for a in (0.25, 1.0)]
    for c in range(calls):
        if sym or c == 0:
            ans = ("potential", "anomaly")[E.concrete_int(E.int(f"kind_{c}", 0, 1))]
            e = E.concrete_int(E.int(f"eos_{c}", 0, 1)) if sym else 1
        ip = interps[E.concrete_int(E.int(f"interp_{c}", 0, len(interps) - 1))]
        a = (0.25, 1.0)[e]
        x = E.float("depth", 0.25, 2.75) if sym and c == calls - 1 else E.const(0.75)
        s0, t0 = oc.at((0,), x, ip)
        ref = 1.5 if ans == "potential" else (0.25, 0.5)
        f = (lambda s, t, p: s - t * (a + 0.125 * 1.5)) if ans == "potential" else (lambda s, t, p: s - 0.25 - (t - 0.5) * (a + 0.125 * p))
        iso = f(s0, t0, x)
        s, t, p, d = (m.potential_surf if ans == "potential" else m.anomaly_surf)(S, T, P, ref=ref, isoval=iso, eos=eos[e], interp=ip, diags=False, output=False, TOL_P_SOLVER=TOL)
        E.check(E.Not(E.isnan(p[0])), f"surface {c + 1}: not found")
        s1, t1 = oc.at((0,), p[0], ip)
        E.eq(s[0], s1, f"surface {c + 1}: salinity is not that of the cast at p", tol=1e-8)
        E.eq(t[0], t1, f"surface {c + 1}: temperature is not that of the cast at p", tol=1e-8)
        E.eq(f(s[0], t[0], p[0]), iso, f"surface {c + 1}: value on the surface is not the isovalue", tol=1e-6)
