"""Public functions use the equation of state they are asked for.

The named equations of state are replaced by simple ones (the same ones in the replay), so that the whole
computation stays within reach; what they contain is C08's and C09's business."""
import numpy as np
from ._contract import fz  # noqa
from ._pure import casts, grid, leaves

BSQ = dict(grav=16.0, rho_c=1250.0)  # pressure = 2 depth


def r_a(s, t, p):
    return 2000.0 + s - t * (0.25 + 0.125 * p)


def r_a_s_t(s, t, p):
    return 1.0 + 0.0 * s, -(0.25 + 0.125 * p)


def r_b(s, t, p):
    return 2000.0 + 2.0 * s - t * (0.75 + 0.0625 * p)


def r_b_s_t(s, t, p):
    return 2.0 + 0.0 * s, -(0.75 + 0.0625 * p)


def v_c(s, t, p):
    return 0.5 - (s - t * (0.5 + 0.0625 * p)) / 1024.0


def v_c_s_t(s, t, p):
    return -1.0 / 1024.0 + 0.0 * s, (0.5 + 0.0625 * p) / 1024.0


def r_a2(s, t, p):
    return 2000.0 + s - t * (0.25 + 0.125 * (2.0 * p))


def r_a2_s_t(s, t, p):
    return 1.0 + 0.0 * s, -(0.25 + 0.125 * (2.0 * p))


def r_b2(s, t, p):
    return 2000.0 + 2.0 * s - t * (0.75 + 0.0625 * (2.0 * p))


def r_b2_s_t(s, t, p):
    return 2.0 + 0.0 * s, -(0.75 + 0.0625 * (2.0 * p))


def v_c2(s, t, p):
    return 0.5 - (s - t * (0.5 + 0.0625 * (2.0 * p))) / 1024.0


def v_c2_s_t(s, t, p):
    return -1.0 / 1024.0 + 0.0 * s, (0.5 + 0.0625 * (2.0 * p)) / 1024.0


NAMES = {"jmd95": ("rho", r_a, r_a_s_t), "jmdfwg06": ("rho", r_b, r_b_s_t), "gsw": ("specvol", v_c, v_c_s_t)}
DIRECT = {("jmd95", 0): (r_a, r_a_s_t), ("jmdfwg06", 0): (r_b, r_b_s_t), ("gsw", 0): (v_c, v_c_s_t),
          ("jmd95", 1): (r_a2, r_a2_s_t), ("jmdfwg06", 1): (r_b2, r_b2_s_t), ("gsw", 1): (v_c2, v_c2_s_t)}
_J = {}


def jit(E, f):
    if E.symbolic:
        return E.njit(f)
    if f not in _J:
        _J[f] = E.njit(f)
    return _J[f]


def patch(E):
    """put the simple functions in place of the named ones; False when the factory does not see them"""
    for nm, (b, f, g) in NAMES.items():
        m = E.mod("neutralocean.eos." + nm)
        setattr(m, b, jit(E, f))
        setattr(m, b + "_s_t", jit(E, g))
    t = E.mod("neutralocean.eos.tools")
    for nm, (b, f, g) in NAMES.items():
        try:
            if t.make_eos(nm) is not jit(E, f) or t.make_eos_s_t(nm) is not jit(E, g):
                return False
        except Exception:
            return False
    return True


def pick(E, names=("default", "gsw", "jmd95", "jmdfwg06")):
    """(keywords naming the equation of state, name, Boussinesq?)"""
    nm = names[E.concrete_int(E.int("name", 0, len(names) - 1))]
    q = E.concrete_int(E.int("boussinesq", 0, 1))
    kw = dict(BSQ) if q else {}
    if nm != "default":
        kw["eos"] = nm
    return kw, ("gsw" if nm == "default" else nm), q


def equal(E, what, a, b, skip=(), tol=1e-6):
    keep = lambda x: [(p, v) for p, v in leaves(x) if not any(s in p for s in skip)]
    a, b = keep(a), keep(b)
    E.check([p for p, _ in a] == [p for p, _ in b], f"{what}: different structure")
    for (p, x), (_, y) in zip(a, b):
        x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
        E.check(x.shape == y.shape, f"{what}{p}: shape")
        for i in np.ndindex(x.shape):
            E.eq(E.const(x[i]), E.const(y[i]), f"{what}: not that of the equation of state asked for: {p}{list(i) if i else ''}", 1e-3, tol)


def h_eos(E, what):
    if not patch(E):
        if E.symbolic:
            raise E.S.Unsupported("the named equations of state cannot be replaced")
        return
    kw, nm, q = pick(E)
    f, g = (jit(E, x) for x in DIRECT[nm, q])
    if what in ("potential_surf", "anomaly_surf", "potential_diags", "anomaly_diags"):
        m = E.mod("neutralocean.surface.isopycnal")
        S, T, P = casts(E)
        fn = getattr(m, what[:what.index("_")] + "_surf")
        o = dict(pin_cast=0, pin_p=E.float("pin_p", 0.0625, 0.9375), diags=False, output=False, TOL_P_SOLVER=1e-9)
        if what.endswith("diags"):
            o.update(diags=True, grid=grid())
        equal(E, what, fn(S, T, P, **o, **kw), fn(S, T, P, **o, eos=(f, g)), skip=("timer",))
    elif what == "omega_surf":
        m = E.mod("neutralocean.surface.omega")
        S, T, P = casts(E)
        o = dict(output=False, TOL_P_SOLVER=1e-9, ITER_MAX=1)
        pi = E.arr([E.float("p_0", 0.25, 0.75), E.float("p_1", 0.5, 1)])
        equal(E, what, m.omega_surf(S, T, P, grid(), 0, pi, **o, **kw), m.omega_surf(S, T, P, grid(), 0, pi, **o, eos=(f, g)), skip=("timer",), tol=1e-5)
    elif what == "neutral_trajectory":
        m = E.mod("neutralocean.traj")
        S, T, P = casts(E)
        p = E.float("p0", 0.0625, 0.9375)
        equal(E, what, m.neutral_trajectory(S, T, P, p, tol_p=1e-9, **kw), m.neutral_trajectory(S, T, P, p, tol_p=1e-9, eos=f))
    elif what == "ntp_bottle_to_cast":
        m = E.mod("neutralocean.traj")
        S, T, P = casts(E)
        b = [E.float(x, -2, 2) for x in ("sB", "tB")] + [E.float("pB", 0, 2)]
        equal(E, what, m.ntp_bottle_to_cast(*b, S[1], T[1], P[1], tol_p=1e-9, **kw), m.ntp_bottle_to_cast(*b, S[1], T[1], P[1], tol_p=1e-9, eos=f))
    elif what == "veronis":
        m = E.mod("neutralocean.label")
        S, T, P = casts(E, nk=3)
        p1 = E.float("p1", 0.0625, 1.9375)
        o = dict(p0=0.5, p_ref=0.25, dp=0.5)
        equal(E, what, m.veronis(p1, S[0], T[0], P[0], **o, **kw), m.veronis(p1, S[0], T[0], P[0], **o, eos=(f, g)))
    elif what == "mixed_layer":
        m = E.mod("neutralocean.mixed_layer")
        S, T, P = casts(E, nk=3)
        o = dict(ref_p=0.75, pot_dens_diff=0.5 if nm != "gsw" else 1 / 1024, bottle_index=0)
        k2 = dict(kw)
        equal(E, what, m.mixed_layer(S, T, P, **o, **k2), m.mixed_layer(S, T, P, **o, eos=f))
    elif what in ("ntp_epsilon_errors", "ntp_epsilon_errors_norms"):
        m = E.mod("neutralocean.ntp")
        s, t, p = (E.floats(x, 2, 0, 4) for x in "stp")
        k2 = {("eos_s_t" if k == "eos" else k): v for k, v in kw.items()}
        fn = getattr(m, what)
        equal(E, what, fn(s, t, p, grid(), **k2), fn(s, t, p, grid(), g))


def h_refuse(E):
    """unknown names and things that are not equations of state are refused by every function"""
    bad = E.concrete_int(E.int("what", 0, 2))
    S, T, P = casts(E)
    e = ["no such equation", 7, None][bad]
    calls = {
        "potential_surf": lambda m, **k: m.potential_surf(S, T, P, pin_cast=0, pin_p=0.5, diags=False, output=False, **k),
        "anomaly_surf": lambda m, **k: m.anomaly_surf(S, T, P, pin_cast=0, pin_p=0.5, diags=False, output=False, **k),
        "omega_surf": lambda m, **k: m.omega_surf(S, T, P, grid(), 0, E.arr([0.5, 0.5]), output=False, ITER_MAX=1, **k),
        "neutral_trajectory": lambda m, **k: m.neutral_trajectory(S, T, P, 0.5, **k),
        "ntp_bottle_to_cast": lambda m, **k: m.ntp_bottle_to_cast(0.0, 0.0, 0.5, S[1], T[1], P[1], **k),
        "veronis": lambda m, **k: m.veronis(0.75, S[0], T[0], P[0], p0=0.5, **k),
        "mixed_layer": lambda m, **k: m.mixed_layer(S, T, P, **k),
        "ntp_epsilon_errors": lambda m, eos: m.ntp_epsilon_errors(S[:, 0], T[:, 0], P[:, 0], grid(), eos),
        "ntp_epsilon_errors_norms": lambda m, eos: m.ntp_epsilon_errors_norms(S[:, 0], T[:, 0], P[:, 0], grid(), eos)}
    mods = dict(potential_surf="surface.isopycnal", anomaly_surf="surface.isopycnal", omega_surf="surface.omega", neutral_trajectory="traj",
                ntp_bottle_to_cast="traj", veronis="label", mixed_layer="mixed_layer", ntp_epsilon_errors="ntp", ntp_epsilon_errors_norms="ntp")
    for nm, f in calls.items():
        try:
            f(E.mod("neutralocean." + mods[nm]), eos=e)
            ok = False
        except (ValueError, TypeError):
            ok = True
        E.check(ok, f"{nm} accepted {e!r} as an equation of state")
