"""Harnesses over neutralocean.eos."""
import math
import types
from fractions import Fraction

from ..harness import Job

EOS = "neutralocean.eos"

# ---------------------------------------------------------------- published formulas
# Jackett & McDougall (1995), JAOT 12, 381-388 (densjmd95.m), pressure in dbar
_JF = [999.842594, 6.793952e-02, -9.095290e-03, 1.001685e-04, -1.120083e-06, 6.536332e-09]
_JS = [8.244930e-01, -4.089900e-03, 7.643800e-05, -8.246700e-07, 5.387500e-09]
_JS1 = [-5.724660e-03, 1.022700e-04, -1.654600e-06]
_JS2 = 4.831400e-04
_JKF = [1.965933e+05, 1.444304e+03, -1.706103e+01, 9.648704e-02, -4.190253e-04]
_JKS = [5.284855e+02, -3.101089e+00, 6.283263e-02, -5.084188e-04]
_JKS1 = [3.886640e+00, 9.085835e-02, -4.619924e-03]
_JP = [3.186519e+00, 2.212276e-02, -2.984642e-04, 1.956415e-06]
_JPS = [6.704388e-03, -1.847318e-04, 2.059331e-07]
_JPS1 = 1.480266e-04
_JPP = [2.102898e-05, -1.202016e-06, 1.394680e-08]
_JPPS = [-2.040237e-07, 6.128773e-09, 6.207323e-11]


def _pl(c, t):
    r = c[-1] + 0 * t
    for k in reversed(c[:-1]):
        r = r * t + k
    return r


def jmd95(r, t, p):
    """r = sqrt(salinity)"""
    s = r * r
    rho0 = _pl(_JF, t) + s * _pl(_JS, t) + s * r * _pl(_JS1, t) + s * s * _JS2
    K = _pl(_JKF, t) + s * _pl(_JKS, t) + s * r * _pl(_JKS1, t) \
        + p * (_pl(_JP, t) + s * _pl(_JPS, t) + s * r * _JPS1) + p * p * (_pl(_JPP, t) + s * _pl(_JPPS, t))
    return rho0 * K / (K - p)


# Jackett, McDougall, Feistel, Wright & Griffies (2006), JTECH 23, table A2
_A = [9.9984085444849347e+02, 7.3471625860981584e+00, -5.3211231792841769e-02, 3.6492439109814549e-04,
      2.5880571023991390e+00, -6.7168282786692355e-03, 1.9203202055760151e-03, 1.1798263740430364e-02,
      9.8920219266399117e-08, 4.6996642771754730e-06, -2.5862187075154352e-08, -3.2921414007960662e-12]
_B = [1.0, 7.2815210113327091e-03, -4.4787265461983921e-05, 3.3851002965802430e-07, 1.3651202389758572e-10,
      1.7632126669040377e-03, -8.8066583251206474e-06, -1.8832689434804897e-10, 5.7463776745432097e-06,
      1.4716275472242334e-09, 6.7103246285651894e-06, -2.4461698007024582e-17, -9.1534417604289062e-18]


def jmdfwg06(r, t, p):
    s = r * r
    a, b = _A, _B
    num = a[0] + a[1] * t + a[2] * t * t + a[3] * t * t * t + a[4] * s + a[5] * s * t + a[6] * s * s \
        + a[7] * p + a[8] * p * t * t + a[9] * p * s + a[10] * p * p + a[11] * p * p * t * t
    den = b[0] + b[1] * t + b[2] * t * t + b[3] * t * t * t + b[4] * t * t * t * t \
        + b[5] * s + b[6] * s * t + b[7] * s * t * t * t + b[8] * s * r + b[9] * s * r * t * t \
        + b[10] * p + b[11] * p * p * t * t * t + b[12] * p * p * p * t
    return num / den


# Roquet, Madec, McDougall & Barker (2015), Ocean Modelling 90: 75-term specific volume (gsw_specvol)
_V = """000 1.0769995862e-3 001 -6.0799143809e-5 002 9.9856169219e-6 003 -1.1309361437e-6 004 1.0531153080e-7
005 -1.2647261286e-8 006 1.9613503930e-9 010 -1.5649734675e-5 011 1.8505765429e-5 012 -1.1736386731e-6
013 -3.6527006553e-7 014 3.1454099902e-7 020 2.7762106484e-5 021 -1.1716606853e-5 022 2.1305028740e-6
023 2.8695905159e-7 030 -1.6521159259e-5 031 7.9279656173e-6 032 -4.6132540037e-7 040 6.9111322702e-6
041 -3.4102187482e-6 042 -6.3352916514e-8 050 -8.0539615540e-7 051 5.0736766814e-7 060 2.0543094268e-7
100 -3.1038981976e-4 101 2.4262468747e-5 102 -5.8484432984e-7 103 3.6310188515e-7 104 -1.1147125423e-7
110 3.5009599764e-5 111 -9.5677088156e-6 112 -5.5699154557e-6 113 -2.7295696237e-7 120 -3.7435842344e-5
121 -2.3678308361e-7 122 3.9137387080e-7 130 2.4141479483e-5 131 -3.4558773655e-6 132 7.7618888092e-9
140 -8.7595873154e-6 141 1.2956717783e-6 150 -3.3052758900e-7 200 6.6928067038e-4 201 -3.4792460974e-5
202 -4.8122251597e-6 203 1.6746303780e-8 210 -4.3592678561e-5 211 1.1100834765e-5 212 5.4620748834e-6
220 3.5907822760e-5 221 2.9283346295e-6 222 -6.5731104067e-7 230 -1.4353633048e-5 231 3.1655306078e-7
240 4.3703680598e-6 300 -8.5047933937e-4 301 3.7470777305e-5 302 4.9263106998e-6 310 3.4532461828e-5
311 -9.8447117844e-6 312 -1.3544185627e-6 320 -1.8698584187e-5 321 -4.8826139200e-7 330 2.2863324556e-6
400 5.8086069943e-4 401 -1.7322218612e-5 402 -1.7811974727e-6 410 -1.1959409788e-5 411 2.5909225260e-6
420 3.8595339244e-6 500 -2.1092370507e-4 501 3.0927427253e-6 510 1.3864594581e-6 600 3.1932457305e-5""".split()
_V = {k: float(v) for k, v in zip(_V[::2], _V[1::2])}
SFAC, OFFSET = 0.0248826675584615, 5.971840214030754e-1


def gsw(x, t, p):
    """x = sqrt(sfac * SA + offset)"""
    y, z = t * 0.025, p * 1e-4
    tot = 0 * t
    for k in range(6, -1, -1):  # powers of z
        cz = 0 * t
        for j in range(6, -1, -1):
            cy = 0 * t
            for i in range(6, -1, -1):
                cy = cy * x + _V.get(f"{i}{j}{k}", 0.0)
            cz = cz * y + cy
        tot = tot * z + cz
    return tot


SPEC = {"jmd95": (jmd95, 1, 0, "rho"), "jmdfwg06": (jmdfwg06, 1, 0, "rho"), "gsw": (gsw, SFAC, OFFSET, "specvol")}
SLO, SHI, TLO, THI, PLO, PHI = 0, 42, -3, 40, 0, 11000


class Poly3:
    """normal forms over (root, t, p), root = sqrt(alpha*s + beta)"""

    def __init__(self, E, alpha, beta):
        from .. import poly
        self.P = poly
        self.E = E
        self.al, self.be = Fraction(alpha), Fraction(beta)
        self.stats = E.path.ex.stats

        root = self.root
        self.box = [(root(self.al * SLO + self.be, True), root(self.al * SHI + self.be, False)),
                    (Fraction(TLO), Fraction(THI)), (Fraction(PLO), Fraction(PHI))]
        self.v = [poly.Rat(poly.Poly.var(i, 3)) for i in range(3)]
        r = self.v[0]
        self.s = (r * r - self.be) * Fraction(1 / self.al)
        self.memo = {}
        E.path.decide = self.decide
        self.mid0 = self.mid()

    @staticmethod
    def root(q, up):
        n = 10 ** 9
        return Fraction(math.isqrt(int(q * n * n)) + (1 if up else 0), n)

    def env(self):
        z3 = self.E.S.z3
        env = {"s": self.s, "t": self.v[1], "p": self.v[2]}
        for key, y, _ in self.E.path.sqrts:
            q = self.P.from_z3(key, env, 3, self.known)
            d = q - self.s * self.al - self.be
            if d.n.zero():
                env[y.decl().name()] = self.v[0]
            else:
                raise self.P.NotPoly("sqrt of " + str(key)[:60])
        return env

    def known(self, c):
        """truth of a condition on the whole box, if it has one"""
        z3 = self.E.S.z3
        for val in (True, False):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*[x for x in self.E.path.pc if "sqrt" not in x.sexpr()])
            s.add(z3.Not(c) if val else c)
            if self.P._check(s, self.stats) == z3.unsat:
                return val
        return None

    def decide(self, c):
        """used by the engine for branch conditions: comparisons of polynomials with a definite answer on the box"""
        z3 = self.E.S.z3
        if z3.is_not(c):
            r = self.decide(c.arg(0))
            return None if r is None else not r
        if c.num_args() != 2 or not z3.is_arith(c.arg(0)):
            return None
        a, b = c.arg(0), c.arg(1)
        try:
            sg = self.sign(a) if z3.is_rational_value(b) and b.as_fraction() == 0 else \
                -self.sign(b) if z3.is_rational_value(a) and a.as_fraction() == 0 else self.sign(a - b)
        except self.P.NotPoly:
            return None
        if not sg:
            return None
        k = c.decl().kind()
        return {z3.Z3_OP_EQ: False, z3.Z3_OP_DISTINCT: True, z3.Z3_OP_LE: sg < 0, z3.Z3_OP_LT: sg < 0,
                z3.Z3_OP_GE: sg > 0, z3.Z3_OP_GT: sg > 0}.get(k)

    def sign(self, e):
        z3 = self.E.S.z3
        if e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            sg = 1
            for x in e.children():
                sg *= self.sign(x)
            return sg
        d = self.rat(e)
        sg = self.P.sign(d.n, self.box, self.stats)
        for f, k in d.f:
            sg *= self.P.sign(f, self.box, self.stats) ** k
        return sg

    def rat(self, e):
        return self.P.from_z3(e, self.env(), 3, self.known, {})

    def of(self, x):
        x = self.E.S.as_float(x)
        self.E.check(self.E.Not(self.E.isnan(x)), "NaN for valid input")
        return self.P.from_z3(self.E.S.z(x.v), self.env(), 3, self.fork, {})

    def fork(self, c):
        """truth of a condition: known on the whole box, or one path for each"""
        v = self.known(c)
        if v is None:
            v = bool(self.E.S.SymBool(c))
            self.shrink()
        return v

    def plain(self):
        """the path condition on s, t, p alone"""
        return [x for x in self.E.path.pc if "sqrt" not in x.sexpr()]

    def shrink(self):
        """the box of this path (outer bounds of each variable under the path condition)"""
        z3 = self.E.S.z3
        lim = [(SLO, SHI), (TLO, THI), (PLO, PHI)]
        out = []
        for n, (lo, hi) in zip("stp", lim):
            x = z3.Real(n)
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*self.plain())

            def none(c):
                s.push()
                s.add(c)
                r = self.P._check(s, self.stats) == z3.unsat
                s.pop()
                return r
            a, b = Fraction(lo), Fraction(hi)
            for _ in range(24):
                m = (a + b) / 2
                if none(x < z3.RealVal(m)):
                    a = m
                else:
                    b = m
            c, d = a, Fraction(hi)
            for _ in range(24):
                m = (c + d) / 2
                if none(x > z3.RealVal(m)):
                    d = m
                else:
                    c = m
            out.append((a, d))
        self.box = [(self.root(self.al * out[0][0] + self.be, False), self.root(self.al * out[0][1] + self.be, True))] + out[1:]

    def inside(self, s, t, p):
        z3 = self.E.S.z3
        sub = [(z3.Real(n), z3.RealVal(v)) for n, v in zip("stp", (s, t, p))]
        return all(z3.is_true(z3.simplify(z3.substitute(x, *sub))) for x in self.plain())

    def d(self, f, var):
        """partial derivative with respect to s, t or p"""
        if var == "t":
            return f.diff(1)
        if var == "p":
            return f.diff(2)
        return f.diff(0) * (self.al / 2) / self.v[0]

    def mid(self):
        return [(a + b) / 2 for a, b in self.box]

    def check(self, code, spec, msg, rel=1e-10):
        """code and spec agree on the box up to rel * (typical size of spec)"""
        E, z3 = self.E, self.E.S.z3
        try:
            c = code if isinstance(code, self.P.Rat) else self.of(code)
        except self.P.NotPoly as e:
            # cannot be normalised: decide at a grid of pinned points only
            self.pinned(code, spec, msg, rel, str(e))
            return
        tol = Fraction(rel) * max(abs(spec.eval(self.mid0)), Fraction(1, 10 ** 22))
        r = self.P.differ(c, spec, self.box, tol, self.stats)
        if r is None:
            E.check(True, msg)
        elif r == "unknown":
            E.path.ex.notes.append(msg)
            raise E.S.Unsupported(f"cannot decide: {msg}")
        else:
            x, t, p = r
            s = (x * x - self.be) / self.al
            if not self.inside(s, t, p):
                raise E.S.Unsupported(f"cannot decide on this part of the range: {msg}")
            st, tt, pt = (z3.Real(n) for n in "stp")
            E.path.obls.append((msg, z3.And(st == z3.RealVal(s), tt == z3.RealVal(t), pt == z3.RealVal(p)),) * 1 + (
                z3.And(st == z3.RealVal(s), tt == z3.RealVal(t), pt == z3.RealVal(p)),))

    def pinned(self, code, spec, msg, rel, why):
        E, z3 = self.E, self.E.S.z3
        e = E.S.z(E.S.as_float(code).v)
        st, tt, pt = (z3.Real(n) for n in "stp")
        tol = Fraction(rel) * abs(spec.eval(self.mid()))
        ors = []
        for f in (Fraction(1, 3), Fraction(5, 6)):
            pnt = [a + (b - a) * f for a, b in self.box]
            s = (pnt[0] ** 2 - self.be) / self.al
            v = spec.eval(pnt)
            ors.append(z3.And(st == z3.RealVal(s), tt == z3.RealVal(pnt[1]), pt == z3.RealVal(pnt[2]),
                              z3.Or(e > z3.RealVal(v + tol), e < z3.RealVal(v - tol))))
        g = z3.Or(ors)
        E.path.obls.append((msg, g, g))
        E.path.ex.notes.append("pinned: " + why)


def _inputs(E):
    s, t, p = E.float("s", SLO, SHI), E.float("t", TLO, THI), E.float("p", PLO, PHI)
    return s, t, p


def _req(E, code, spec, scale, msg, rel=1e-10):
    E.nchecks += 1
    from ..harness import ReplayFailure
    if not abs(code - spec) <= rel / 2 * scale:
        raise ReplayFailure(f"{msg}: got {code!r}, expected {spec!r}")


def h_value(E, name):
    """value function == published formula on the oceanographic box"""
    f, al, be, attr = SPEC[name]
    s, t, p = _inputs(E)
    m = E.mod(f"{EOS}.{name}")
    if E.symbolic:
        q = Poly3(E, al, be)
        q.check(getattr(m, attr)(s, t, p), f(*q.v), f"{name}.{attr} differs from the published formula", rel=1e-12)
    else:
        mid = f(math.sqrt(al * 21 + be), 18.5, 5500.0)
        _req(E, getattr(m, attr)(s, t, p), f(math.sqrt(al * s + be), t, p), abs(mid), f"{name}.{attr} differs from the published formula", rel=1e-12)


def h_edge(E, name):
    """NaN in, NaN out (any argument); gsw treats negative salinity as zero"""
    f, al, be, attr = SPEC[name]
    m = E.mod(f"{EOS}.{name}")
    fn = getattr(m, attr)
    t, p = E.float("t", TLO, THI), E.float("p", PLO, PHI)
    which = E.concrete_int(E.int("which", 0, 3 if name == "gsw" else 2))
    a = [E.const(35.0), E.const(10.0), E.const(1000.0)]
    if which < 3:
        a[which] = E.nan if not E.symbolic else E.S.NAN
        E.check(E.isnan(fn(*a)), f"NaN argument {which} gives a number")
    else:
        s = E.float("sneg", -5, 0)
        tt, pp = E.const(10.0), E.const(1000.0)
        E.eq(fn(s, tt, pp), fn(E.const(0.0), tt, pp), "negative salinity is not treated as zero", margin=1e-12)


def _cstep(fn, s, t, p, var):
    """derivative of the real code by a complex step (falls back to differences)"""
    import numpy as np
    h = 1e-30
    a = {"s": s, "t": t, "p": p}
    try:
        b = {k: (complex(v, h) if k == var else v) for k, v in a.items()}
        r = fn(b["s"], b["t"], b["p"])
        return np.atleast_1d([np.imag(x) / h for x in (r if isinstance(r, tuple) else (r,))])
    except Exception:
        d = {"s": 1e-3, "t": 1e-2, "p": 1.0}[var]

        def g(k):
            b = dict(a)
            b[var] += k * d
            r = fn(b["s"], b["t"], b["p"])
            return np.atleast_1d(r).astype(float)
        return (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * d)


DER1 = ("s", "t", "p")
DER2 = ("ss", "st", "tt", "sp", "tp", "pp")
DER3 = ("sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp", "ppp")
_A5 = DER1[:2] + DER2[:5]
# function -> (names of the outputs, function of the next lower order, its outputs)
GSW = {"specvol_first_derivs": DER1, "specvol_second_derivs": DER2, "specvol_third_derivs": DER3,
       "specvol_s_t": ("s", "t"), "specvol_p": ("p",), "specvol_s_t_ss_st_tt_sp_tp": _A5,
       "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp": _A5 + DER3[:9]}
ORD = "stp"


def h_deriv(E, name, fn, outs, part=None):
    """a derivative function returns the exact partial derivatives, in the documented order, of the
    module's own function of the next lower order"""
    f, al, be, attr = SPEC[name]
    s, t, p = _inputs(E)
    q = Poly3(E, al, be) if E.symbolic else None
    m = E.mod(f"{EOS}.{name}")
    got = getattr(m, fn)(s, t, p)
    got = list(got) if isinstance(got, (tuple, list)) else [got]
    if len(got) != len(outs):
        E.fail(f"{name}.{fn} returns {len(got)} values instead of {len(outs)}")
        return
    # lower-order functions of the same module
    low = {0: (attr, ("",))}
    if name == "gsw":
        low[1] = ("specvol_first_derivs", DER1)
        low[2] = ("specvol_second_derivs", DER2)
    vals = {}

    def lower(o):
        if o not in vals:
            r = getattr(m, low[o][0])(s, t, p)
            vals[o] = list(r) if isinstance(r, (tuple, list)) else [r]
        return vals[o]

    for i, nm in enumerate(outs):
        if part is not None and i % part[1] != part[0]:
            continue
        o = len(nm) - 1
        # nm = lower derivative (all but one letter) + one more letter
        for j in range(len(nm)):
            rest, v = nm[:j] + nm[j + 1:], nm[j]
            if rest in low[o][1]:
                break
        idx = low[o][1].index(rest)
        msg = f"{name}.{fn}[{i}] is not d/d{v} of {low[o][0]}[{idx}]"
        if E.symbolic:
            base = q.of(lower(o)[idx])
            q.check(q.of(got[i]) * q.v[0], q.d(base, v) * q.v[0], msg)
        else:
            g = getattr(m, low[o][0])
            ex = _cstep(g, s, t, p, v)[idx]
            mid = abs(_cstep(g, 21.0, 18.5, 5500.0, v)[idx])
            rt = math.sqrt(al * s + be) / math.sqrt(al * 21 + be)
            _req(E, float(got[i]) * rt, ex * rt, mid, msg)


# ---------------------------------------------------------------- gswc: wiring to the C library
class _CFn:
    """stand-in for a ctypes function: remembers what it was asked"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def gswc_stubs():
    return {}


def toy_gsw(s, t, p):
    return 1000.0 + 3 * s - 2 * t + 5 * p + s * t / 7


def toy_gsw_d(s, t, p):
    """(d/ds, d/dt, d/dp [1/Pa]) with p in dbar: unrelated quantities, so that a mix-up shows"""
    return 3 + t / 7, -2 + s / 7, 5 + s * p / 11


def h_gswc(E):
    s, t, p = E.float("s", 0, 42), E.float("t", -3, 40), E.float("p", 0, 11000)
    if E.symbolic:
        g = types.ModuleType("gsw")
        g._gsw_ufuncs = types.SimpleNamespace(__file__="gsw.so")
        g.rho = toy_gsw
        g.rho_first_derivatives = toy_gsw_d
        ct = types.ModuleType("ctypes")
        lib = types.SimpleNamespace(gsw_rho=_CFn(toy_gsw))
        ct.cdll = types.SimpleNamespace(LoadLibrary=lambda n: lib)
        ct.CDLL = lambda n: lib
        ct.c_double = object()
        E.loader.ext.update({"gsw": g, "ctypes": ct})
        rho, der, scale = toy_gsw, toy_gsw_d, 1.0
    else:
        import gsw as G
        rho, der = G.rho, G.rho_first_derivatives
    m = E.mod(f"{EOS}.gswc")
    E.eq(m.rho(s, t, p), rho(s, t, p), "gswc.rho is not the library's density", tol=1e-12)
    rs, rt, rp = der(s, t, p)
    g = m.rho_s_t(s, t, p)
    E.eq(g[0], rs, "gswc.rho_s_t salinity derivative", tol=1e-12)
    E.eq(g[1], rt, "gswc.rho_s_t temperature derivative", tol=1e-12)
    E.eq(m.rho_p(s, t, p), rp * 1e4, "gswc.rho_p is not the library's derivative per dbar", tol=1e-12)


# ---------------------------------------------------------------- make_eos & co.
def _toy(k):
    def f(s, t, p):
        return 1000.0 + k * s - 2.0 * t + 0.5 * p + 0.25 * s * p - 0.125 * t * p
    return f


def _toy_st(s, t, p):
    return 1.0 + 0.25 * p, -2.0 - 0.125 * p


def h_bsq(E, which, src):
    """make_eos/_s_t/_p with (grav, rho_c): the third argument is depth, converted to hydrostatic
    pressure; p derivatives become per metre; without grav/rho_c nothing changes"""
    T = E.mod(f"{EOS}.tools")
    mk = getattr(T, which)
    s, t, z = E.float("s", 1, 40), E.float("t", -2, 30), E.float("z", 0, 5000)
    grav, rho_c = E.float("grav", 1, 20), E.float("rho_c", 900, 1100)
    if src == "callable":
        base = E.njit(_toy_st if which == "make_eos_s_t" else _toy(1.0))
        arg = base
        pts = [(s, t, z)]
    else:
        mod = E.mod(f"{EOS}.{src}")
        base = getattr(mod, SPEC[src][3] + {"make_eos": "", "make_eos_s_t": "_s_t", "make_eos_p": "_p"}[which])
        arg = src
        # pinned water properties: the functions themselves are C08/C09
        s, t = E.const(36.0 if src != "gsw" else 35.0), E.const(10.0)
    fac = 1e-4 * grav * rho_c
    fn = mk(arg, grav, rho_c)
    got, ref = fn(s, t, z), base(s, t, z * fac)
    mult = fac if which == "make_eos_p" else 1.0
    if which == "make_eos_s_t":
        for i in range(2):
            E.eq(got[i], ref[i], f"{which} Boussinesq output {i}", margin=1e-9)
    else:
        E.eq(got, ref * mult, f"{which} Boussinesq", margin=1e-9)
    for a in ((None, None), (None, rho_c), (grav, None)):
        g2, r2 = mk(arg, *a)(s, t, z), base(s, t, z)
        if which == "make_eos_s_t":
            for i in range(2):
                E.eq(g2[i], r2[i], f"{which} without both grav and rho_c, output {i}", margin=1e-9)
        else:
            E.eq(g2, r2, f"{which} without both grav and rho_c", margin=1e-9)


def h_cache(E, n):
    """a history of requests: each returned function is the one for its own arguments, however
    the cache was filled before"""
    T = E.mod(f"{EOS}.tools")
    s, t, z = E.float("s", 1, 40), E.float("t", -2, 30), E.float("z", 0, 5000)
    fs = [E.njit(_toy(1.0)), E.njit(_toy(7.0))]
    pars = [(10.0, 1000.0), (9.81, 1027.0), (1000.0, 10.0), (None, None), (9.81, 1000.0)]
    made = []
    for i in range(n):
        w = E.concrete_int(E.int(f"kind{i}", 0, 2))
        k = E.concrete_int(E.int(f"eos{i}", 0, 1))
        c = E.concrete_int(E.int(f"par{i}", 0, len(pars) - 1 if n < 3 else 2))
        g, r = pars[c]
        if w == 0:
            fn = T.make_eos(fs[k], g, r)
        elif w == 1:
            fn = T.make_eos_p(fs[k], g, r)
        else:
            if g is None:
                fn = T.make_eos_s_t(fs[k])
            else:
                fn = T.make_bsq(fs[k], g, r, 2)
        made.append((w, k, g, r, fn))
    for i, (w, k, g, r, fn) in enumerate(made):
        fac = 1.0 if g is None else 1e-4 * g * r
        mult = 1.0 if g is None else (1.0, fac, fac * fac)[w]
        E.eq(fn(s, t, z), fs[k](s, t, z * fac) * mult, f"function {i} made is not the one asked for", margin=1e-9)


def h_bad_eos(E):
    """unknown names and non-callables are refused"""
    T = E.mod(f"{EOS}.tools")
    for mk in (T.make_eos, T.make_eos_s_t, T.make_eos_p):
        for bad, exc in (("nope", ValueError), (3.5, TypeError), (None, TypeError)):
            try:
                mk(bad)
            except exc:
                continue
            E.fail(f"eos={bad!r} accepted")


def h_vec(E):
    """vectorize_eos: element by element with broadcasting"""
    T = E.mod(f"{EOS}.tools")
    f = E.njit(_toy(1.0))
    v = T.vectorize_eos(f)
    S, Tt, P = E.floats("S", (2, 1, 2), -8, 8, nan=True), E.floats("T", (2, 1), -8, 8), E.floats("P", (2,), -8, 8)
    r = v(S, Tt, P)
    E.check(tuple(r.shape) == (2, 2, 2), "broadcast shape")
    for i in range(2):
        for j in range(2):
            for k in range(2):
                E.eq(r[i, j, k], f(S[i, 0, k], Tt[j, 0], P[k]), f"element {i},{j},{k}", margin=1e-9)
    a, b, c = E.float("a", -8, 8), E.float("b", -8, 8), E.float("c", -8, 8)
    E.eq(v(a, b, c), f(a, b, c), "scalar call", margin=1e-9)
