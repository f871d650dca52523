"""Exact rational functions, for the equations of state.

A z3 term built by symbolic execution is brought to a normal form N/D (exact
rational coefficients, sqrt's as algebraic variables).  Whether two such
functions can differ by more than a tolerance anywhere in a box is decided by
z3: every monomial becomes a real variable bounded by its range over the box
(an over-approximation, so `unsat' is a proof for the box); when that is too
coarse the box is split; a point where they do differ is looked for with all
but one variable pinned."""
import itertools
from fractions import Fraction

import z3

from .sym import _check


class Poly:
    __slots__ = ("c",)

    def __init__(self, c=None):
        self.c = c or {}

    @staticmethod
    def const(x, n):
        x = Fraction(x)
        return Poly({(0,) * n: x} if x else {})

    @staticmethod
    def var(i, n):
        return Poly({tuple(1 if k == i else 0 for k in range(n)): Fraction(1)})

    def __add__(s, o):
        r = dict(s.c)
        for k, v in o.c.items():
            w = r.get(k, 0) + v
            if w:
                r[k] = w
            else:
                r.pop(k, None)
        return Poly(r)

    def __neg__(s):
        return Poly({k: -v for k, v in s.c.items()})

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        r = {}
        for k1, v1 in s.c.items():
            for k2, v2 in o.c.items():
                k = tuple(map(sum, zip(k1, k2)))
                r[k] = r.get(k, 0) + v1 * v2
        return Poly({k: v for k, v in r.items() if v})

    def scale(s, q):
        return Poly({k: v * q for k, v in s.c.items()}) if q else Poly()

    def diff(s, i):
        r = {}
        for k, v in s.c.items():
            if k[i]:
                kk = list(k)
                kk[i] -= 1
                r[tuple(kk)] = v * k[i]
        return Poly(r)

    def eval(s, pt):
        t = Fraction(0)
        for k, v in s.c.items():
            for x, e in zip(pt, k):
                v = v * x ** e
            t += v
        return t

    def zero(s):
        return not s.c

    def is_const(s):
        return all(not any(k) for k in s.c)

    def __eq__(s, o):
        return s.c == o.c

    __hash__ = None


def _norm(p):
    """(content, primitive) so that factors that differ by a constant are recognised"""
    k = max(p.c)
    c = p.c[k]
    return c, (p if c == 1 else p.scale(1 / c))


class Rat:
    """n / prod(f**e)"""

    def __init__(self, n, f=()):
        self.n = n
        self.f = tuple(f)  # ((Poly, exponent), ...)

    @staticmethod
    def const(x, n):
        return Rat(Poly.const(x, n))

    def _dim(self):
        for p in (self.n, *[f for f, _ in self.f]):
            for k in p.c:
                return len(k)
        return 3

    def _mk(self, o):
        return o if isinstance(o, Rat) else Rat(Poly.const(Fraction(o), self._dim()))

    def _lift(self, fs):
        """numerator over the denominator fs"""
        n = self.n
        for p, e in fs:
            have = next((k for q, k in self.f if q == p), 0)
            for _ in range(e - have):
                n = n * p
        return n

    def __add__(s, o):
        o = s._mk(o)
        fs = list(s.f)
        for p, e in o.f:
            for i, (q, k) in enumerate(fs):
                if q == p:
                    fs[i] = (q, max(k, e))
                    break
            else:
                fs.append((p, e))
        n = s._lift(fs) + o._lift(fs)
        return Rat(n, fs if not n.zero() else ())

    __radd__ = __add__

    def __neg__(s):
        return Rat(-s.n, s.f)

    def __sub__(s, o):
        return s + (-s._mk(o))

    def __rsub__(s, o):
        return s._mk(o) - s

    def __mul__(s, o):
        o = s._mk(o)
        if s.n.zero() or o.n.zero():
            return Rat(Poly())
        fs = [list(x) for x in s.f]
        for p, e in o.f:
            for x in fs:
                if x[0] == p:
                    x[1] += e
                    break
            else:
                fs.append([p, e])
        # cancel a numerator that is itself one of the factors
        ns = []
        for m in (s.n, o.n):
            if not m.is_const():
                c, q = _norm(m)
                for x in fs:
                    if x[0] == q and x[1]:
                        x[1] -= 1
                        m = Poly.const(c, len(next(iter(q.c))))
                        break
            ns.append(m)
        return Rat(ns[0] * ns[1], [tuple(x) for x in fs if x[1]])

    __rmul__ = __mul__

    def inv(s):
        d = s._dim()
        n = Poly.const(1, d)
        for p, e in s.f:
            for _ in range(e):
                n = n * p
        if s.n.zero():
            raise ZeroDivisionError
        if s.n.is_const():
            return Rat(n.scale(1 / next(iter(s.n.c.values()))))
        c, q = _norm(s.n)
        return Rat(n.scale(1 / c), [(q, 1)])

    def __truediv__(s, o):
        o = s._mk(o)
        if o.n.zero():
            raise ZeroDivisionError
        # s.n/S / (o.n/O)
        r = Rat(s.n, s.f)
        if not o.n.is_const():
            c, q = _norm(o.n)
            r = r * Rat(Poly.const(1 / c, s._dim()), [(q, 1)])
        else:
            r = r * Rat(Poly.const(1 / next(iter(o.n.c.values())), s._dim()))
        for p, e in o.f:
            for _ in range(e):
                r = r * Rat(p)
        return r

    def __rtruediv__(s, o):
        return s._mk(o) / s

    def __pow__(s, k):
        r = s._mk(1)
        for _ in range(abs(k)):
            r = r * s
        return r if k >= 0 else r.inv()

    def eval(s, pt):
        v = s.n.eval(pt)
        for p, e in s.f:
            v = v / p.eval(pt) ** e
        return v

    def diff(s, i):
        r = Rat(s.n.diff(i), s.f)
        for p, e in s.f:
            r = r - Rat(s.n * p.diff(i).scale(e), [(q, k + (1 if q is p else 0)) for q, k in s.f])
        return r


class NotPoly(Exception):
    pass


def from_z3(e, env, n, decide=None, memo=None):
    """z3 real term -> Rat; env: variable name -> Rat"""
    memo = {} if memo is None else memo

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        r = go1(e)
        memo[k] = (r, e)
        return r

    def go1(e):
        if z3.is_rational_value(e):
            return Rat(Poly.const(e.as_fraction(), n))
        d = e.decl().kind()
        if d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            nm = e.decl().name()
            if nm not in env:
                raise NotPoly(nm)
            return env[nm]
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            r = go(ch[0])
            for c in ch[1:]:
                r = r + go(c)
            return r
        if d == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = r - go(c)
            return r
        if d == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                r = r * go(c)
            return r
        if d == z3.Z3_OP_UMINUS:
            return -go(ch[0])
        if d == z3.Z3_OP_DIV:
            return go(ch[0]) / go(ch[1])
        if d == z3.Z3_OP_TO_REAL:
            return go(ch[0])
        if d == z3.Z3_OP_ITE and decide is not None:
            v = decide(ch[0])
            if v is not None:
                return go(ch[1] if v else ch[2])
        raise NotPoly(e.decl().name())
    return go(e)


def identical(a, b, limit=4000, maxvars=40):
    """a == b as rational functions of their variables (wherever both are defined).
    If-terms are opaque, except that |x| is recognised by the normal form of x.
    False means only that this was not established."""
    names, todo, seen = set(), [a, b], set()
    ites = []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if len(seen) > limit:
            return False
        if e.decl().kind() == z3.Z3_OP_ITE:
            ites.append(e)
            todo += [e.arg(1), e.arg(2)]
            continue
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(e.decl().name())
        todo += e.children()
    n = len(names) + len(ites)
    if n > maxvars:
        return False
    env = {nm: Rat(Poly.var(i, n)) for i, nm in enumerate(sorted(names))}
    memo, absv = {}, []
    for e in sorted(ites, key=lambda e: _size(e)):
        r = None
        try:
            x, y = from_z3(e.arg(1), env, n, memo=memo), from_z3(e.arg(2), env, n, memo=memo)
            c = e.arg(0)
            if (x + y).n.zero() and c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT):
                d = from_z3(c.arg(0) - c.arg(1), env, n, memo=memo)
                if c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    d = -d
                if (d - x).n.zero():
                    for z, v in absv:
                        if (z - x).n.zero() or (z + x).n.zero():
                            r = v
                            break
                    else:
                        r = Rat(Poly.var(len(names) + len(absv), n))
                        absv.append((x, r))
        except (NotPoly, ZeroDivisionError):
            pass
        if r is None:
            r = Rat(Poly.var(len(names) + len(absv), n))
            absv.append((r, r))
        memo[e.get_id()] = (r, e)
    try:
        return (from_z3(a, env, n, memo=memo) - from_z3(b, env, n, memo=memo)).n.zero()
    except (NotPoly, ZeroDivisionError):
        return False


def _size(e, memo=None):
    memo = {} if memo is None else memo

    def go(e):
        k = e.get_id()
        if k not in memo:
            memo[k] = 1 + max([go(c) for c in e.children()] + [0])
        return memo[k]
    return go(e)


def _mono_range(k, box):
    lo = hi = Fraction(1)
    for (a, b), e in zip(box, k):
        if not e:
            continue
        if e % 2 == 0 and a < 0 < b:
            l, h = Fraction(0), max(a ** e, b ** e)
        else:
            l, h = sorted((a ** e, b ** e))
        c = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(c), max(c)
    return lo, hi


def _out(q, up):
    """outward rounding to a short rational"""
    if not q:
        return q
    k = 1
    v = abs(q)
    e = 80 - (v.numerator.bit_length() - v.denominator.bit_length())
    sc = Fraction(2) ** e
    x = q * sc
    f = x.numerator // x.denominator
    return Fraction(f + (1 if up else 0)) / sc


def range_query(p, box, bad, stats):
    """z3: can p, with its monomials free within their ranges over the box, satisfy bad(p)?"""
    s = z3.Solver()
    s.set("timeout", 20000)
    terms = []
    for i, (k, v) in enumerate(p.c.items()):
        lo, hi = _mono_range(k, box) if any(k) else (Fraction(1), Fraction(1))
        lo, hi = sorted((lo * v, hi * v))
        m = z3.Real(f"m{i}")
        s.add(m >= z3.RealVal(_out(lo, False)), m <= z3.RealVal(_out(hi, True)))
        terms.append(m)
    e = z3.Sum(terms) if terms else z3.RealVal(0)
    s.add(bad(e))
    return _check(s, stats)


def split(box):
    i = max(range(len(box)), key=lambda j: (box[j][1] - box[j][0]) / (1 + abs(box[j][1]) + abs(box[j][0])))
    a, b = box[i]
    m = (a + b) / 2
    l, r = list(box), list(box)
    l[i], r[i] = (a, m), (m, b)
    return l, r


def always(p, box, bad, stats, depth=10):
    """True if bad(p) is impossible on the whole box, else a sub-box not excluded"""
    todo = [(box, depth)]
    while todo:
        b, d = todo.pop()
        r = range_query(p, b, bad, stats)
        if r == z3.unsat:
            continue
        if d == 0:
            return b
        todo += [(x, d - 1) for x in split(b)]
    return True


def sign(p, box, stats, depth=8):
    """+1 / -1 if p has that strict sign on the whole box, else 0"""
    if not p.c:
        return 0
    v = p.eval([(a + b) / 2 for a, b in box])
    if v > 0 and always(p, box, lambda e: e <= 0, stats, depth) is True:
        return 1
    if v < 0 and always(p, box, lambda e: e >= 0, stats, depth) is True:
        return -1
    return 0


def lower_abs(p, box, sg, stats):
    """a positive lower bound on |p| over the box (p has strict sign sg there), by bisection on z3 verdicts"""
    v = abs(p.eval([(a + b) / 2 for a, b in box]))
    q = p if sg > 0 else -p
    lb = v
    for _ in range(40):
        if always(q, box, lambda e: e < z3.RealVal(lb), stats, 6) is True:
            return lb
        lb = lb / 2
    return None


def differ(code, spec, box, tol, stats, depth=6):
    """None if |code - spec| <= tol on the whole box (z3: unsat), a point (list of
    Fractions) where it is not, or 'unknown'"""
    diff = code - spec
    lb = Fraction(1)
    for p, e in diff.f:
        sg = sign(p, box, stats)
        l = lower_abs(p, box, sg, stats) if sg else None
        if l is None:
            lb = None
            break
        lb = lb * l ** e
    if lb is not None:
        bound = z3.RealVal(_out(Fraction(tol) * lb, False))
        bad = always(diff.n, box, lambda e: z3.Or(e > bound, e < -bound), stats, depth)
        if bad is True:
            return None
    # a real point: pin all but one variable
    n = len(box)
    grid = [[a + (b - a) * f for f in (Fraction(1, 2), Fraction(1), Fraction(1, 8))] for a, b in box]
    tolq = Fraction(tol)
    for free in reversed(range(n)):
        for pt in itertools.product(*[g if i != free else [None] for i, g in enumerate(grid)]):
            x = z3.Real("x")
            s = z3.Solver()
            s.set("timeout", 2000)
            a, b = box[free]
            s.add(x >= z3.RealVal(a), x <= z3.RealVal(b))

            def uni(p):
                co = {}
                for k, v in p.c.items():
                    for i, e in enumerate(k):
                        if i != free and e:
                            v = v * pt[i] ** e
                    co[k[free]] = co.get(k[free], 0) + v
                r = z3.RealVal(0)
                for e in range(max(co, default=0), -1, -1):
                    r = r * x + z3.RealVal(_out(co.get(e, Fraction(0)), False))
                return r
            dl, dn = uni(diff.n), z3.RealVal(1)
            for p, e in diff.f:
                u = uni(p)
                for _ in range(e):
                    dn = dn * u
            ad = z3.If(dn >= 0, dn, -dn)
            s.add(z3.Or(dl > z3.RealVal(tolq) * ad, dl < z3.RealVal(-tolq) * ad))
            # a value of x from a short list first (keeps the arithmetic small)
            for f in (Fraction(1, 2), Fraction(1, 3), Fraction(1), None):
                s.push()
                if f is not None:
                    s.add(x == z3.RealVal(a + (b - a) * f))
                r = _check(s, stats)
                if r == z3.sat:
                    xv = s.model().eval(x, model_completion=True)
                    q = xv.as_fraction() if z3.is_rational_value(xv) else xv.approx(20).as_fraction()
                    return [q if i == free else pt[i] for i in range(n)]
                s.pop()
    return "unknown"
