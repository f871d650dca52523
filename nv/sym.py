"""Symbolic scalars and the path explorer (z3 back end).

Values
  SymFloat  a real number with a NaN flag: (v, nan).  v is a Fraction (concrete)
            or a z3 Real expression, or +-inf (python float); nan is a python
            bool or a z3 Bool.  Arithmetic is exact real arithmetic.
  SymInt    mathematical integer (python int or z3 Int expression)
  SymBool   z3 Bool expression (concrete booleans are plain python bools)

Branching on a SymBool asks the current Explorer which side to take; the
explorer re-executes the harness once per feasible path.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import fastz3 as fz


class Unsupported(BaseException):
    """The code uses something the symbolic engine cannot represent."""


class PathEnd(BaseException):
    """Abandon this path (assumption violated / path cut by a bound)."""


class Hang(BaseException):
    """Watchdog: one path ran too long without finishing."""


CTX = None  # current Path


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside an exploration")
    return CTX


# ---------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, (SymFloat, SymInt, SymBool))


def frac(x):
    """Exact rational (or +-inf float) of a concrete finite number."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if math.isinf(f):
        return f
    return Fraction(f)


_rv_cache = {}


def z(v):
    """z3 term of a Fraction or z3 expression."""
    if isinstance(v, Fraction):
        r = _rv_cache.get(v)
        if r is None:
            r = _rv_cache[v] = z3.RealVal(v)
        return r
    if isinstance(v, int):
        return z3.RealVal(v)
    return v


def zb(b):
    if isinstance(b, (bool, np.bool_)):
        return z3.BoolVal(bool(b))
    if isinstance(b, SymBool):
        return b.e
    return b


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return fz.or_(a, b)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return fz.and_(a, b)


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return fz.not_(a)


def mkbool(e):
    if isinstance(e, (bool, np.bool_)):
        return bool(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def as_float(x):
    """Coerce a number to SymFloat."""
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(frac(x.e) if isinstance(x.e, int) else z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return SymFloat(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, np.ndarray):
        if x.ndim == 0 or x.size == 1 and x.ndim == 0:
            return as_float(x[()])
        raise TypeError("only scalars")
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f:
            return NAN
        if math.isinf(f):
            return SymFloat(f)
        return SymFloat(Fraction(f))
    if isinstance(x, (bool, np.bool_, int, np.integer, Fraction)):
        return SymFloat(frac(x))
    raise TypeError(f"cannot make a symbolic float from {type(x)}")


def isinf_c(v):
    return isinstance(v, float)


# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(b_and(self.e, _bexp(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(b_or(self.e, _bexp(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(_bexp(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        return SymInt(z3.If(self.e, 1, 0)) == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 11

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __repr__(self):
        return "<SymBool>"


def _bexp(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return bool(o)
    raise TypeError(type(o))


# ---------------------------------------------------------------- SymInt
class SymInt:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        if not isinstance(e, int):
            if z3.is_int_value(e):
                e = e.as_long()
        self.e = e

    def _z(self):
        return z3.IntVal(self.e) if isinstance(self.e, int) else self.e

    def __index__(self):
        if isinstance(self.e, int):
            return self.e
        return ctx().choose_int(self.e)

    __int__ = __index__

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return 13

    def __float__(self):
        return float(int(self))

    def _arith(self, o, op, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            ov = o.e
        elif isinstance(o, (int, np.integer, bool, np.bool_)):
            ov = int(o)
        elif isinstance(o, (float, np.floating, SymFloat, Fraction)):
            a = as_float(self)
            b = as_float(o)
            return op(b, a) if rev else op(a, b)
        else:
            return NotImplemented
        a, b = (ov, self.e) if rev else (self.e, ov)
        if isinstance(a, int) and isinstance(b, int):
            return SymInt(op(a, b))
        a = z3.IntVal(a) if isinstance(a, int) else a
        b = z3.IntVal(b) if isinstance(b, int) else b
        return SymInt(z3.simplify(op(a, b)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if isinstance(self.e, int):
            return SymInt(abs(self.e))
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return as_float(self) / o

    def __rtruediv__(self, o):
        return o / as_float(self)

    def __floordiv__(self, o):
        d = int(o)
        if d == 0:
            raise ZeroDivisionError
        if isinstance(self.e, int):
            return SymInt(self.e // d)
        if d < 0:
            raise Unsupported("floor division by a negative integer")
        return SymInt(self.e / z3.IntVal(d))

    def __rfloordiv__(self, o):
        return o // int(self)

    def __mod__(self, o):
        d = int(o)
        if d == 0:
            raise ZeroDivisionError
        if isinstance(self.e, int):
            return SymInt(self.e % d)
        if d < 0:
            raise Unsupported("mod by a negative integer")
        return SymInt(self.e % z3.IntVal(d))

    def __rmod__(self, o):
        return o % int(self)

    def __pow__(self, o):
        return SymInt(int(self) ** int(o))

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt):
            ov = o.e
        elif isinstance(o, (int, np.integer, bool, np.bool_)):
            ov = int(o)
        elif isinstance(o, (float, np.floating, SymFloat, Fraction)):
            return op(as_float(self), as_float(o))
        else:
            return NotImplemented
        r = op(self.e, ov)
        return r if isinstance(r, bool) else mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)

    def __repr__(self):
        return f"<SymInt {self.e if isinstance(self.e, int) else '?'}>"


# ---------------------------------------------------------------- SymFloat
class SymFloat:
    __slots__ = ("v", "nan")
    __array_priority__ = 1000

    def __init__(self, v, nan=False):
        self.v = v
        self.nan = nan

    # --- inspection
    @property
    def concrete(self):
        return isinstance(self.v, (Fraction, float)) and isinstance(self.nan, bool)

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def dtype(self):
        return np.dtype(np.float64)

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dtype, **k):
        from . import nparr
        return nparr.cast_scalar(self, np.dtype(dtype))

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise TypeError("'float' object is not subscriptable")

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def __float__(self):
        if self.nan is True:
            return float("nan")
        if self.concrete:
            return float(self.v)
        raise Unsupported("conversion of a symbolic number to a machine float")

    def __int__(self):
        if self.concrete and self.nan is False:
            return math.trunc(self.v)
        v = z(self.v)
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return ctx().choose_int(t)

    __trunc__ = __int__

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        if n is None:
            x = z(self.v)
            return ctx().choose_int(z3.ToInt(x + z3.RealVal("1/2")))
        raise Unsupported("round of a symbolic number")

    def __floor__(self):
        if self.concrete:
            return math.floor(self.v)
        return ctx().choose_int(z3.ToInt(z(self.v)))

    def __ceil__(self):
        if self.concrete:
            return math.ceil(self.v)
        return ctx().choose_int(-z3.ToInt(-z(self.v)))

    def __hash__(self):
        return 17

    def __bool__(self):
        return bool(self != 0)

    def isnan(self):
        return mkbool(self.nan)

    def __repr__(self):
        if self.nan is True:
            return "nan"
        if self.concrete:
            return repr(float(self.v))
        return "<SymFloat>"

    def __format__(self, spec):
        if self.concrete:
            return format(float(self), spec)
        return "<sym>"

    # --- arithmetic
    def _num(self, o):
        if isinstance(o, SymFloat):
            return o
        if isinstance(o, np.ndarray):
            return None
        try:
            return as_float(o)
        except TypeError:
            return None

    def __add__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_sub(self, o)

    def __rsub__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_sub(o, self)

    def __mul__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_div(self, o)

    def __rtruediv__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        return f_div(o, self)

    def __floordiv__(self, o):
        q = self / o
        return SymFloat(frac(math.floor(q)))

    def __rfloordiv__(self, o):
        q = o / self
        return SymFloat(frac(math.floor(q)))

    def __mod__(self, o):
        o = self._num(o)
        if o is None:
            return NotImplemented
        q = f_div(self, o)
        return self - o * SymFloat(frac(math.floor(q)))

    def __rmod__(self, o):
        return as_float(o) % self

    def __neg__(self):
        return f_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    def __pow__(self, n):
        return f_pow(self, n)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def sqrt(self):
        return f_sqrt(self)

    # --- comparisons
    def __lt__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else f_lt(self, o)

    def __le__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else f_le(self, o)

    def __gt__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else f_lt(o, self)

    def __ge__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else f_le(o, self)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = self._num(o)
        return False if o is None else f_eq(self, o)

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = self._num(o)
        if o is None:
            return True
        r = f_eq(self, o)
        return (not r) if isinstance(r, bool) else ~r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, *inputs, **kw)


NAN = SymFloat(Fraction(0), True)


def _inf_guard(*xs):
    for x in xs:
        if isinstance(x.v, float):
            return True
    return False


def f_add(a, b):
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    av, bv = a.v, b.v
    if isinstance(av, float) or isinstance(bv, float):
        if isinstance(av, float) and isinstance(bv, float):
            s = av + bv
            return NAN if s != s else SymFloat(s, nan)
        return SymFloat(av if isinstance(av, float) else bv, nan)
    if isinstance(av, Fraction):
        if isinstance(bv, Fraction):
            return SymFloat(av + bv, nan)
        if av == 0:
            return SymFloat(bv, nan)
    elif isinstance(bv, Fraction) and bv == 0:
        return SymFloat(av, nan)
    return SymFloat(fz.add(z(av), z(bv)), nan)


ZERO, ONE, MONE = z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1)


def f_neg(a):
    if a.nan is True:
        return NAN
    if isinstance(a.v, (Fraction, float)):
        return SymFloat(-a.v, a.nan)
    return SymFloat(fz.neg(a.v), a.nan)


def f_sub(a, b):
    av, bv = a.v, b.v
    if isinstance(av, (Fraction, float)) or isinstance(bv, (Fraction, float)):
        return f_add(a, f_neg(b))
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    if fz.same(av, bv):
        return SymFloat(Fraction(0), nan)
    return SymFloat(fz.sub(av, bv), nan)


def f_mul(a, b):
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    av, bv = a.v, b.v
    if isinstance(av, float) or isinstance(bv, float):
        if isinstance(bv, float):
            av, bv = bv, av
        # av infinite
        if isinstance(bv, (float, Fraction)):
            if bv == 0:
                return NAN
            return SymFloat(av if bv > 0 else -av, nan)
        s = ctx()
        if s.branch(bv == 0):
            return NAN
        return SymFloat(av if s.branch(bv > 0) else -av, nan)
    if isinstance(av, Fraction):
        if isinstance(bv, Fraction):
            return SymFloat(av * bv, nan)
        if av == 0:
            return SymFloat(Fraction(0), nan)
        if av == 1:
            return SymFloat(bv, nan)
    elif isinstance(bv, Fraction):
        if bv == 0:
            return SymFloat(Fraction(0), nan)
        if bv == 1:
            return SymFloat(av, nan)
        av, bv = bv, av
    elif av is bv or av.eq(bv):
        for _, y, arg in ctx().sqrts:
            if y.eq(av):  # sqrt(x) * sqrt(x)
                return SymFloat(arg, nan)
    return SymFloat(fz.mul(z(av), z(bv)), nan)


def f_div(a, b, array=False):
    """a / b.  Scalar code (njit, python error model) raises ZeroDivisionError;
    array code follows numpy (inf/nan)."""
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    av, bv = a.v, b.v
    if isinstance(bv, float):
        return NAN if isinstance(av, float) else SymFloat(Fraction(0), nan)
    if isinstance(bv, Fraction):
        zero = bv == 0
    else:
        zero = ctx().branch(fz.eq(bv, ZERO))
        if zero and b.nan is not False and ctx().branch(b.nan):
            return NAN
    if zero:
        if not array and not getattr(CTX, "array_div", False):
            raise ZeroDivisionError("division by zero")
        if isinstance(av, float):
            return SymFloat(av, nan)
        if isinstance(av, Fraction):
            return NAN if av == 0 else SymFloat(math.inf if av > 0 else -math.inf, nan)
        if ctx().branch(av == 0):
            return NAN
        return SymFloat(math.inf if ctx().branch(av > 0) else -math.inf, nan)
    if isinstance(av, float):
        if isinstance(bv, Fraction):
            return SymFloat(av if bv > 0 else -av, nan)
        return SymFloat(av if ctx().branch(bv > 0) else -av, nan)
    if isinstance(bv, Fraction):
        if isinstance(av, Fraction):
            return SymFloat(av / bv, nan)
        if bv == 1:
            return SymFloat(av, nan)
        return SymFloat(fz.mul(z(1 / bv), av), nan)
    if isinstance(av, Fraction) and av == 0:
        return SymFloat(Fraction(0), nan)
    if not isinstance(av, Fraction) and fz.same(av, bv):
        return SymFloat(Fraction(1), nan)
    return SymFloat(fz.div(z(av), bv), nan)


def f_abs(a):
    if a.nan is True:
        return NAN
    if isinstance(a.v, (Fraction, float)):
        return SymFloat(abs(a.v), a.nan)
    return SymFloat(fz.ite(fz.le(ZERO, a.v), a.v, fz.neg(a.v)), a.nan)


def f_sign(a):
    if a.nan is True:
        return NAN
    if isinstance(a.v, (Fraction, float)):
        return SymFloat(Fraction((a.v > 0) - (a.v < 0)), a.nan)
    return SymFloat(fz.ite(fz.lt(ZERO, a.v), ONE, fz.ite(fz.lt(a.v, ZERO), MONE, ZERO)), a.nan)


def f_pow(a, n):
    if isinstance(n, SymInt):
        n = int(n)
    if isinstance(n, SymFloat):
        if not n.concrete:
            raise Unsupported("symbolic exponent")
        n = n.v
    n = frac(n)
    if n == 2:
        return f_mul(a, a)
    if n == Fraction(1, 2):
        return f_sqrt(a)
    if n.denominator == 1:
        k = abs(n.numerator)
        r = SymFloat(Fraction(1), a.nan)
        for _ in range(k):
            r = f_mul(r, a)
        return f_div(SymFloat(Fraction(1)), r) if n < 0 else r
    if n.denominator == 2:
        return f_mul(f_pow(a, n - Fraction(1, 2)), f_sqrt(a))
    raise Unsupported("non-integer power")


def _nonneg(e, memo):
    """e >= 0 by its shape: sums, products and quotients of squares, of constants and
    of variables that the linear part of the path condition bounds below by 0"""
    k = e.get_id()
    if k in memo:
        return memo[k]
    d = e.decl().kind()
    if z3.is_rational_value(e):
        r = e.as_fraction() >= 0
    elif d == z3.Z3_OP_ADD:
        r = all(_nonneg(c, memo) for c in e.children())
    elif d in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        fs = []
        for c in e.children():
            for i, g in enumerate(fs):
                if d == z3.Z3_OP_MUL and g.eq(c):
                    fs.pop(i)
                    break
            else:
                fs.append(c)
        r = all(_nonneg(c, memo) for c in fs)
    elif d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        from .harness import is_linear
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*[c for c in ctx().pc if is_linear(c)])
        s.add(e < 0)
        r = s.check() == z3.unsat
    else:
        r = False
    memo[k] = r
    return r


def f_sqrt(a):
    if a.nan is True:
        return NAN
    if isinstance(a.v, float):
        return a if a.v > 0 else NAN
    if isinstance(a.v, Fraction):
        if a.v < 0:
            return NAN
        n, d = math.isqrt(a.v.numerator), math.isqrt(a.v.denominator)
        if n * n == a.v.numerator and d * d == a.v.denominator:
            return SymFloat(Fraction(n, d), a.nan)
    c = ctx()
    av = z(a.v)
    if not isinstance(a.v, Fraction) and not _nonneg(av, {}) and c.branch(av < 0):
        return NAN
    key = z3.simplify(av, som=True)
    for k, y, _ in c.sqrts:
        if k.eq(key):
            return SymFloat(y, a.nan)
    y = c.fresh_real("sqrt")
    c.add(y >= 0)
    c.add(y * y == av)
    c.sqrts.append((key, y, av))
    return SymFloat(y, a.nan)


def _ninf(v):
    return isinstance(v, float)


def f_lt(a, b):
    if a.nan is True or b.nan is True:
        return False
    ok = b_and(b_not(a.nan), b_not(b.nan))
    av, bv = a.v, b.v
    if isinstance(av, float) or isinstance(bv, float):
        if isinstance(av, float) and isinstance(bv, float):
            r = av < bv
        elif isinstance(av, float):
            r = av < 0
        else:
            r = bv > 0
        return mkbool(b_and(ok, r))
    if isinstance(av, Fraction) and isinstance(bv, Fraction):
        return mkbool(b_and(ok, av < bv))
    return mkbool(b_and(ok, fz.lt(z(av), z(bv))))


def f_le(a, b):
    if a.nan is True or b.nan is True:
        return False
    ok = b_and(b_not(a.nan), b_not(b.nan))
    av, bv = a.v, b.v
    if isinstance(av, float) or isinstance(bv, float):
        if isinstance(av, float) and isinstance(bv, float):
            r = av <= bv
        elif isinstance(av, float):
            r = av < 0
        else:
            r = bv > 0
        return mkbool(b_and(ok, r))
    if isinstance(av, Fraction) and isinstance(bv, Fraction):
        return mkbool(b_and(ok, av <= bv))
    return mkbool(b_and(ok, fz.le(z(av), z(bv))))


def f_eq(a, b):
    if a.nan is True or b.nan is True:
        return False
    ok = b_and(b_not(a.nan), b_not(b.nan))
    av, bv = a.v, b.v
    if isinstance(av, float) or isinstance(bv, float):
        return mkbool(b_and(ok, isinstance(av, float) and isinstance(bv, float) and av == bv))
    if isinstance(av, Fraction) and isinstance(bv, Fraction):
        return mkbool(b_and(ok, av == bv))
    return mkbool(b_and(ok, fz.eq(z(av), z(bv))))


def f_ite(c, a, b):
    """if c then a else b on floats, merged (no fork)."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ce = c.e if isinstance(c, SymBool) else c
    a, b = as_float(a), as_float(b)
    if isinstance(a.v, float) or isinstance(b.v, float):
        return a if ctx().branch(ce) else b
    nan = a.nan if a.nan is b.nan else z3.If(ce, zb(a.nan), zb(b.nan))
    if isinstance(nan, z3.BoolRef):
        nan = z3.simplify(nan)
        nan = True if z3.is_true(nan) else False if z3.is_false(nan) else nan
    if a.nan is True:
        v = b.v
    elif b.nan is True:
        v = a.v
    elif isinstance(a.v, Fraction) and isinstance(b.v, Fraction) and a.v == b.v:
        v = a.v
    else:
        v = fz.ite(ce, z(a.v), z(b.v))
    return SymFloat(v, nan)


def s_ite(c, a, b):
    """ite on any scalars."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    fl = (float, np.floating, SymFloat, Fraction)
    it = (int, np.integer, SymInt)
    bl = (bool, np.bool_, SymBool)
    if isinstance(a, bl) and isinstance(b, bl):
        return mkbool(z3.If(c.e, zb(a), zb(b)))
    if isinstance(a, it) and isinstance(b, it) and not isinstance(a, bool) and not isinstance(b, bool):
        za = a._z() if isinstance(a, SymInt) else z3.IntVal(int(a))
        zb_ = b._z() if isinstance(b, SymInt) else z3.IntVal(int(b))
        return SymInt(z3.If(c.e, za, zb_))
    return f_ite(c, a, b)


def f_max(a, b, nanprop=True):
    """numpy.maximum"""
    a, b = as_float(a), as_float(b)
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    r = f_ite(f_le(SymFloat(b.v), SymFloat(a.v)), SymFloat(a.v), SymFloat(b.v))
    return SymFloat(r.v, nan)


def f_min(a, b):
    a, b = as_float(a), as_float(b)
    if a.nan is True or b.nan is True:
        return NAN
    nan = b_or(a.nan, b.nan)
    r = f_ite(f_le(SymFloat(a.v), SymFloat(b.v)), SymFloat(a.v), SymFloat(b.v))
    return SymFloat(r.v, nan)


# ---------------------------------------------------------------- explorer
class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown_branch = 0
        self.unknown_check = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.trivial = 0
        self.reach_checks = 0

    def d(self):
        r = dict(self.__dict__)
        r["solver_s"] = round(self.solver_s, 3)
        return r


def _check(solver, stats, *extra):
    t = time.perf_counter()
    try:
        r = solver.check(*extra)
    except z3.Z3Exception:
        r = z3.unknown
    stats.solver_s += time.perf_counter() - t
    stats.queries += 1
    if r == z3.sat:
        stats.sat += 1
    elif r == z3.unsat:
        stats.unsat += 1
    return r


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.i = 0
        self.decisions = []
        self.pc = []
        self.known = {}
        self.sqrts = []
        self.nfresh = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.branch_timeout)
        self.model = None
        self.obls = []
        self.array_div = False
        self.last_model_ok = False
        self.inexact = False
        self.decide = None  # optional decision procedure for branch conditions

    def fresh_real(self, tag):
        self.nfresh += 1
        return z3.Real(f"{tag}!{self.nfresh}")

    def fresh_bool(self, tag):
        self.nfresh += 1
        return z3.Bool(f"{tag}!{self.nfresh}")

    def add(self, e):
        """Add a definitional constraint or assumption to the path condition."""
        if isinstance(e, SymBool):
            e = e.e
        if isinstance(e, (bool, np.bool_)):
            if not e:
                raise PathEnd("assumption false")
            return
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def _sat(self, e):
        """feasibility of pc & e: 'sat' / 'unsat' / 'unknown' (and keeps a model)"""
        st = self.ex.stats
        r = _check(self.solver, st, e)
        if r == z3.sat:
            return "sat", self.solver.model()
        if r == z3.unsat:
            return "unsat", None
        for tac in ("qfnra-nlsat", "nlqsat"):
            try:
                s = z3.Tactic(tac).solver() if tac != "nlqsat" else z3.SolverFor("QF_NRA")
                s.set("timeout", self.ex.branch_timeout)
                for c in self.pc:
                    s.add(c)
                s.add(e)
                r = _check(s, st)
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
        st.unknown_branch += 1
        return "unknown", None

    def branch(self, cond):
        # every call consumes one entry of the decision list, whatever the
        # simplifier makes of it, so that re-execution stays in step
        if self.i < len(self.prefix):
            val = self.prefix[self.i]
            if not isinstance(val, bool):
                raise Unsupported("re-execution out of step")
        else:
            val = None
        c = z3.simplify(cond)
        forced = None
        if z3.is_true(c):
            forced = True
        elif z3.is_false(c):
            forced = False
        else:
            k = self.known.get(c.get_id())
            if k is not None and k[0].eq(c):
                forced = k[1]
        if forced is not None:
            self.decisions.append(forced)
            self.i += 1
            if val is not None and val != forced:
                raise PathEnd("infeasible")
            return forced
        nc = z3.simplify(z3.Not(c))
        st = self.ex.stats
        if self.decide is not None and self.i >= len(self.prefix):
            v = self.decide(cond)
            if v is not None:
                self._learn(c, nc, v)
                self.decisions.append(v)
                self.i += 1
                st.decisions += 1
                self._commit(c if v else nc)
                return v
        if self.i < len(self.prefix):
            val = self.prefix[self.i]
        else:
            self.ex.tick()
            mv = None
            if self.model is not None:
                e = self.model.eval(c, model_completion=True)
                mv = True if z3.is_true(e) else False if z3.is_false(e) else None
            if mv is None:
                r, m = self._sat(c)
                if r == "sat":
                    self.model = m
                    mv = True
                elif r == "unsat":
                    # the other side must be feasible if the path is
                    self._learn(c, nc, False)
                    self.decisions.append(False)
                    self.i += 1
                    st.decisions += 1
                    self._commit(nc)
                    return False
                else:
                    mv = True
                    self.model = None
            other = nc if mv else c
            r, m = self._sat(other)
            if r != "unsat":
                self.ex.pending.append(self.decisions + [not mv])
                st.decisions += 1
            val = mv
        self._learn(c, nc, val)
        self.decisions.append(val)
        self.i += 1
        if len(self.decisions) > self.ex.max_depth:
            raise Unsupported("path deeper than the decision bound")
        self._commit(c if val else nc)
        return val

    def _learn(self, c, nc, val):
        self.known[c.get_id()] = (c, val)
        self.known[nc.get_id()] = (nc, not val)

    def _commit(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None and self.i > len(self.prefix):
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def choose_int(self, e):
        """Fork over the feasible values of an integer expression."""
        e = z3.simplify(e)
        while True:
            if self.i < len(self.prefix):
                v = self.prefix[self.i]  # ("int", value, taken)
                if not isinstance(v, tuple):
                    raise Unsupported("re-execution out of step")
                v, take = v[1], v[2]
                self.decisions.append(("int", v, take))
                self.i += 1
                self._commit(e == v if take else e != v)
                if take:
                    return v
                continue
            if z3.is_int_value(e):
                v = e.as_long()
                self.decisions.append(("int", v, True))
                self.i += 1
                return v
            self.ex.tick()
            v = None
            if self.model is not None:
                ev = self.model.eval(e, model_completion=True)
                if z3.is_int_value(ev):
                    v = ev.as_long()
            if v is None:
                r, m = self._sat(z3.BoolVal(True))
                if r == "unsat":
                    raise PathEnd("infeasible")
                if r != "sat":
                    raise Unsupported("solver unknown while choosing an index")
                self.model = m
                v = m.eval(e, model_completion=True).as_long()
            r, m = self._sat(e != v)
            if r != "unsat":
                self.ex.pending.append(self.decisions + [("int", v, False)])
                self.ex.stats.decisions += 1
            self.decisions.append(("int", v, True))
            self.i += 1
            self._commit(e == v)
            return v


class Explorer:
    def __init__(self, max_paths=20000, max_time=600.0, branch_timeout=2000,
                 check_timeout=20000, max_depth=4000, path_time=120):
        self.stats = Stats()
        self.pending = []
        self.max_paths = max_paths
        self.max_time = max_time
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.max_depth = max_depth
        self.path_time = path_time
        self.complete = False
        self.t0 = time.time()
        self.notes = []

    def tick(self):
        if time.time() - self.t0 > self.max_time:
            raise PathEnd("time budget")

    def explore(self, run_path):
        """run_path(path) -> None; called once per path with CTX set."""
        global CTX
        self.pending = [[]]
        stop = None
        while self.pending:
            if self.stats.paths >= self.max_paths:
                stop = f"path budget {self.max_paths}"
                break
            if time.time() - self.t0 > self.max_time:
                stop = f"time budget {self.max_time}s"
                break
            prefix = self.pending.pop()
            p = Path(self, prefix)
            CTX = p
            self.stats.paths += 1
            try:
                r = run_path(p)
            finally:
                CTX = None
            if r == "stop":
                stop = "stopped at counterexamples"
                break
        self.complete = stop is None
        self.stop = stop
        return self
