"""Load /repo's current source as fresh modules whose numpy/numba/scipy are the
symbolic shims.  Nothing is cached between runs: the source is read each time."""
import builtins
import functools as _ft
import importlib
import math as _math
import os
import sys
import time as _time
import types

import numpy as np

from . import nparr, sym
from .nparr import BoolType, FloatType, IntType, SymArr, elementwise, mk, npshim
from .sym import SymBool, SymFloat, SymInt, Unsupported, as_float, is_sym

REPO = os.environ.get("NV_REPO", "/repo")


# ------------------------------------------------------------------ numba
class _NbType:
    def __init__(self, name="f8"):
        self.name = name

    def __getitem__(self, k):
        return _NbType(self.name + "[]")

    def __call__(self, *a):
        return _NbType("sig")


def _njit(*args, **kw):
    if len(args) == 1 and isinstance(args[0], types.FunctionType):
        return _jitted(args[0])

    def deco(f):
        return _jitted(f)
    return deco


def _jitted(f):
    f.py_func = f
    return f


def _parse_sig(s):
    l, r = s.replace(" ", "").split("->")

    def side(x):
        out, cur, depth = [], "", 0
        for ch in x:
            if ch == "(":
                depth += 1
                cur = ""
            elif ch == ")":
                depth -= 1
                out.append(tuple(d for d in cur.split(",") if d))
            elif depth:
                cur += ch
        return out
    return side(l), side(r)


class GUFunc:
    """numba.guvectorize: loop the kernel over the broadcast loop dimensions."""

    def __init__(self, f, types_, sig):
        self.f = f
        self.sig = sig
        self.types = types_
        self.ins, self.outs = _parse_sig(sig)
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__
        t = types_[0] if types_ else None
        self.out_names = [getattr(x, "name", "f8") for x in (t or [])][len(self.ins):]

    def __call__(self, *args, out=None, axes=None, axis=None, **kw):
        nin = len(self.ins)
        given = list(args[nin:])
        if out is not None:
            given = list(out) if isinstance(out, tuple) else [out]
        arrs = [nparr.sh_array(a, copy=False) if not is_sym(a) else a for a in args[:nin]]
        arrs = [nparr._objarr(a) if is_sym(a) else a for a in arrs]
        dims, loops = {}, []
        for a, core in zip(arrs, self.ins):
            if a.ndim < len(core):
                raise ValueError(f"{self.__name__}: does not have enough dimensions")
            k = a.ndim - len(core)
            loops.append(a.shape[:k])
            for d, n in zip(core, a.shape[k:]):
                if dims.setdefault(d, n) != n:
                    raise ValueError(f"{self.__name__}: mismatch in core dimension {d}")
        lshape = np.broadcast_shapes(*loops)
        outs = []
        for oi, core in enumerate(self.outs):
            for d in core:
                if d not in dims:
                    if given:
                        dims[d] = given[oi].shape[given[oi].ndim - len(core):][core.index(d)]
                    else:
                        raise ValueError("unbound output dimension")
            shp = lshape + tuple(dims[d] for d in core)
            if given:
                outs.append(given[oi])
            else:
                nm = self.out_names[oi] if oi < len(self.out_names) else "f8"
                outs.append(np.zeros(shp, np.int64) if nm.startswith("i") else nparr.SHIM["empty"](shp))
        bins = []
        for a, core in zip(arrs, self.ins):
            k = a.ndim - len(core)
            full = lshape + a.shape[k:]
            if isinstance(a, SymArr):
                b = nparr.sh_broadcast_to(a, full)
            else:
                b = np.broadcast_to(a, full)
                if b.dtype.kind in "f":
                    b = mk(b)
            bins.append((b, len(core)))
        for idx in np.ndindex(lshape):
            call = []
            for b, nc in bins:
                x = b[idx] if idx or nc else (b if nc else b[()])
                if nc == 0 and isinstance(x, np.ndarray):
                    x = x[()]
                call.append(nparr._elem(x) if nc == 0 else x)
            views = []
            for o, core in zip(outs, self.outs):
                if core:
                    v = o[idx] if idx else o
                else:
                    v = o[idx + (None,)] if o.ndim else o[None]
                views.append(v)
            r = self.f(*call, *views)
        if given:
            r = tuple(given)
        else:
            r = tuple((o[()] if o.ndim == 0 else o) for o in outs)
        return r[0] if len(r) == 1 else r


def _guvectorize(*args, **kw):
    if len(args) == 1:
        types_, sig = None, args[0]
    else:
        types_, sig = args[0], args[1]
    if types_ is not None and not isinstance(types_, (list, tuple)):
        types_ = [types_]
    ts = [t if isinstance(t, tuple) else () for t in (types_ or [])]

    def deco(f):
        return GUFunc(f, ts, sig)
    return deco


def _vectorize(*args, **kw):
    def deco(f):
        def g(*a, **k):
            return elementwise(f, *a)
        g.__name__ = getattr(f, "__name__", "vectorized")
        g.py_func = f
        g.__wrapped__ = f
        return g
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], _NbType):
        return deco(args[0])
    return deco


class NbShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.njit = _njit
        self.jit = _njit
        self.generated_jit = None
        self.guvectorize = _guvectorize
        self.vectorize = _vectorize
        self.prange = range
        self.types = self
        self.typed = self
        self.core = self

    def typeof(self, x):
        return _NbType()

    def literal_unroll(self, x):
        return x

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _NbType(n)


nbshim = NbShim()


# ------------------------------------------------------------------ functools
class _CacheEntry:
    pass


def _same(a, b):
    """argument equality as a hash-keyed cache sees it (forks if symbolic)"""
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        if not (is_sym(a) or isinstance(a, (int, float))) or not (is_sym(b) or isinstance(b, (int, float))):
            return False
        return builtins.bool(a == b)
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    try:
        if hash(a) != hash(b):
            return False
    except TypeError:
        raise
    return builtins.bool(a == b)


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        entries = []

        @_ft.wraps(f)
        def g(*a, **k):
            for x in list(a) + list(k.values()):
                if not is_sym(x):
                    hash(x)
            for e in entries:
                if len(e[0]) == len(a) and list(e[1]) == list(k) and \
                        all(_same(x, y) for x, y in zip(e[0], a)) and \
                        all(_same(e[1][n], k[n]) for n in k):
                    entries.remove(e)
                    entries.append(e)
                    return e[2]
            r = f(*a, **k)
            entries.append((a, k, r))
            if maxsize is not None and len(entries) > maxsize:
                entries.pop(0)
            return r
        g.cache_clear = entries.clear
        g.cache_info = lambda: None
        return g
    if callable(maxsize) and not isinstance(maxsize, int):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


ftshim = types.ModuleType("functools")
for _n in dir(_ft):
    if not _n.startswith("__"):
        setattr(ftshim, _n, getattr(_ft, _n))
ftshim.lru_cache = _lru_cache
ftshim.cache = lambda f: _lru_cache(None)(f)

# ------------------------------------------------------------------ math, time
mathshim = types.ModuleType("math")
for _n in dir(_math):
    if not _n.startswith("__"):
        setattr(mathshim, _n, getattr(_math, _n))


def _m1(name, uf):
    real = getattr(_math, name)

    def f(x, *a):
        if is_sym(x):
            return nparr.UF[uf](x, *a)
        return real(x, *a)
    setattr(mathshim, name, f)


for _n, _u in (("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"), ("sqrt", "sqrt"),
               ("fabs", "absolute"), ("sin", "sin"), ("cos", "cos"), ("copysign", "copysign"), ("exp", "exp")):
    _m1(_n, _u)


def _mfloor(x):
    return _math.floor(x)


mathshim.pow = lambda a, b: as_float(a) ** b if is_sym(a) else _math.pow(a, b)

timeshim = types.ModuleType("time")
_tick = [0.0]


def _now():
    _tick[0] += 1.0
    return _tick[0]


timeshim.time = _now
timeshim.perf_counter = _now
timeshim.sleep = lambda s: None


# ------------------------------------------------------------------ builtins
def _mkbuiltins(imp):
    b = dict(vars(builtins))
    b["__import__"] = imp
    b["float"] = FloatType
    b["int"] = IntType
    b["bool"] = BoolType
    b["print"] = lambda *a, **k: None

    def _abs(x):
        return abs(x)

    def _mm(gt):
        real = builtins.max if gt else builtins.min

        def f(*a, **k):
            if k or (len(a) == 1 and not _anysym(a[0])):
                return real(*a, **k)
            xs = list(a[0]) if len(a) == 1 else list(a)
            if not _anysym(xs):
                return real(xs)
            # python semantics: keep the first unless a later one is strictly better
            r = xs[0]
            for y in xs[1:]:
                c = (y > r) if gt else (y < r)
                r = sym.s_ite(c, y, r) if isinstance(c, SymBool) else (y if c else r)
            return r
        return f
    b["max"] = _mm(True)
    b["min"] = _mm(False)
    real_round = builtins.round

    def _isinstance(x, t):
        return builtins.isinstance(x, _tmap(t))
    b["isinstance"] = _isinstance

    def _type(*a):
        if len(a) == 1:
            x = a[0]
            if builtins.isinstance(x, SymFloat):
                return FloatType
            if builtins.isinstance(x, SymInt):
                return IntType
            if builtins.isinstance(x, SymBool):
                return BoolType
        return builtins.type(*a)
    b["type"] = _type
    return b


def _anysym(xs):
    try:
        return any(is_sym(x) for x in xs)
    except TypeError:
        return False


import numbers  # noqa: E402


def _tmap(t):
    if isinstance(t, tuple):
        out = ()
        for x in t:
            y = _tmap(x)
            out += y if isinstance(y, tuple) else (y,)
        return out
    if t in (builtins.float, np.floating, np.float64, numbers.Real, numbers.Number):
        return (t, SymFloat) if t not in (numbers.Real, numbers.Number) else (t, SymFloat, SymInt)
    if t in (builtins.int, np.integer, numbers.Integral):
        return (t, SymInt)
    if t in (builtins.bool, np.bool_):
        return (t, SymBool)
    return t


# ------------------------------------------------------------------ loader
_CODE = {}


def _code(path):
    """compiled source, read once per worker process (each run has fresh ones)"""
    c = _CODE.get(path)
    if c is None:
        with open(path) as f:
            c = _CODE[path] = compile(f.read(), path, "exec")
    return c


class Loader:
    """`stubs` maps a module name to a dict of names overriding its globals after
    execution (contract stubs), and `extern` maps external module names to shims."""

    def __init__(self, repo=None, stubs=None, extern=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = stubs or {}
        self.ext = {
            "numpy": npshim, "numba": nbshim, "functools": ftshim, "math": mathshim, "time": timeshim,
        }
        from . import spshim
        self.ext.update(spshim.modules())
        self.ext.update(extern or {})
        self.builtins = _mkbuiltins(self._import)
        imp = types.ModuleType("importlib")
        imp.import_module = self.import_module
        imp.reload = importlib.reload
        self.ext["importlib"] = imp
        self.loaded_files = []

    # -- import machinery
    def import_module(self, name, package=None):
        if name.startswith("."):
            lev = len(name) - len(name.lstrip("."))
            base = package.split(".")
            base = base[: len(base) - (lev - 1)]
            name = ".".join(base + ([name.lstrip(".")] if name.lstrip(".") else []))
        if name == "neutralocean" or name.startswith("neutralocean."):
            return self.load(name)
        if name in self.ext:
            return self.ext[name]
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "neutralocean" or name.startswith("neutralocean."):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split(".")[0])
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.ext:
            m = self.ext[name]
            if not fromlist and "." in name:
                return self.ext.get(name.split(".")[0]) or importlib.import_module(name.split(".")[0])
            return m
        top = name.split(".")[0]
        if top in ("numpy",):
            if fromlist:
                return importlib.import_module(name)
            return npshim
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        raise ModuleNotFoundError(f"No module named {name!r}", name=name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, is_pkg = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if os.path.exists(path):
            self.loaded_files.append(path)
            try:
                exec(_code(path), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        for k, v in self.stubs.get(name, {}).items():
            m.__dict__[k] = v
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m
