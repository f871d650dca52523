"""Harness environments: symbolic (SymEnv) and replay on the real code (RealEnv)."""
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

REPO = os.environ.get("NV_REPO", "/repo")


class AssumeFailed(Exception):
    pass


class ReplayFailure(Exception):
    """A check failed while replaying on the real code."""


class Job:
    def __init__(self, name, fn, cfg=None, bounds="", funcs=(), stubs=None, opts=None,
                 replay_timeout=300, allow_exc=(), assumes=(), witness=True):
        self.name = name
        self.fn = fn
        self.cfg = cfg or {}
        self.bounds = bounds
        self.funcs = list(funcs)
        self.stubs = stubs  # callable(env) -> dict for the Loader
        self.opts = opts or {}
        self.replay_timeout = replay_timeout
        self.assumes = list(assumes)
        self.witness = witness


# ------------------------------------------------------------------ symbolic
class SymEnv:
    symbolic = True

    def __init__(self, path, loader, tier="quick"):
        from . import sym, nparr
        global poly
        from . import poly
        self.S = sym
        self.N = nparr
        self.np = nparr.npshim
        self.path = path
        self.loader = loader
        self.inputs = {}
        self.tier = tier
        self.nan = sym.NAN
        self.vals = {}

    # inputs -----------------------------------------------------------
    def float(self, name, lo=None, hi=None, nan=False):
        z3 = self.S.z3
        v = z3.Real(name)
        nf = False
        if nan:
            nf = z3.Bool(name + "#nan")
        self.inputs[name] = ("f", v, nf)
        if lo is not None:
            self.path.add(v >= self._q(lo))
        if hi is not None:
            self.path.add(v <= self._q(hi))
        return self.S.SymFloat(v, nf)

    def _q(self, x):
        if isinstance(x, self.S.SymFloat):
            return self.S.z(x.v)
        return self.S.z(self.S.frac(x))

    def int(self, name, lo, hi):
        z3 = self.S.z3
        v = z3.Int(name)
        self.inputs[name] = ("i", v, False)
        self.path.add(z3.And(v >= lo, v <= hi))
        return self.S.SymInt(v)

    def bool(self, name):
        v = self.S.z3.Bool(name)
        self.inputs[name] = ("b", v, False)
        return self.S.SymBool(v)

    def record(self, name, x):
        """remember a derived value so that a model reports it (for replay)"""
        x = self.S.as_float(x)
        if not isinstance(x.v, float):
            self.inputs[name] = ("f", self.S.z(x.v), x.nan if x.nan is not True else self.S.z3.BoolVal(True))

    def concrete_int(self, x):
        return int(x)

    def const(self, x):
        return self.S.as_float(x)

    def floats(self, name, shape, lo=None, hi=None, nan=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = self.float(name + "".join(f"_{k}" for k in i), lo, hi, nan)
        return self.arr(o)

    def incr(self, name, n, lo=-8, hi=8, gap=None):
        """n strictly increasing values in [lo, hi]"""
        a = [self.float(f"{name}_{i}") for i in range(n)]
        self.path.add(self.S.z(a[0].v) >= self._q(lo))
        self.path.add(self.S.z(a[-1].v) <= self._q(hi))
        for i in range(n - 1):
            if gap is None:
                self.path.add(a[i].v < a[i + 1].v)
            else:
                self.path.add(a[i].v + self._q(gap) <= a[i + 1].v)
        return self.arr(a)

    def arr(self, xs, kind="f"):
        return self.N.mk(xs, kind)

    def fresh(self, tag="aux"):
        return self.S.SymFloat(self.path.fresh_real(tag))

    # modules ----------------------------------------------------------
    def mod(self, name):
        return self.loader.load(name)

    def njit(self, f):
        f.py_func = f
        return f

    # logic ------------------------------------------------------------
    def assume(self, c):
        self.path.add(c)

    def isnan(self, x):
        return self.N._isnan(x)

    def ite(self, c, a, b):
        return self.S.s_ite(c, a, b)

    def And(self, *cs):
        r = True
        for c in cs:
            r = self.N._land(r, c)
        return r

    def Or(self, *cs):
        r = False
        for c in cs:
            r = self.N._lor(r, c)
        return r

    def Not(self, c):
        return self.N._lnot(c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return self.S.f_max(a, b)

    def min(self, a, b):
        return self.S.f_min(a, b)

    def sqrt(self, x):
        return self.S.f_sqrt(self.S.as_float(x))

    # obligations --------------------------------------------------------
    def check(self, c, msg):
        """c must hold"""
        S = self.S
        e = S.zb(c) if not isinstance(c, (bool, np.bool_)) else S.z3.BoolVal(bool(c))
        self.path.obls.append((msg, S.z3.Not(e), S.z3.Not(e)))

    def fail(self, msg):
        self.check(False, msg)

    def _sc(self, x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise ValueError(f"expected a scalar, got shape {x.shape}")
            x = x.reshape(-1)[0]
        return self.S.as_float(x)

    def eq(self, a, b, msg, margin=1e-6, tol=None, ident=False):
        """a == b, NaN equal to NaN; ident: first try whether both are the same
        rational function"""
        S, z3 = self.S, self.S.z3
        a, b = self._sc(a), self._sc(b)
        if isinstance(a.v, float) or isinstance(b.v, float):
            same = isinstance(a.v, float) and isinstance(b.v, float) and a.v == b.v
            nn = S.b_and(a.nan, b.nan)
            bad = S.b_not(S.b_or(nn, S.b_and(S.b_and(S.b_not(a.nan), S.b_not(b.nan)), same)))
            self.path.obls.append((msg, S.zb(bad), S.zb(bad)))
            return
        nanbad = S.zb(a.nan) != S.zb(b.nan) if not (isinstance(a.nan, bool) and isinstance(b.nan, bool)) \
            else z3.BoolVal(a.nan != b.nan)
        bothok = S.b_and(S.b_not(a.nan), S.b_not(b.nan))
        if isinstance(a.v, Fraction) and isinstance(b.v, Fraction):
            d = abs(a.v - b.v)
            exact = z3.BoolVal(d != 0)
            marg = z3.BoolVal(d > Fraction(margin) * (1 + abs(b.v)))
        elif ident and poly.identical(S.z(a.v), S.z(b.v)):
            exact = marg = z3.BoolVal(False)
        else:
            av, bv = S.z(a.v), S.z(b.v)
            exact = av != bv
            m = z3.RealVal(Fraction(margin))
            babs = z3.If(bv >= 0, bv, -bv)
            marg = z3.Or(av - bv > m * (1 + babs), bv - av > m * (1 + babs))
        self.path.obls.append((msg, z3.Or(nanbad, z3.And(S.zb(bothok), exact)),
                               z3.Or(nanbad, z3.And(S.zb(bothok), marg))))

    def le(self, a, b, msg, margin=1e-6, tol=None):
        """a <= b (both not NaN)"""
        S, z3 = self.S, self.S.z3
        a, b = self._sc(a), self._sc(b)
        if isinstance(a.v, float) or isinstance(b.v, float):
            return self.check(a <= b, msg)
        nn = S.zb(S.b_or(a.nan, b.nan))
        av, bv = S.z(a.v), S.z(b.v)
        m = z3.RealVal(Fraction(margin))
        babs = z3.If(bv >= 0, bv, -bv)
        self.path.obls.append((msg, z3.Or(nn, av > bv), z3.Or(nn, av > bv + m * (1 + babs))))

    def eqa(self, a, b, msg, margin=1e-6, tol=None):
        A, B = self.N._objarr(a), self.N._objarr(b)
        if A.shape != B.shape:
            self.fail(f"{msg}: shape {A.shape} != {B.shape}")
            return
        for i in np.ndindex(A.shape):
            self.eq(A[i], B[i], f"{msg}[{','.join(map(str, i))}]", margin)

    def concretize_nan(self, x):
        return bool(self.isnan(x))

    def values(self, a):
        """plain list/array access"""
        return a


# ------------------------------------------------------------------ replay
def _parse(v):
    if isinstance(v, str):
        if v == "nan":
            return float("nan")
        return float(Fraction(v))
    return v


class RealEnv:
    symbolic = False
    nan = float("nan")

    def __init__(self, inputs, tier="quick"):
        self.vals = inputs
        self.np = np
        self.tier = tier
        self.nchecks = 0
        self.path = None
        self.strict = False

    def float(self, name, lo=None, hi=None, nan=False):
        v = self.vals.get(name)
        if v is None:
            v = "0"
        return _parse(v)

    def int(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    def record(self, name, x):
        pass

    def concrete_int(self, x):
        return int(x)

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def const(self, x):
        return float(x)

    def floats(self, name, shape, lo=None, hi=None, nan=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape)
        for i in np.ndindex(shape):
            o[i] = self.float(name + "".join(f"_{k}" for k in i))
        return o

    def incr(self, name, n, lo=-8, hi=8, gap=None):
        return np.array([self.float(f"{name}_{i}") for i in range(n)])

    def arr(self, xs, kind="f"):
        return np.array(xs, dtype=float if kind == "f" else bool)

    def mod(self, name):
        m = importlib.import_module(name)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__
        return m

    _jit = {}

    def njit(self, f):
        import numba
        if f.__closure__ is not None or "<locals>" in f.__qualname__:
            return numba.njit(f)
        if f not in self._jit:  # compiled once per process
            self._jit[f] = numba.njit(f)
        return self._jit[f]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def isnan(self, x):
        return bool(x != x)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return max(a, b) if a == a and b == b else float("nan")

    def min(self, a, b):
        return min(a, b) if a == a and b == b else float("nan")

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def check(self, c, msg):
        self.nchecks += 1
        if not bool(c):
            raise ReplayFailure(msg)

    def fail(self, msg):
        raise ReplayFailure(msg)

    def _sc(self, x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise ValueError(f"expected a scalar, got shape {x.shape}")
            x = x.reshape(-1)[0]
        return float(x)

    def eq(self, a, b, msg, margin=1e-6, tol=None, ident=False):
        self.nchecks += 1
        tol = margin / 20 if tol is None else tol
        a, b = self._sc(a), self._sc(b)
        if a != a and b != b:
            return
        if math.isinf(a) or math.isinf(b):
            if a == b:
                return
            raise ReplayFailure(f"{msg}: got {a!r}, expected {b!r}")
        if not abs(a - b) <= tol * (1 + abs(b)):
            raise ReplayFailure(f"{msg}: got {a!r}, expected {b!r}")

    def le(self, a, b, msg, margin=1e-6, tol=None):
        self.nchecks += 1
        tol = margin / 20 if tol is None else tol
        a, b = self._sc(a), self._sc(b)
        if not a <= b + tol * (1 + abs(b)):
            raise ReplayFailure(f"{msg}: {a!r} > {b!r}")

    def eqa(self, a, b, msg, margin=1e-6, tol=None):
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if A.shape != B.shape:
            raise ReplayFailure(f"{msg}: shape {A.shape} != {B.shape}")
        for i in np.ndindex(A.shape):
            self.eq(A[i], B[i], f"{msg}[{','.join(map(str, i))}]", margin, tol)

    def concretize_nan(self, x):
        return bool(x != x)

    def values(self, a):
        return a


# ------------------------------------------------------------------ running a job
def _frac_of(m, v):
    e = m.eval(v, model_completion=True)
    import z3
    if z3.is_rational_value(e):
        return str(e.as_fraction())
    if z3.is_algebraic_value(e):
        return str(e.approx(30).as_fraction())
    return None


def extract(m, inputs):
    import z3
    out = {}
    for n, (k, v, nf) in inputs.items():
        if k == "f":
            if nf is not False and z3.is_true(m.eval(nf, model_completion=True)):
                out[n] = "nan"
            else:
                out[n] = _frac_of(m, v) or "0"
        elif k == "i":
            out[n] = m.eval(v, model_completion=True).as_long()
        else:
            out[n] = z3.is_true(m.eval(v, model_completion=True))
    return out


def robust(e, m, neg=False):
    """strengthen strict/non-strict inequalities by a slack m (for models only)"""
    import z3
    if z3.is_not(e):
        return robust(e.arg(0), m, not neg)
    if z3.is_and(e) or z3.is_or(e):
        ks = [robust(c, m, neg) for c in e.children()]
        return z3.And(ks) if z3.is_and(e) != neg else z3.Or(ks)
    if e.num_args() == 2 and z3.is_bool(e) and z3.is_arith(e.arg(0)) and e.arg(0).is_real():
        a, b = e.arg(0), e.arg(1)
        d = e.decl().kind()
        if neg:
            flip = {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_GE: z3.Z3_OP_LT}
            if d in flip:
                d = flip[d]
            elif d == z3.Z3_OP_EQ:
                return z3.Or(a + m <= b, b + m <= a)
            elif d == z3.Z3_OP_DISTINCT:
                return a == b
            else:
                return z3.Not(e)
        if d in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            return a + m <= b
        if d in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            return a >= b + m
        if d == z3.Z3_OP_DISTINCT:
            return z3.Or(a + m <= b, b + m <= a)
        return e
    return z3.Not(e) if neg else e


class JobResult:
    def __init__(self, name):
        self.name = name
        self.cex = []        # dicts: inputs, msg, kind
        self.witness = []    # dicts: inputs
        self.unsupported = []
        self.inconclusive = []
        self.stats = {}
        self.complete = False
        self.stop = None
        self.wall = 0.0
        self.files = []
        self.tolerated = 0
        self.samples = []
        self.reached = 0


_LIN = {}


def is_linear(e):
    import z3
    k = e.get_id()
    r = _LIN.get(k)
    if r is None or not r[1].eq(e):
        d = e.decl().kind()
        ok = True
        if d == z3.Z3_OP_MUL:
            ok = sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in e.children()) <= 1
        elif d in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            ok = z3.is_rational_value(e.arg(1))
        r = _LIN[k] = (ok and all(is_linear(c) for c in e.children()), e)
    return r[0]


def solve(pc, extra, stats, timeout, want_model=True, effort=1):
    """('sat', model) / ('unsat', None) / ('unknown', None)"""
    import z3
    from .sym import _check
    tries = [("smt", timeout)]
    lin = [c for c in pc if is_linear(c)] if extra and effort else pc
    if len(lin) < len(pc):
        # unsat already without the nonlinear part of the path?
        s = z3.Solver()
        s.set("timeout", min(2000, int(timeout)))
        s.add(*lin)
        s.add(*extra)
        if _check(s, stats) == z3.unsat:
            return "unsat", None
    if effort:
        tries += [("qfnra-nlsat", timeout), ("QF_NRA", timeout)]
    for tac, to in tries:
        try:
            if tac == "smt":
                s = z3.Solver()
            elif tac == "QF_NRA":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra").solver()
            else:
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", tac).solver()
            s.set("timeout", int(to))
            s.add(*pc)
            s.add(*extra)
            r = _check(s, stats)
        except z3.Z3Exception:
            continue
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
    return "unknown", None


def run_job(job, tier, seed, budget):
    """Explore one harness symbolically. Runs in a worker process."""
    import z3
    from . import sym
    from .loader import Loader
    sys.setrecursionlimit(20000)
    res = JobResult(job.name)
    t0 = time.time()
    z3.set_param("smt.random_seed", seed % 1000)
    opts = dict(max_paths=20000, max_time=budget, branch_timeout=3000, check_timeout=30000)
    opts.update(job.opts)
    max_cex = opts.pop("max_cex", 3)
    nwit = opts.pop("witnesses", 3)
    margin_check = opts.pop("margin_check", True)
    path_time = opts.pop("path_time", 100)
    ex = sym.Explorer(**opts)

    def alarm(*a):
        raise sym.Hang()
    signal.signal(signal.SIGALRM, alarm)

    def run_path(p):
        stubs = job.stubs() if job.stubs else {}
        env = None
        try:
            signal.setitimer(signal.ITIMER_REAL, path_time)
            ld = Loader(REPO, stubs=stubs)
            env = SymEnv(p, ld, tier)
            for st in stubs.values():
                for f in st.values():
                    if hasattr(f, "bind_env"):
                        f.bind_env(env)
            job.fn(env, **job.cfg)
            signal.setitimer(signal.ITIMER_REAL, 0)
            if not res.files:
                res.files = sorted(set(ld.loaded_files))
            finish(p, env)
        except sym.PathEnd as e:
            ex.stats.cut += 1
            signal.setitimer(signal.ITIMER_REAL, 0)
            if p.obls and env is not None and str(e) not in ("assumption false", "infeasible", "time budget"):
                finish(p, env)
        except sym.Unsupported as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            # an infeasible path may fail in strange ways: ignore those
            r, m = solve(p.pc, [], ex.stats, 5000)
            if r != "unsat":
                res.unsupported.append("".join(traceback.format_exception_only(e)).strip() + " @ " + where(e))
        except sym.Hang as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            add_cex(p, env, "does not terminate @ " + where(e), [], "hang")
        except AssumeFailed:
            signal.setitimer(signal.ITIMER_REAL, 0)
        except z3.Z3Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            res.unsupported.append("z3: " + str(e)[:200] + " @ " + where(e))
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if isinstance(e, (AttributeError, NameError, RecursionError)) and "/nv/" in last and "/props/" not in last:
                res.unsupported.append(f"engine: {type(e).__name__}: {str(e)[:200]} @ " + where(e))
                return
            add_cex(p, env, f"raised {type(e).__name__}: {str(e)[:200]} @ {where(e)}", [], "exception")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(res.cex) >= max_cex:
            return "stop"

    def where(e):
        tb = traceback.extract_tb(e.__traceback__)
        for fr in reversed(tb):
            if "/neutralocean/" in fr.filename:
                return f"{fr.filename}:{fr.lineno}"
        return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"

    def add_cex(p, env, msg, extra, kind):
        models = []
        for slack in ("1/32", "1/4096", None):
            pc = [robust(c, z3.RealVal(slack)) for c in p.pc] if slack else p.pc
            ex_ = extra
            r, m = solve(pc, ex_, ex.stats, 10000)
            if r == "sat":
                inp = extract(m, env.inputs)
                if inp not in models:
                    models.append(inp)
            elif r == "unsat" and slack is None:
                return False
        if not models:
            res.inconclusive.append(f"unknown: {msg}")
            return None
        res.cex.append({"msg": msg, "kind": kind, "models": models, "depth": len(p.decisions)})
        return True

    def finish(p, env):
        st = ex.stats
        obls = [(m, z3.simplify(e), g) for (m, e, g) in p.obls]
        st.obligations += len(obls)
        live = [(m, e, g) for (m, e, g) in obls if not z3.is_false(e)]
        st.trivial += len(obls) - len(live)
        res.reached += 1
        if live:
            r, mod = solve(p.pc, [z3.Or([e for _, e, _ in live])] if len(live) > 1 else [live[0][1]], st, ex.check_timeout,
                           effort=1 if len(live) == 1 else 0)
            if r != "unsat":
                for (m, e, g) in live:
                    if len(res.cex) >= max_cex:
                        break
                    r1, _ = solve(p.pc, [e], st, ex.check_timeout)
                    if r1 == "unsat":
                        continue
                    rg, _ = ("sat", None) if g is e or g.eq(e) else solve(p.pc, [g], st, ex.check_timeout)
                    if rg == "unsat":
                        res.tolerated += 1
                        continue
                    if r1 == "unknown" and rg == "unknown":
                        st.unknown_check += 1
                        res.inconclusive.append(f"unknown: {m}")
                        continue
                    if rg == "unknown":
                        g = e
                    add_cex(p, env, m, [g], "check")
        # reachability twin: this path's end is reachable; keep a few witnesses
        nrob = sum(w["robust"] for w in res.witness)
        if not res.witness or (nrob < nwit and st.reach_checks < 60) or (st.paths % 97 == 0 and nrob < 2 * nwit):
            got = None
            for slack in ("1/64", "1/2048", None):
                if slack is None and len(res.witness) - nrob >= 2:
                    break
                pc = [robust(c, z3.RealVal(slack)) for c in p.pc] if slack else p.pc
                r, m = solve(pc, [], st, 5000)
                if r == "sat":
                    got = extract(m, env.inputs)
                    break
            st.reach_checks += 1
            if got is not None:
                res.witness.append({"inputs": got, "robust": slack is not None})
                if len(res.samples) < 3:
                    res.samples.append({"harness": job.name, "path_decisions": len(p.decisions), "witness": got,
                                        "obligations": [m for m, _, _ in obls][:4]})

    try:
        ex.explore(run_path)
    except Exception as e:  # engine failure
        res.unsupported.append("engine: " + "".join(traceback.format_exception(e))[-600:])
    res.stats = ex.stats.d()
    res.complete = ex.complete
    res.stop = ex.stop
    res.wall = time.time() - t0
    return res
