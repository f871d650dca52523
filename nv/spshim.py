"""scipy shims: dense sparse-matrix stand-ins and contract stubs for solvers."""
import types

import numpy as np
from fractions import Fraction

from . import nparr, sym
from .nparr import SymArr, mk
from .sym import SymFloat, Unsupported, as_float, is_sym


class Sparse:
    """Dense stand-in for a scipy sparse matrix whose data may be symbolic.
    Duplicate entries are summed, as scipy does."""

    def __init__(self, arg, shape=None, dtype=None, copy=False, fmt="csr", **k):
        self.format = fmt
        if isinstance(arg, Sparse):
            self.ent = dict(arg.ent)
            self.shape = arg.shape
            return
        self.ent = {}
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (r, c) = arg
            r, c = np.asarray(r), np.asarray(c)
            data = nparr._objarr(data)
            data = np.broadcast_to(data, r.shape) if data.ndim == 0 else data
            if not (len(data.ravel()) == r.size == c.size):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            for v, i, j in zip(data.ravel(), r.ravel(), c.ravel()):
                i, j = int(i), int(j)
                if i < 0 or j < 0:
                    raise ValueError("negative index found")
                if i >= shape[0] or j >= shape[1]:
                    raise ValueError("index exceeds matrix dimensions")
                self.ent[i, j] = (self.ent[i, j] + v) if (i, j) in self.ent else v
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = (nparr._objarr(x) for x in arg)
            if fmt == "csc":
                n = len(ptr) - 1
                shape = shape or (int(max(ind, default=-1)) + 1, n)
            else:
                n = len(ptr) - 1
                shape = shape or (n, int(max(ind, default=-1)) + 1)
            for a in range(n):
                for q in range(int(ptr[a]), int(ptr[a + 1])):
                    b = int(ind[q])
                    ij = (b, a) if fmt == "csc" else (a, b)
                    if ij[0] >= shape[0] or ij[1] >= shape[1]:
                        raise ValueError("index exceeds matrix dimensions")
                    v = data[q]
                    self.ent[ij] = (self.ent[ij] + v) if ij in self.ent else v
        elif isinstance(arg, tuple) and len(arg) == 2:
            shape = arg
        elif hasattr(arg, "tocoo"):
            m = arg.tocoo()
            self.ent = {(int(i), int(j)): v for v, i, j in zip(m.data, m.row, m.col)}
            shape = m.shape
        else:
            o = nparr._objarr(arg)
            shape = o.shape
            for i in np.ndindex(o.shape):
                if is_sym(o[i]) and not (isinstance(o[i], SymFloat) and o[i].concrete):
                    self.ent[i] = o[i]
                elif o[i] != 0:
                    self.ent[i] = o[i]
        self.shape = tuple(int(s) for s in shape)

    @property
    def T(self):
        r = Sparse(self.shape[::-1])
        r.ent = {(j, i): v for (i, j), v in self.ent.items()}
        r.format = self.format
        return r

    def transpose(self, *a, **k):
        return self.T

    @property
    def nnz(self):
        return len(self.ent)

    @property
    def data(self):
        return mk([self.ent[k] for k in sorted(self.ent)])

    def _to(self, fmt):
        r = Sparse(self)
        r.format = fmt
        return r

    def tocsr(self, **k):
        return self._to("csr")

    def tocsc(self, **k):
        return self._to("csc")

    def tocoo(self, **k):
        return self._to("coo")

    def copy(self):
        return Sparse(self, fmt=self.format)

    def toarray(self):
        o = np.empty(self.shape, dtype=object)
        o[...] = 0.0
        for k, v in self.ent.items():
            o[k] = v
        return mk(o)

    todense = toarray

    def diagonal(self):
        return mk([self.ent.get((i, i), 0.0) for i in range(min(self.shape))])

    def sum(self, axis=None):
        return self.toarray().sum(axis)

    def _comb(self, o, f):
        r = Sparse(self.shape, fmt=self.format)
        for k in set(self.ent) | set(o.ent):
            r.ent[k] = f(self.ent.get(k, 0.0), o.ent.get(k, 0.0))
        return r

    def __add__(self, o):
        return self._comb(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._comb(o, lambda a, b: a - b)

    def __neg__(self):
        r = Sparse(self)
        r.ent = {k: -v for k, v in self.ent.items()}
        return r

    def __mul__(self, o):
        if isinstance(o, (Sparse, np.ndarray)):
            return self @ o
        r = Sparse(self)
        r.ent = {k: v * o for k, v in self.ent.items()}
        return r

    __rmul__ = __mul__

    def __matmul__(self, o):
        if isinstance(o, Sparse):
            r = Sparse((self.shape[0], o.shape[1]), fmt=self.format)
            for (i, k), v in self.ent.items():
                for (k2, j), w in o.ent.items():
                    if k == k2:
                        r.ent[i, j] = r.ent[i, j] + v * w if (i, j) in r.ent else v * w
            return r
        return nparr.sh_dot(self.toarray(), o)

    def dot(self, o):
        return self @ o

    @property
    def row(self):
        return np.array([k[0] for k in sorted(self.ent)], dtype=np.int64)

    @property
    def col(self):
        return np.array([k[1] for k in sorted(self.ent)], dtype=np.int64)

    @property
    def indptr(self):
        ax = 1 if self.format == "csc" else 0
        n = self.shape[ax]
        c = np.zeros(n + 1, dtype=np.int64)
        for k in self.ent:
            c[k[ax] + 1] += 1
        return np.cumsum(c)

    @property
    def indices(self):
        if self.format == "csc":
            return np.array([i for (i, j) in sorted(self.ent, key=lambda k: (k[1], k[0]))], dtype=np.int64)
        return self.col

    def __getitem__(self, k):
        return self.toarray()[k]

    def __setitem__(self, k, v):
        if self.format == "coo":
            raise TypeError("'coo_matrix' object does not support item assignment")
        d = self.toarray()
        old = {q for q in self.ent}
        d[k] = v
        o = nparr._objarr(d)
        new = {q: o[q] for q in np.ndindex(self.shape)
               if q in old or not (isinstance(o[q], (int, float)) and o[q] == 0 or getattr(o[q], "v", None) == 0 and isinstance(getattr(o[q], "v"), Fraction))}
        self.ent = new

    def _cmp(self, o, f):
        r = Sparse(self.shape, fmt="csr")
        if isinstance(o, Sparse):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            get = lambda k: o.ent.get(k, 0.0)
        else:
            oo = nparr._objarr(o)
            oo = np.broadcast_to(oo, self.shape)
            get = lambda k: oo[k]
        for k in np.ndindex(self.shape):
            if bool(f(self.ent.get(k, 0.0), get(k))):
                r.ent[k] = True
        return r

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    __hash__ = None

    def astype(self, t, **k):
        if t in (bool, "bool"):
            return self != 0
        return Sparse(self)

    def nonzero(self):
        ks = [k for k in sorted(self.ent) if bool(self.ent[k] != 0)]
        return np.array([k[0] for k in ks], dtype=np.int64), np.array([k[1] for k in ks], dtype=np.int64)

    def count_nonzero(self):
        return len(self.nonzero()[0])

    def __abs__(self):
        r = Sparse(self)
        r.ent = {k: abs(v) for k, v in self.ent.items()}
        return r

    def max(self):
        return self.toarray().max()

    def eliminate_zeros(self):
        self.ent = {k: v for k, v in self.ent.items() if not bool(v == 0)}

    def sort_indices(self):
        pass


def _mkfmt(fmt):
    def f(arg, shape=None, dtype=None, copy=False, **k):
        return Sparse(arg, shape, dtype, copy, fmt=fmt)
    return f


def _find(A):
    A = Sparse(A)
    ks = [k for k in sorted(A.ent) if not bool(A.ent[k] == 0)]
    v = mk([A.ent[k] for k in ks])
    return np.array([k[0] for k in ks], dtype=np.int64), np.array([k[1] for k in ks], dtype=np.int64), v


def _tri(up):
    def f(A, k=0, format=None):
        A = Sparse(A)
        r = Sparse(A.shape)
        r.ent = {ij: v for ij, v in A.ent.items() if (ij[1] - ij[0] >= k if up else ij[1] - ij[0] <= k)}
        return r
    return f


def _issymmetric(a, atol=None, rtol=None):
    import scipy.linalg
    if isinstance(a, Sparse):
        raise ValueError("issymmetric: expected an ndarray")  # as scipy does
    if isinstance(a, SymArr):
        if a.ndim < 2 or a.shape[0] != a.shape[1]:
            return False
        o = nparr._objarr(a)
        return all(bool(o[i, j] == o[j, i]) for i in range(a.shape[0]) for j in range(i))
    return scipy.linalg.issymmetric(a)


def _eye(n, m=None, **k):
    r = Sparse((n, m or n))
    r.ent = {(i, i): SymFloat(sym.Fraction(1)) for i in range(min(n, m or n))}
    return r


def _diags(d, *a, **k):
    d = nparr._objarr(d).ravel()
    r = Sparse((len(d), len(d)))
    r.ent = {(i, i): v for i, v in enumerate(d)}
    return r


def exact_solve(A, b, what="spsolve"):
    """Contract stub of a direct linear solver: returns x with A x = b.
    The solution is found by exact Gaussian elimination over the (rational)
    matrix when it is concrete, otherwise a fresh vector constrained by A x = b."""
    A = Sparse(A)
    n = A.shape[0]
    bo = nparr._objarr(b).ravel()
    conc = all((not is_sym(v)) or (isinstance(v, SymFloat) and v.concrete) for v in A.ent.values())
    if conc:
        M = [[sym.Fraction(0)] * n for _ in range(n)]
        for (i, j), v in A.ent.items():
            M[i][j] = as_float(v).v
        x = [as_float(v) for v in bo]
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c] != 0), None)
            if p is None:
                # singular: scipy returns NaN/inf with a warning
                return mk([sym.NAN] * n)
            M[c], M[p] = M[p], M[c]
            x[c], x[p] = x[p], x[c]
            iv = 1 / M[c][c]
            M[c] = [q * iv for q in M[c]]
            x[c] = x[c] * SymFloat(iv)
            for r in range(n):
                if r != c and M[r][c] != 0:
                    f = M[r][c]
                    M[r] = [a - f * q for a, q in zip(M[r], M[c])]
                    x[r] = x[r] - x[c] * SymFloat(f)
        return mk(x)
    c = sym.ctx()
    xs = [SymFloat(c.fresh_real("sol")) for _ in range(n)]
    bad = False
    for v in bo:
        bad = sym.b_or(bad, as_float(v).nan)
    if bad is not False and c.branch(sym.zb(bad)):
        return mk([sym.NAN] * n)
    for i in range(n):
        acc = SymFloat(sym.Fraction(0))
        for (r, j), v in A.ent.items():
            if r == i:
                acc = acc + v * xs[j]
        c.add(acc == as_float(bo[i]))
    return mk(xs)


def lsqr(A, b, *args, **k):
    """Contract stub: a least-squares solution (normal equations)."""
    A = Sparse(A)
    At = A.T
    rhs = At @ mk(b)
    x = exact_solve(At @ A, rhs, "lsqr")
    return (x, 1, 1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, None)


MINIMIZE = [None]


def minimize(*a, **k):
    if MINIMIZE[0] is None:
        raise Unsupported("scipy.optimize.minimize without a contract stub")
    return MINIMIZE[0](*a, **k)


def modules():
    import scipy.sparse as rs
    sparse = types.ModuleType("scipy.sparse")
    for f in ("csr", "csc", "coo", "lil", "dok"):
        setattr(sparse, f + "_matrix", _mkfmt(f))
        setattr(sparse, f + "_array", _mkfmt(f))
    sparse.find = _find
    sparse.triu = _tri(True)
    sparse.tril = _tri(False)
    sparse.issparse = lambda a: isinstance(a, Sparse) or rs.issparse(a)
    sparse.eye = sparse.identity = _eye
    sparse.diags = _diags
    la = types.ModuleType("scipy.sparse.linalg")
    la.spsolve = lambda A, b, **k: exact_solve(A, b)
    la.lsqr = lsqr
    la.lsmr = lsqr
    lin = types.ModuleType("scipy.linalg")
    lin.issymmetric = _issymmetric
    opt = types.ModuleType("scipy.optimize")
    opt.minimize = minimize
    sparse.linalg = la
    sp = types.ModuleType("scipy")
    sp.sparse, sp.linalg, sp.optimize = sparse, lin, opt
    return {"scipy": sp, "scipy.sparse": sparse, "scipy.sparse.linalg": la, "scipy.linalg": lin, "scipy.optimize": opt}
