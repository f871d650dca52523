"""Harnesses over neutralocean.fzero: f is an unknown function whose values at the
points the code chooses are free symbolic numbers."""
import numpy as np

EPS = 2.0 ** -52


def _tabf(x, xs, ys, log):
    n = int(log[0])
    log[0] += 1
    if n > 900:
        raise RuntimeError("no convergence after 900 evaluations")
    log[n + 1] = x
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


class Oracle:
    """f(x): fresh value per distinct point; records every evaluation"""

    def __init__(self, E, limit, flo=-8, fhi=8, on_eval=None, grid=None, free=()):
        self.grid = grid
        self.free = free
        self.E = E
        self.pts = []  # (x, y)
        self.limit = limit
        self.flo, self.fhi = flo, fhi
        self.on_eval = on_eval
        if not E.symbolic:
            tab = {}
            i = 0
            while f"fx_{i}" in E.vals:
                tab[E.float(f"fx_{i}")] = E.float(f"fy_{i}")
                i += 1
            xs = np.array(sorted(tab))
            self.args = (xs, np.array([tab[x] for x in xs]), np.zeros(1002))
            self.f = E.njit(_tabf)
        else:
            self.args = ()
            self.f = self._f

    def _f(self, x, *args):
        E = self.E
        n = len(self.pts)
        if n >= self.limit:
            raise E.S.PathEnd("evaluation bound")
        if self.grid and n not in self.free:
            y = E.const(self.grid[int(E.int(f"iy_{n}", 0, len(self.grid) - 1))])
            E.record(f"fy_{n}", y)
        else:
            y = E.float(f"fy_{n}", self.flo, self.fhi)
        E.record(f"fx_{n}", x)
        for (xi, yi) in self.pts:  # f is a function
            E.assume(E.Implies(x == xi, y == yi))
        if self.on_eval:
            self.on_eval(x, y, self.pts)
        self.pts.append((x, y))
        return y

    def done(self):
        """evaluations made, in order (after the call)"""
        if not self.E.symbolic:
            log = self.args[2]
            xs = [float(v) for v in log[1:int(log[0]) + 1]]
            self.pts = [(x, float(_tabf(x, self.args[0], self.args[1], np.zeros(2000)))) for x in xs]
            if self.on_eval:
                for n, (x, y) in enumerate(self.pts):
                    self.on_eval(x, y, self.pts[:n])
        return self.pts


def h_brent(E, K, ab=None, tmin=1 / 64, tfix=None, grid=None, free=()):
    """a bracketing root finder: stays in the bracket, returns a point next to a sign change"""
    if ab is None:
        a, b = E.float("a", -8, 8), E.float("b", -8, 8)
        E.assume(a < b)
    else:
        a, b = E.const(ab[0]), E.const(ab[1])
    t = E.float("t", tmin, 1) if tfix is None else E.const(tfix)

    def on_eval(x, y, pts):
        E.le(a, x, "evaluates left of the search range", margin=1e-9)
        E.le(x, b, "evaluates right of the search range", margin=1e-9)
        # current bracket from what has been seen
        if len(pts) >= 2:
            (x0, y0), (x1, y1) = pts[0], pts[1]
            lo, hi, slo = x0, x1, y0 > 0
            for (xi, yi) in pts[2:]:
                same = E.Or(E.And(yi > 0, slo), E.And(yi <= 0, E.Not(slo)))
                lo, hi = E.ite(same, xi, lo), E.ite(same, hi, xi)
            E.le(lo, x, "evaluates outside the current bracket (left)", margin=1e-9)
            E.le(x, hi, "evaluates outside the current bracket (right)", margin=1e-9)

    o = Oracle(E, 2 + K, on_eval=on_eval, grid=grid, free=free)
    r = E.mod("neutralocean.fzero").brent(o.f, a, b, t, o.args)
    pts = o.done()
    bracketed = None
    if E.isnan(r):
        # only allowed when the end values have strictly the same sign
        (fa, fb) = (pts[0][1], pts[1][1])
        E.check(E.Or(E.And(fa > 0, fb > 0), E.And(fa < 0, fb < 0)), "NaN although the range brackets a sign change")
        return
    E.le(a, r, "result left of the search range", margin=1e-9)
    E.le(r, b, "result right of the search range", margin=1e-9)
    tol = 2 * EPS * E.abs(r) + t
    ok = False
    for (x, y) in pts:
        for (x2, y2) in pts:
            ok = E.Or(ok, E.And(r == x, E.Or(y == 0, E.And(
                E.abs(x - x2) <= 2 * tol * (1 + 1e-9), E.abs(y) <= E.abs(y2) * (1 + 1e-9), E.Or(E.And(y > 0, y2 <= 0), E.And(y < 0, y2 >= 0), E.And(y <= 0, y2 > 0))))))
    E.check(ok, "result is not the better end, evaluated, of a sign change within tolerance")


def h_brent_bad(E):
    """degenerate ranges give NaN, a zero at an end is found"""
    a, b = E.float("a", -8, 8, nan=True), E.float("b", -8, 8, nan=True)
    t = E.float("t", 1e-3, 1)
    o = Oracle(E, 2)
    br = E.mod("neutralocean.fzero").brent
    if not E.symbolic and not len(o.args[0]):
        o.args = (np.array([0.0, 1.0]), np.array([1.0, 1.0]), o.args[2])
    bad = E.Or(E.isnan(a), E.isnan(b), a > b)
    if bad:
        E.check(E.isnan(br(o.f, a, b, t, o.args)), "invalid range must give NaN")
        return
    r = br(o.f, a, b, t, o.args)
    pts = o.done()
    fa, fb = pts[0][1], pts[1][1]
    E.check(E.Implies(E.Or(E.And(fa > 0, fb > 0), E.And(fa < 0, fb < 0)), E.isnan(r)), "no sign change must give NaN")
    if not E.isnan(r):
        E.check(E.Implies(E.And(fa == 0, E.Not(fb == 0)), r == a), "zero at the left end is not returned")
        E.check(E.Implies(E.And(fb == 0, E.Not(fa == 0)), r == b), "zero at the right end is not returned")


def _linf(x, r, sl):
    return (x - r) * sl


def h_guess(E, A=-1.0, B=2.0, t=2.0 ** -10, guesses=(-3.0, -1.0, -0.875, 0.25, 1.5, 2.0, 9.0)):
    """root finding from a guess, f a straight line with its zero anywhere"""
    x = E.const(guesses[E.concrete_int(E.int("guess", 0, len(guesses) - 1))])
    r = E.float("zero", A - 1, B + 1)
    sl = E.const((-2.0, 1.0)[E.concrete_int(E.int("up", 0, 1))])
    y = E.mod("neutralocean.fzero").brent_guess(E.njit(_linf), x, E.const(A), E.const(B), E.const(t), (r, sl))
    if E.Or(r < A, r > B):
        E.check(E.Or(E.isnan(y), E.And(r > A - 1e-9, r < B + 1e-9)), "a number although f does not change sign in the range")
        return
    if E.isnan(y):
        E.check(E.Or(r < A + 1e-9, r > B - 1e-9), "NaN although f changes sign in the range")
        return
    E.le(A, y, "result left of the range", margin=1e-9)
    E.le(y, B, "result right of the range", margin=1e-9)
    E.le(E.abs(y - r), 2 * t + 1e-9, "zero not found within the tolerance", margin=1e-9)


def h_bounds(E, guess="free"):
    """guess_to_bounds for an unknown f"""
    A, B = E.float("A", -8, 8), E.float("B", -8, 8)
    E.assume(A <= B)
    x = E.float("x", -12, 12)
    if guess == "in":
        E.assume(E.And(A < x, x < B))
    elif guess == "left":
        E.assume(x <= A)
    elif guess == "right":
        E.assume(x >= B)

    def on_eval(p, y, pts):
        E.le(A, p, "evaluates left of the range", margin=1e-9)
        E.le(p, B, "evaluates right of the range", margin=1e-9)

    o = Oracle(E, 60, on_eval=on_eval)
    r = E.mod("neutralocean.fzero").guess_to_bounds(o.f, x, A, B, o.args)
    pts = o.done()
    a, b = r
    n = len(pts)
    E.check(n <= 32, "more than 32 evaluations for one bracket search")

    def val(q):
        """f(q) as seen by the search"""
        v, known = E.const(0.0), False
        for (p, y) in pts:
            v = E.ite(p == q, y, v)
            known = E.Or(known, p == q)
        return v, known
    fA, fB = pts[0][1], None
    if E.isnan(a) or E.isnan(b):
        E.check(E.And(E.isnan(a), E.isnan(b)), "only one bound is NaN")
        fA, kA = val(A)
        fB, kB = val(B)
        E.check(E.And(kA, kB), "NaN without having looked at both ends")
        E.check(E.Or(E.And(fA > 0, fB > 0), E.And(fA <= 0, fB <= 0)), "NaN although the ends differ in sign")
        E.check(E.Not(E.Or(fA == 0, fB == 0)), "NaN although an end is a zero")
        return
    E.le(A, a, "left bound outside the range", margin=1e-9)
    E.le(b, B, "right bound outside the range", margin=1e-9)
    E.le(a, b, "bounds out of order", margin=1e-9)
    fa, ka = val(a)
    fb, kb = val(b)
    E.check(E.And(ka, kb), "bound was never evaluated")
    zero = E.And(a == b, fa == 0)
    E.check(E.Or(zero, E.And(fa > 0, fb <= 0), E.And(fa <= 0, fb > 0)), "no sign change between the bounds")
    xc = E.min(E.max(x, A), B)
    E.check(E.Or(zero, E.And(a <= xc, xc <= b)), "bracket does not contain the guess")


def h_bounds_local(E, side):
    """the search expands geometrically: a sign change at distance d from the guess is
    bracketed within about sqrt(2) d (or 1/50 of the range)"""
    A, B, x = E.const(0.0), E.const(1.0), E.float("x", 0, 1)
    E.assume(E.And(A < x, x < B))
    r = E.float("r", 0, 1)
    if side == "right":
        E.assume(E.And(r > x, r < B))
    else:
        E.assume(E.And(r < x, r > A))
    if E.symbolic:
        f = lambda y, rr: y - rr
    else:
        f = E.njit(lambda y, rr: y - rr)
    a, b = E.mod("neutralocean.fzero").guess_to_bounds(f, x, A, B, (r,))
    E.check(E.Not(E.Or(E.isnan(a), E.isnan(b))), "sign change not found")
    g = 1.4143
    if side == "right":
        E.le(b - x, g * E.max(r - x, (B - x) / 50), "right bound much farther than the sign change", margin=1e-4)
        E.le((x - a) * (B - x), g * E.max(r - x, (B - x) / 50) * (x - A), "left bound ran ahead of the right one", margin=1e-4)
    else:
        E.le(x - a, g * E.max(x - r, (x - A) / 50), "left bound much farther than the sign change", margin=1e-4)
        E.le((b - x) * (x - A), g * E.max(x - r, (x - A) / 50) * (B - x), "right bound ran ahead of the left one", margin=1e-4)
