"""Harnesses over neutralocean.ppinterp."""
from ..harness import Job

P = "neutralocean.ppinterp"


def block(E, X, Y):
    """first contiguous block of valid pairs, [k, K)"""
    n = len(X)
    k = n
    for i in range(n):
        if not E.concretize_nan(X[i]) and not E.concretize_nan(Y[i]):
            k = i
            break
    K = n
    for i in range(k + 1, n):
        if E.concretize_nan(X[i]) or E.concretize_nan(Y[i]):
            K = i
            break
    return k, K


def knots(E, n, nan_x, nan_y, two=False):
    """strictly increasing knots and data, with optional symbolic NaN pattern"""
    xs = [E.float(f"X_{i}", -8, 8, nan=nan_x) for i in range(n)]
    ys = [E.float(f"Y_{i}", -8, 8, nan=nan_y) for i in range(n)]
    if E.symbolic:
        for i in range(n - 1):
            E.path.add(xs[i].v < xs[i + 1].v)
    X, Y = E.arr(xs), E.arr(ys)
    if two:
        zs = []
        for i in range(n):
            v = E.float(f"Z_{i}", -8, 8)
            # same NaN structure as Y, as documented
            if E.symbolic:
                v = E.S.SymFloat(v.v, ys[i].nan)
            elif ys[i] != ys[i]:
                v = float("nan")
            zs.append(v)
        return X, Y, E.arr(zs)
    return X, Y


def find_piece(E, x, X, k, K):
    """index i of a piece with X[i] <= x <= X[i+1] inside [k, K), or None"""
    if K - k < 2 or E.concretize_nan(x):
        return None
    if x < X[k] or x > X[K - 1]:
        return None
    for i in range(k, K - 1):
        if x <= X[i + 1]:
            return i
    return K - 2


def lin(X, Y, i, x):
    return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])


def h_linear(E, n, nan_x, nan_y, nan_q=True, d=0, routes="all", ysym=None, blk=False):
    """every evaluation route of the linear interpolant equals the textbook one"""
    X, Y = knots(E, n, nan_x, nan_y) if ysym is None else mkknots(E, n, None, nan_y, nan_x, ysym, blk)
    nan_y = nan_y or bool(blk)
    x = E.float("x", -10, 10, nan=nan_q)
    k, K = block(E, X, Y)
    i = find_piece(E, x, X, k, K)
    if i is None:
        want = E.nan
    elif d == 0:
        want = lin(X, Y, i, x)
    elif d == 1:
        want = (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])
        # the derivative is only defined inside a piece
        E.assume(E.And(*[E.Not(x == X[j]) for j in range(k + 1, K - 1)]) if K - k > 2 else True)
    else:
        want = E.const(0.0)
    L = E.mod(P + ".linear")
    B = E.mod(P)
    mk = E.mod(P + ".tools").make_pp
    E.eq(B.ppval_1(x, X, mk("linear", kind="1", out="coeffs")(X, Y), d), want, "coeffs_1+ppval_1")
    E.eq(mk("linear", kind="1", out="interp")(x, X, Y, d), want, "interp_1")
    if routes == "all":
        E.eq(B.ppval(x, X, mk("linear", kind="u", out="coeffs")(X, Y), d), want, "coeffs+ppval")
        E.eq(mk("linear", kind="u", out="interp")(x, X, Y, d), want, "interp")
        C = mk("linear", kind="1", out="coeffs")(X, Y)
        for j, g in enumerate(B.ppval_1_two(x, X, C, C, d)):
            E.eq(g, want, f"ppval_1_two {j}")
        if not nan_x and not nan_y:
            C = mk("linear", kind="1", out="coeffs", nans=False)(X, Y)
            E.eq(B.ppval_1_nonan(x, X, C, d), want, "ppval_1_nonan")
            for j, g in enumerate(B.ppval_1_nonan_two(x, X, C, C, d)):
                E.eq(g, want, f"ppval_1_nonan_two {j}")


# ---------------------------------------------------------------- PCHIP
def sgn(E, v):
    """sign by forking (python int)"""
    if v > 0:
        return 1
    if v < 0:
        return -1
    return 0


def pchip_end(E, h0, h1, s0, s1):
    """Fritsch & Butland end slope: one-sided three-point formula, shape preserving"""
    d = ((2 * h0 + h1) * s0 - h0 * s1) / (h0 + h1)
    if sgn(E, d) != sgn(E, s0):
        return E.const(0.0)
    if sgn(E, s0) != sgn(E, s1):
        if E.abs(d) > 3 * E.abs(s0):
            return 3 * s0
    return d


def pchip_slopes(E, X, Y, k, K):
    """standard PCHIP slopes on [k, K)"""
    h = {i: X[i + 1] - X[i] for i in range(k, K - 1)}
    s = {i: (Y[i + 1] - Y[i]) / h[i] for i in range(k, K - 1)}
    if K - k == 2:
        return {k: s[k], k + 1: s[k]}, h, s
    d = {}
    d[k] = pchip_end(E, h[k], h[k + 1], s[k], s[k + 1])
    for i in range(k + 1, K - 1):
        if sgn(E, s[i - 1]) * sgn(E, s[i]) > 0:
            # weighted harmonic mean
            w1 = 2 * h[i] + h[i - 1]
            w2 = h[i] + 2 * h[i - 1]
            d[i] = (w1 + w2) / (w1 / s[i - 1] + w2 / s[i])
        else:
            d[i] = E.const(0.0)
    d[K - 1] = pchip_end(E, h[K - 2], h[K - 3], s[K - 2], s[K - 3])
    return d, h, s


def hermite(x, X, Y, d, i, deriv=0):
    """cubic Hermite on piece i in basis form"""
    h = X[i + 1] - X[i]
    t = (x - X[i]) / h
    if deriv == 0:
        return (Y[i] * (1 + 2 * t) * (1 - t) * (1 - t) + d[i] * h * t * (1 - t) * (1 - t)
                + Y[i + 1] * t * t * (3 - 2 * t) - d[i + 1] * h * t * t * (1 - t))
    if deriv == 1:
        return ((Y[i + 1] - Y[i]) * 6 * t * (1 - t) / h + d[i] * (1 - 4 * t + 3 * t * t) + d[i + 1] * (3 * t * t - 2 * t))
    if deriv == 2:
        return ((Y[i + 1] - Y[i]) * 6 * (1 - 2 * t) / h + d[i] * (6 * t - 4) + d[i + 1] * (6 * t - 2)) / h
    if deriv == 3:
        return (-12 * (Y[i + 1] - Y[i]) / h + 6 * d[i] + 6 * d[i + 1]) / (h * h)
    raise ValueError


UNEVEN = [-4.0, -3.5, -1.0, 0.0, 1.5, 2.0, 4.0, 7.0, 7.25, 9.0]
DATA = [3.0, 1.0, 1.0, 4.0, 7.0, 7.5, 2.0, -1.0, -6.0, -6.5]


def mkknots(E, n, Xc, nan_y, nan_x=False, ysym=None, block=False):
    """concrete knots Xc (None: symbolic) with symbolic data"""
    if Xc is None and ysym is None:
        return knots(E, n, nan_x, nan_y)
    if ysym is not None:
        # a long cast: data fixed, except at ysym; maybe one valid block and a stray datum after it
        Y = [E.float(f"Y_{i}", -8, 8) if i in ysym else E.const(DATA[i]) for i in range(n)]
        if block:
            k, K = E.concrete_int(E.int("block", 0, n - 1)), E.concrete_int(E.int("end", 1, n))
            E.assume(k < K)
            for i in range(n):
                if not k <= i < K and (i != K + 1 or block == "alone"):
                    Y[i] = E.nan
        return E.arr([E.const(x) for x in UNEVEN[:n]]), E.arr(Y)
    xs = []
    for i in range(n):
        v = E.const(Xc[i])
        if nan_x:
            f = E.bool(f"Xnan_{i}")
            if E.symbolic:
                v = E.S.SymFloat(v.v, f.e)
            elif f:
                v = float("nan")
        xs.append(v)
    return E.arr(xs), E.floats("Y", n, -8, 8, nan=nan_y)


def h_pchip(E, n, Xc, nan_y=False, nan_x=False, nan_q=False, d=0, routes="all", ysym=None, blk=False):
    X, Y = mkknots(E, n, Xc, nan_y, nan_x, ysym, blk)
    nan_y = nan_y or bool(blk)
    x = E.float("x", -10, 10, nan=nan_q)
    k, K = block(E, X, Y)
    i = find_piece(E, x, X, k, K)
    if i is None:
        want = E.nan
    else:
        sl, h, s = pchip_slopes(E, X, Y, k, K)
        if d and K - k > 2:
            E.assume(E.And(*[E.Not(x == X[j]) for j in range(k + 1, K - 1)]))
        want = hermite(x, X, Y, sl, i, d) if d < 4 else E.const(0.0)
    B = E.mod(P)
    mk = E.mod(P + ".tools").make_pp
    E.eq(B.ppval_1(x, X, mk("pchip", kind="1", out="coeffs")(X, Y), d), want, "coeffs_1+ppval_1")
    E.eq(mk("pchip", kind="1", out="interp")(x, X, Y, d), want, "interp_1")
    if routes == "all":
        E.eq(B.ppval(x, X, mk("pchip", kind="u", out="coeffs")(X, Y), d), want, "coeffs+ppval")
        E.eq(mk("pchip", kind="u", out="interp")(x, X, Y, d), want, "interp")
        C = mk("pchip", kind="1", out="coeffs")(X, Y)
        for j, g in enumerate(B.ppval_1_two(x, X, C, C, d)):
            E.eq(g, want, f"ppval_1_two {j}")
        if not nan_x and not nan_y:
            C = mk("pchip", kind="1", out="coeffs", nans=False)(X, Y)
            E.eq(B.ppval_1_nonan(x, X, C, d), want, "ppval_1_nonan")
            for j, g in enumerate(B.ppval_1_nonan_two(x, X, C, C, d)):
                E.eq(g, want, f"ppval_1_nonan_two {j}")


def h_range(E, n):
    """valid_range*: first contiguous block"""
    X = E.floats("X", n, -8, 8, nan=True)
    Y = E.floats("Y", n, -8, 8, nan=True)
    B = E.mod(P)
    k, K = n, n
    for i in range(n):
        if not E.concretize_nan(X[i]):
            k = i
            break
    for i in range(k + 1, n):
        if E.concretize_nan(X[i]):
            K = i
            break
    g = B.valid_range_1(X)
    E.check(int(g[0]) == k, "first valid index (1 array)")
    E.check(int(g[1]) == K, "end of the first valid block (1 array)")
    g = B.valid_range(X)
    E.check(int(g[0]) == k and int(g[1]) == K, "valid_range of an array")
    k, K = block(E, X, Y)
    g = B.valid_range_1_two(X, Y)
    E.check(int(g[0]) == k, "first index valid in both arrays")
    E.check(int(g[1]) == K, "end of the first block valid in both arrays")


def h_range_nd(E, n):
    X = E.floats("X", (2, n), -8, 8, nan=True)
    B = E.mod(P)
    ks, Ks = B.valid_range(X)
    for r in range(2):
        k, K = block(E, X[r], X[r])
        E.check(int(ks[r]) == k and int(Ks[r]) == K, f"row {r}")


def h_shape(E, n, Xc, kind="1"):
    """PCHIP passes through the data, is C1, and is monotone between neighbouring data:
    end slopes of each piece have the secant's sign and at most 3 times its size"""
    X, Y = mkknots(E, n, Xc, False)
    if kind == "1":
        C = E.mod(P + ".tools").make_pp("pchip", kind="1", out="coeffs", nans=False)(X, Y)
    else:
        C = E.mod(P + ".tools").make_pp("pchip", kind=kind, out="coeffs")(X, Y)
    pval = E.mod(P).pval
    prev = None
    for i in range(n - 1):
        h = X[i + 1] - X[i]
        s = (Y[i + 1] - Y[i]) / h
        E.eq(pval(E.const(0.0), C[i], 0), Y[i], f"left end of piece {i}")
        E.eq(pval(h, C[i], 0), Y[i + 1], f"right end of piece {i}")
        d0, d1 = pval(E.const(0.0), C[i], 1), pval(h, C[i], 1)
        if prev is not None:
            E.eq(d0, prev, f"first derivative jumps at knot {i}")
        prev = d1
        for d, w in ((d0, "left"), (d1, "right")):
            if s > 0:
                E.le(E.const(0.0), d, f"piece {i}: {w} slope against the data")
                E.le(d, 3 * s, f"piece {i}: {w} slope overshoots")
            elif s < 0:
                E.le(d, E.const(0.0), f"piece {i}: {w} slope against the data")
                E.le(3 * s, d, f"piece {i}: {w} slope overshoots")
            else:
                E.eq(d, 0, f"piece {i}: flat data but sloping interpolant")


def h_routes(E, interp, n, Xc, d, nan_y):
    """single / two-variable / no-NaN / universal variants agree with each other"""
    if Xc is None:
        X, Y, Z = knots(E, n, False, nan_y, two=True)
    else:
        X = E.arr([E.const(v) for v in Xc])
        ys = [E.float(f"Y_{i}", -8, 8, nan=nan_y) for i in range(n)]
        zs = []
        for i in range(n):
            v = E.float(f"Z_{i}", -8, 8)
            if E.symbolic:
                v = E.S.SymFloat(v.v, ys[i].nan)
            elif ys[i] != ys[i]:
                v = float("nan")
            zs.append(v)
        Y, Z = E.arr(ys), E.arr(zs)
    x = E.float("x", -10, 10)
    B = E.mod(P)
    mk = E.mod(P + ".tools").make_pp
    c1 = mk(interp, kind="1", out="coeffs")
    Yc, Zc = c1(X, Y), c1(X, Z)
    y = B.ppval_1(x, X, Yc, d)
    z = B.ppval_1(x, X, Zc, d)
    g = B.ppval_1_two(x, X, Yc, Zc, d)
    E.eq(g[0], y, "ppval_1_two first")
    E.eq(g[1], z, "ppval_1_two second")
    g = mk(interp, kind="1", out="interp", num_dep_vars=2)(x, X, Y, Z, d)
    E.eq(g[0], y, "interp_1_two first")
    E.eq(g[1], z, "interp_1_two second")
    g = mk(interp, kind="u", out="interp", num_dep_vars=2)(x, X, Y, Z, d)
    E.eq(g[0], y, "interp_two first")
    E.eq(g[1], z, "interp_two second")
    g = B.ppval_two(x, X, Yc, Zc, d)
    E.eq(g[0], y, "ppval_two first")
    E.eq(g[1], z, "ppval_two second")
    if not nan_y:
        c = mk(interp, kind="1", out="coeffs", nans=False)
        Yn, Zn = c(X, Y), c(X, Z)
        E.eq(B.ppval_1_nonan(x, X, Yn, d), y, "ppval_1_nonan")
        g = B.ppval_1_nonan_two(x, X, Yn, Zn, d)
        E.eq(g[0], y, "ppval_1_nonan_two first")
        E.eq(g[1], z, "ppval_1_nonan_two second")


def h_broadcast(E, interp, n, Xc):
    """universal functions solve each 1D problem of a broadcast stack independently"""
    X = E.arr([E.const(v) for v in Xc])
    Y = E.floats("Y", (2, n), -8, 8, nan=True)
    x = E.floats("x", (2, 1), -10, 10)
    B = E.mod(P)
    mk = E.mod(P + ".tools").make_pp
    C = mk(interp, kind="u", out="coeffs")(X, Y)
    E.check(tuple(C.shape[:2]) == (2, n), "coefficient shape")
    got = B.ppval(x, X, C, 0)
    E.check(tuple(got.shape) == (2, 2), "broadcast shape of evaluation")
    got2 = mk(interp, kind="u", out="interp")(x[:, 0], X, Y, 0)
    one = mk(interp, kind="1", out="interp")
    for i in range(2):
        for j in range(2):
            E.eq(got[i, j], one(x[i, 0], X, Y[j], 0), f"ppval[{i},{j}]")
    for j in range(2):
        E.eq(got2[j], one(x[j, 0], X, Y[j], 0), f"interp[{j}]")


def h_pval(E, order, dmax):
    """polynomial and derivative evaluation against term by term differentiation"""
    C = E.floats("C", order, -8, 8)
    x = E.float("x", -8, 8)
    pval = E.mod(P).pval
    c = [C[order - 1 - k] for k in range(order)]  # ascending powers
    for d in range(dmax + 1):
        want = E.const(0.0)
        for k, ck in enumerate(c):
            term = ck
            for _ in range(k):
                term = term * x
            want = want + term
        E.eq(pval(x, C, d), want, f"derivative {d}")
        tup = tuple(C[i] for i in range(order))
        E.eq(pval(x, tup, d), want, f"derivative {d} (tuple)")
        c = [ck * k for k, ck in enumerate(c)][1:]


def _all_routes(mk, interp):
    fs = []
    for kind in ("1", "u"):
        for out, nv in (("coeffs", 1), ("interp", 1), ("interp", 2)):
            for nans in (True, False) if (kind, out) == ("1", "coeffs") else (True,):
                fs.append(mk(interp, kind=kind, out=out, nans=nans, num_dep_vars=nv))
    return fs


def h_make_pp(E, interp):
    """the factory gives what is asked for whatever was asked before, and refuses the unknown"""
    mk = E.mod(P + ".tools").make_pp
    other = {"linear": "pchip", "pchip": "linear"}[interp]
    _all_routes(mk, other)
    _all_routes(mk, interp)
    _all_routes(mk, other)
    for a in (("cubic",), (interp, "2"), (interp, "u", "values"), (interp, "u", "interp", True, 3), (interp, "1", "coeffs", True, 2),
              (interp, "u", "coeffs", False), (interp, "1", "interp", False)):
        try:
            mk(*a)
        except ValueError:
            continue
        E.fail(f"make_pp{a} is not refused")
    mode = E.concrete_int(E.int("mode", 0, 2))
    if mode == 0:
        if interp == "linear":
            h_linear(E, 3, False, False, nan_q=False)
        else:
            h_pchip(E, 3, [0, 1, 3], routes="1")
        return
    X, Y = E.arr([E.const(v) for v in (0, 1, 3)]), E.floats("W", 3, -8, 8)
    x = E.float("u", 0, 3)
    B = E.mod(P)
    if mode == 1:  # the default is the universal coefficients of the linear interpolant
        E.eq(B.ppval(x, X, mk()(X, Y), 0), mk("linear", kind="1", out="interp")(x, X, Y, 0), "default interpolant")
    else:
        E.eq(B.ppval(x, X, mk(interp)(X, Y), 0), mk(interp, kind="1", out="interp")(x, X, Y, 0), "default route")
