"""Breadth-first search and wetting."""
import numpy as np


def csr(n, edges, order=None):
    nb = {i: [] for i in range(n)}
    for a, b in edges:
        nb[a].append(b)
        nb[b].append(a)
    if order:
        nb = {i: order(v) for i, v in nb.items()}
    ptr, ind = [0], []
    for i in range(n):
        ind += nb[i]
        ptr.append(len(ind))
    return np.array(ptr), np.array(ind, dtype=int), nb


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def boolarr(E, bs):
    return E.arr(bs, "b") if E.symbolic else np.array(bs, dtype=bool)


def distances(n, nb, root, ok):
    dist = {root: 0}
    q = [root]
    for m in q:
        for k in nb[m]:
            if k not in dist and ok[k]:
                dist[k] = dist[m] + 1
                q.append(k)
    return dist


def h_bfs(E, n=4, graph=None, loops=False):
    """result = the component of the root among good nodes, in order of distance"""
    m = E.mod("neutralocean.bfs")
    if graph is None:
        edges = [e for e in pairs(n) if E.bool(f"e_{e[0]}{e[1]}")]
        if loops:
            edges = [(0, 0)] + edges + edges[:1]
    else:
        edges = graph
    ptr, ind, nb = csr(n, edges)
    root = E.concrete_int(E.int("root", 0, n - 1))
    g = [E.bool(f"good_{i}") for i in range(n)]
    qu = m.bfs_conncomp1(ptr, ind, root, boolarr(E, g))
    qu = [int(q) for q in qu]
    ok = [bool(x) for x in g]
    if not ok[root]:
        E.check(qu == [], f"search from an invalid root returned {qu}")
        return
    dist = distances(n, nb, root, ok)
    E.check(len(set(qu)) == len(qu), f"repeated nodes in {qu}")
    E.check(set(qu) == set(dist), f"component {sorted(qu)}, expected {sorted(dist)}")
    E.check(bool(qu) and qu[0] == root, "root is not first")
    if set(qu) == set(dist):
        E.check(all(dist[a] <= dist[b] for a, b in zip(qu, qu[1:])), f"{qu} is not in order of discovery")


# ------------------------------------------------------------------ wetting
A_T = 0.25  # density = s - A_T t
SL = 1.0 + 2.0 * A_T  # its slope down every cast: S = c + P, T = d - 2 P


def eos_lin(s, t, p):
    return s - 0.25 * t


def casts(E, n, nk, kinds, csym=None):
    """n casts on levels 0..nk-1: S = c_n + P, T = d_n - 2P; kinds: valid levels [k, K)"""
    c = [E.float(f"c_{i}", -4, 4) if csym is None or i in csym else E.const((0.0, 1.0, 0.5, -0.75, 1.5, -1.0)[i]) for i in range(n)]
    d = [E.float(f"d_{i}", -4, 4) if csym is None else E.const((0.0, 0.5, -1.0, 1.0, 2.0, -0.5)[i]) for i in range(n)]
    S, T, P, rng = [], [], [], []
    for i in range(n):
        kk = kinds[min(len(kinds) - 1, E.concrete_int(E.int(f"cast_{i}", 0, len(kinds) - 1)))] if len(kinds) > 1 else kinds[0]
        rng.append(kk)
        S.append([c[i] + float(k) if kk[0] <= k < kk[1] else E.nan for k in range(nk)])
        T.append([d[i] - 2.0 * k if kk[0] <= k < kk[1] else E.nan for k in range(nk)])
        P.append([float(k) for k in range(nk)])
    return c, d, E.arr(S), E.arr(T), E.arr(P), rng


def setup(E, n, edges, nk, kinds, ml, rev=False, csym=None):
    ptr, ind, nb = csr(n, edges, (lambda v: v[::-1]) if rev else None)
    c, d, S, T, P, rng = casts(E, n, nk, kinds, csym)
    root = E.concrete_int(E.int("root", 0, n - 1)) if csym is None else 2
    wet = [bool(E.bool(f"wet_{i}")) for i in range(n)] if csym is None else [i == root or i not in csym and bool(E.bool(f"wet_{i}")) for i in range(n)]
    E.assume(all(rng[i][1] - rng[i][0] > 1 for i in range(n) if wet[i]))
    s, t, p = [], [], []
    for i in range(n):
        if wet[i]:
            pi = E.float(f"p_{i}", rng[i][0], rng[i][1] - 1) if csym is None or i == root else E.const((0.5, 1.0, 1.5, 0.25, 1.75, 1.25)[i])
            p.append(pi)
            s.append(c[i] + pi)
            t.append(d[i] - 2.0 * pi)
        else:
            p.append(E.nan)
            s.append(E.nan)
            t.append(E.nan)
    if ml:
        pml = E.floats("ml", n, -1, 3)
    else:
        pml = np.full(n, -np.inf) if not E.symbolic else E.arr([float("-inf")] * n)
    return ptr, ind, nb, c, d, S, T, P, rng, root, wet, s, t, p, pml


def link(E, c, d, rng, dens, n):
    """depth on cast n where the density is dens"""
    return (dens - (c[n] - A_T * d[n])) / SL


def oncast(E, c, d, rng, i, s, t, p, what):
    E.le(rng[i][0], p, f"{what} {i}: above the cast")
    E.le(p, rng[i][1] - 1, f"{what} {i}: below the cast")
    E.eq(s, c[i] + p, f"{what} {i}: salinity is not that of the cast at p")
    E.eq(t, d[i] - 2.0 * p, f"{what} {i}: temperature is not that of the cast at p")


def clear_link(E, r, rng, n, ml, tol=1e-4):
    """the link is possible by a margin"""
    ok = E.And(r >= rng[n][0] + tol, r <= rng[n][1] - 1 - tol)
    return E.And(ok, r > ml + tol)


TOLP = 1e-9


def h_wet(E, n=3, edges=((0, 1), (1, 2)), nk=3, kinds=((0, 3),), ml=True, rev=False, csym=None):
    m = E.mod("neutralocean.bfs")
    ptr, ind, nb, c, d, S, T, P, rng, root, wet, s, t, p, pml = setup(E, n, edges, nk, kinds, ml, rev, csym)
    eos = E.njit(eos_lin)
    ppc = E.mod("neutralocean.ppinterp").make_pp("linear", kind="1", out="coeffs", nans=False)
    sa, ta, pa = E.arr(s), E.arr(t), E.arr(p)
    qu, nw = m.bfs_conncomp1_wet(sa, ta, pa, ptr, ind, root, S, T, P, TOLP, eos, ppc, pml)
    qu = [int(q) for q in qu]
    dry1 = [E.concretize_nan(pa[i]) for i in range(n)]
    for i in range(n):
        if wet[i] or dry1[i]:
            E.eq(pa[i], p[i], f"pressure of cast {i} changed")
            E.eq(sa[i], s[i], f"salinity of cast {i} changed")
            E.eq(ta[i], t[i], f"temperature of cast {i} changed")
    new = [i for i in range(n) if not wet[i] and not dry1[i]]
    E.check(int(nw) == len(new), f"{int(nw)} newly wet reported, {len(new)} are")
    if not wet[root]:
        E.check(qu == [] and not new, "search from a dry root")
        return
    E.check(bool(qu) and qu[0] == root, "root is not first")
    E.check(len(set(qu)) == len(qu), f"repeated nodes in {qu}")
    E.check(all(not dry1[q] for q in qu), "dry cast in the queue")
    E.check(set(new) <= set(qu), "newly wet cast missing from the queue")
    for pos, q in enumerate(qu):
        before = [x for x in qu[:pos] if q in nb[x]]
        E.check(pos == 0 or bool(before), f"cast {q} not connected to earlier ones")
        if q in new:
            oncast(E, c, d, rng, q, sa[q], ta[q], pa[q], "newly wet cast")
            dq = sa[q] - A_T * ta[q]
            neutral = E.Or(*[E.abs(sa[x] - A_T * ta[x] - dq) <= 1e-6 for x in before])
            E.check(neutral, f"newly wet cast {q} is not neutrally linked to an earlier neighbour")
            E.check(pa[q] > pml[q] - 1e-7, f"newly wet cast {q} is in its mixed layer")
    # nothing more to do
    for q in qu:
        for x in nb[q]:
            if wet[x]:
                E.check(x in qu, f"wet neighbour {x} of {q} missing from the queue")
            elif dry1[x] and rng[x][1] - rng[x][0] > 1:
                r = link(E, c, d, rng, sa[q] - A_T * ta[q], x)
                E.check(E.Not(clear_link(E, r, rng, x, pml[x])), f"cast {x} left dry although {q} links to it")


def h_perim(E, n=3, edges=((0, 1), (1, 2)), nk=3, kinds=((0, 3),), ml=True, rep=None, rev=False, csym=None):
    m = E.mod("neutralocean.bfs")
    ptr, ind, nb, c, d, S, T, P, rng, root, wet, s, t, p, pml = setup(E, n, edges, nk, kinds, ml, rev, csym)
    eos = E.njit(eos_lin)
    ppc = E.mod("neutralocean.ppinterp").make_pp("linear", kind="1", out="coeffs", nans=False)
    sa, ta, pa = E.arr(s), E.arr(t), E.arr(p)
    n_rep = np.iinfo(np.int_).max if rep is None else rep
    nw = m.bfs_conncomp1_wet_perim(sa, ta, pa, ptr, ind, root, S, T, P, TOLP, eos, ppc, pml, n_rep)
    dry1 = [E.concretize_nan(pa[i]) for i in range(n)]
    comp = set(distances(n, nb, root, wet)) if wet[root] else set()
    new = [i for i in range(n) if i not in comp and not dry1[i]]
    E.check(int(nw) == len(new), f"{int(nw)} newly wet reported, {len(new)} are")
    E.check(all(not wet[i] for i in new), "a wet cast outside the component of the root was kept")
    for i in comp:
        E.eq(pa[i], p[i], f"pressure of wet cast {i} changed")
        E.eq(sa[i], s[i], f"salinity of wet cast {i} changed")
        E.eq(ta[i], t[i], f"temperature of wet cast {i} changed")
    # how many passes a cast is away from the component, through casts that are now wet
    dist = {i: 0 for i in comp}
    q = sorted(comp)
    for a in q:
        for b in nb[a]:
            if b not in dist and b in new:
                dist[b] = dist[a] + 1
                q.append(b)
    for i in new:
        E.check(i in dist, f"newly wet cast {i} is not connected to the root")
        if i not in dist:
            return
        if rep is not None:
            E.check(dist[i] <= rep, f"cast {i}, {dist[i]} steps away, got wet in {rep} passes")
    for i in new:
        oncast(E, c, d, rng, i, sa[i], ta[i], pa[i], "newly wet cast")
        # the mean of the links from some set of neighbours: those of the component that link, and possibly newly wet ones
        opt = sorted({x for x in nb[i] if x in new})
        base = [x for x in nb[i] if x in comp]
        dens = {x: sa[x] - A_T * ta[x] for x in set(base) | set(opt)}
        r = {x: link(E, c, d, rng, dens[x], i) for x in dens}
        inb = {x: bool(possible(E, r[x], rng, i, pml[i])) for x in dens}
        sure = [x for x in base if inb[x]]
        may = [x for x in opt if inb[x]]
        alts = []
        for k in range(2 ** len(may)):
            sel = sure + [x for j, x in enumerate(may) if k >> j & 1]
            if sel:
                tot = r[sel[0]]
                for x in sel[1:]:
                    tot = tot + r[x]
                alts.append(E.abs(pa[i] * float(len(sel)) - tot) <= 1e-6)
        E.check(E.Or(*alts) if alts else False, f"newly wet cast {i} is not at the mean of its neutral links")
    # a dry cast next to the component is wetted when a link exists
    if rep is None or rep >= 1:
        for i in range(n):
            if dry1[i] and not wet[i] and rng[i][1] - rng[i][0] > 1:
                for x in nb[i]:
                    if x in comp:
                        rx = link(E, c, d, rng, sa[x] - A_T * ta[x], i)
                        E.check(E.Not(clear_link(E, rx, rng, i, pml[i])), f"cast {i} left dry although wet cast {x} links to it")
    else:
        E.check(not new, "wetting although no passes were asked for")


def possible(E, r, rng, n, ml):
    return E.And(r >= rng[n][0], r <= rng[n][1] - 1, r > ml)
