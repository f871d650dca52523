import math
import numpy as np
from ..harness import Job

F = ["synthocean.synthocean"]


def h_synth(E, ni=(2, 3), nj=(2, 3), nk=(2, 3), zonal=None, opts=True):
    m = E.mod("neutralocean.synthocean")
    ni, nj, nk = (v[E.concrete_int(E.int(f"n{a}", 0, len(v) - 1))] if len(v) > 1 else v[0] for v, a in ((ni, "i"), (nj, "j"), (nk, "k")))
    kw = {}
    pbot, a, wrap, zu = 4000.0, 0.3, (False, False), False
    if opts:
        pbot = kw["pbot"] = E.float("pbot", 100, 8000)
        a = kw["SSSSa"] = E.float("SSSSa", -1, 1)
        wrap = kw["wrap"] = (bool(E.concrete_int(E.int("wrap_i", 0, 1))), bool(E.concrete_int(E.int("wrap_j", 0, 1))))
        zu = kw["zonally_uniform"] = bool(E.concrete_int(E.int("uniform", 0, 1)))
    S, T, P, g = m.synthocean((ni, nj, nk), **kw)
    E.check(S.shape == (ni, nj, nk) and T.shape == (ni, nj, nk) and P.shape == (nk,), "shape")
    # depths
    E.eq(P[0], 0.0, "uppermost depth", tol=1e-9)
    E.eq(P[nk - 1], pbot, "bottommost depth", tol=1e-9)
    for k in range(nk - 1):
        E.check(P[k] < P[k + 1], f"depth {k + 1} is not below depth {k}")
    # walls
    land = lambda i, j: not wrap[0] and i == 0 or not wrap[1] and j == 0
    for A, nm in ((S, "S"), (T, "T")):
        for i in range(ni):
            for j in range(nj):
                for k in range(nk):
                    E.check(E.isnan(A[i, j, k]) if land(i, j) else E.Not(E.isnan(A[i, j, k])), f"{nm}[{i},{j},{k}]: wall where there is none, or none where there is one")
    # the reference: no anomaly
    k2 = dict(kw, SSSSa=0.0, wrap=(True, True))
    S0, T0 = m.synthocean((ni, nj, nk), **k2)[:2]
    for i in range(ni):
        for j in range(nj):
            for k in range(nk):
                if land(i, j):
                    continue
                w = (1 - j / (nj - 1)) * (1 - k / (nk - 1))
                E.eq(S[i, j, k] - S0[i, j, k], a * w, f"effect of the salinity anomaly at {i},{j},{k}", tol=1e-9)
                E.eq(T[i, j, k], T0[i, j, k], f"temperature at {i},{j},{k}", tol=1e-9)
    for i in range(ni):
        for j in range(nj):
            E.check(E.And(T0[i, j, 0] >= -1.8 - 1e-9, T0[i, j, 0] <= 30 + 1e-9), f"sea surface temperature at {i},{j} out of range")
            E.check(E.And(S0[i, j, 0] > 30, S0[i, j, 0] < 40), f"sea surface salinity at {i},{j} is not oceanic")
            # the bottom does not vary with longitude, and is cold
            E.eq(S0[i, j, nk - 1], S0[0, j, nk - 1], "bottom salinity varies with longitude", tol=1e-9)
            E.eq(T0[i, j, nk - 1], T0[0, j, nk - 1], "bottom temperature varies with longitude", tol=1e-9)
            E.check(T0[i, j, nk - 1] < T0[i, j, 0], "bottom water is not colder than surface water")
            if zu:
                for k in range(nk):
                    E.eq(S0[i, j, k], S0[0, j, k], "salinity varies with longitude", tol=1e-9)
                    E.eq(T0[i, j, k], T0[0, j, k], "temperature varies with longitude", tol=1e-9)
    sst = [T0[i, j, 0] for i in range(ni) for j in range(nj)]
    E.check(E.Or(*[x >= 30 - 1e-9 for x in sst]), "no surface water of 30 degrees")
    E.check(E.Or(*[x <= -1.8 + 1e-9 for x in sst]), "no surface water of -1.8 degrees")
    if not zu:
        E.check(E.abs(S0[0, 0, 0] - S0[ni - 1, 0, 0]) > 1e-3, "no zonal structure")
    # the geometry
    E.check(g["nx"] == ni and g["ny"] == nj and g["nz"] == nk, "sizes in the geometry")
    R, d = 6370000.0, math.pi / 180
    dx, dy = 360.0 / ni, 140.0 / nj
    tot = 0.0
    for j in range(nj):
        south = -80 + j * dy
        E.eq(g["YGvec"][j], south, "southern edges", tol=1e-6)
        E.eq(g["YCvec"][j], south + dy / 2, "latitudes of the centres", tol=1e-6)
        E.eq(g["DXGvec"][j] / R, math.cos(south * d) * dx * d, "zonal widths on the southern edges", tol=1e-6)
        E.eq(g["DXCvec"][j] / R, math.cos((south + dy / 2) * d) * dx * d, "zonal widths at the centres", tol=1e-6)
        E.eq(g["RAWvec"][j] / R / R, dx * d * (math.sin((south + dy) * d) - math.sin(south * d)), "areas on the western edges", tol=1e-6)
        for nm in ("RASvec", "RAZvec"):
            E.eq(g[nm][j] / R / R, dx * d * (math.sin((south + dy / 2) * d) - math.sin((south - dy / 2) * d)), "areas on the southern edges", tol=1e-6)
        E.eq(g["RACvec"][j] / R / R, dx * d * (math.sin((south + dy) * d) - math.sin(south * d)), "areas of the cells", tol=1e-6)
    for i in range(ni):
        E.eq(g["XGvec"][i], i * dx, "western edges", tol=1e-6)
        E.eq(g["XCvec"][i], (i + 0.5) * dx, "longitudes of the centres", tol=1e-6)
    E.eq(g["DYGsc"] / R, dy * d, "meridional width", tol=1e-6)
    E.eq(g["DYCsc"] / R, dy * d, "meridional distance", tol=1e-6)


def JOBS(tier):
    q = tier == "quick"
    return [Job("synth", h_synth, dict() if q else dict(ni=(2, 3, 4), nj=(2, 3, 4, 5), nk=(2, 3, 4)),
                bounds="2..3 x 2..3 x 2..3 (thorough: up to 4 x 5 x 4) casts, any depth of the bottom and anomaly, any walls, uniform or not", funcs=F),
            Job("big", h_synth, dict(ni=(5,), nj=(7,), nk=(4,)), bounds="5 x 7 x 4 casts, any depth of the bottom and anomaly, any walls, uniform or not", funcs=F),
            Job("default", h_synth, dict(opts=False, ni=(3,), nj=(3,), nk=(3,)), bounds="3 x 3 x 3 casts, nothing else given", funcs=F)]
