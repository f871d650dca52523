from ..harness import Job
from ._contract import fz
from ._omega2 import h_weights

ASSUMES = ["the root finder meets its contract (C01, C02) and scipy solves its linear systems exactly; replay uses the real ones"]


def JOBS(tier):
    q = tier == "quick"
    H = "surface.omega._omega_matsolve_"
    path3, tri = ((0, 1), (1, 2)), ((0, 1), (2, 1), (0, 2))
    multi = ((0, 1), (1, 0), (1, 2), (2, 0))
    sq4 = ((0, 1), (2, 3), (0, 2), (3, 1))
    k4 = ((0, 1), (2, 3), (0, 2), (3, 1), (3, 0))
    grid9 = tuple((i, i + 1) for i in range(9) if i % 3 < 2) + tuple((i + 3, i) for i in range(6))
    js = []
    B = "thermobaric density, any salinity offsets, any pinning cast"
    for form in ("poisson", "gradient"):
        F = ["surface.omega.omega_surf", H + form, H + "helper", "ntp.ntp_epsilon_errors", "lib.aggsum"]
        J = lambda nm, b, **k: js.append(Job(f"{form}-{nm}", h_weights, dict(form=form, **k), stubs=fz, bounds=b, funcs=F))
        J("tri", f"3 mutually adjacent casts, uneven widths and distances; {B}", flat=True)
        J("region", f"3 mutually adjacent casts, any of them dry; {B}", flat=True, dry=True, csym=(0, 1))
        J("multi", f"repeated pairs, either direction; {B}", flat=True, edges=multi, csym=(0, 2))
        J("temp", f"row of 3 casts, any temperature offsets; {B}", flat=True, edges=path3, csym=(1,), dsym=(0, 1, 2))
        J("scalar", f"distances and widths given as numbers; {B}", flat=True, geom="scalar", csym=(1, 2))
        J("mixed", f"widths given as a number; {B}", flat=True, geom="mixed", csym=(0, 1))
        J("perp", f"distances left out; {B}", flat=True, geom="perp", csym=(0, 1))
        J("dist", f"widths left out; {B}", flat=True, geom="dist", csym=(0, 2))
        J("none", f"distances and widths left out; {B}", flat=True, geom="none", csym=(0, 2))
        J("ring4", f"ring of 4 casts, any of them dry; {B}", n=4, edges=sq4, flat=True, dry=True, csym=(0, 3), pins=(0, 3))
        J("region4", f"3 mutually adjacent casts and a fourth that may be dry, its pair first or last; {B}", n=4, edges=((3, 0), (0, 1), (2, 1), (0, 2)), flat=True, dry=(3,), csym=(0, 1), pins=(0, 2))
        J("region4b", f"the same with the fourth pair in between; {B}", n=4, edges=((0, 1), (2, 3), (2, 1), (0, 2)), flat=True, dry=(3,), csym=(0, 1), pins=(1,))
        J("k4", f"4 casts, 5 pairs; {B}", n=4, edges=k4, flat=True, csym=(1, 2), pins=(1, 2))
        J("grid9", f"3 x 3 casts, 12 pairs, one of them may be dry, uneven widths and distances; thermobaric density, any salinity offsets of two", n=9, edges=grid9, flat=True, dry=(5,), csym=(1, 6), pins=(4,))
        if not q or form == "poisson":
            J("depth", "3 mutually adjacent casts, thermobaric density, one initial depth free", pins=(0, 1) if q else None)
        J("geom", "3 mutually adjacent casts, any widths", flat=True, geom="sym", csym=(), edges=tri if form == "poisson" else path3, pins=(1,) if q else None)
    return js
