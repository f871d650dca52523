from ..harness import Job
from ._contract import fz
from ._omega2 import h_omega, h_refuse, h_weights

ASSUMES = ["the root finder meets its contract (C01, C02) and scipy solves its linear systems exactly; replay uses the real ones"]


def JOBS(tier):
    q = tier == "quick"
    F = ["surface.omega.omega_surf", "surface.omega._omega_matsolve_poisson", "surface.omega._omega_matsolve_helper", "surface._vertsolve._make_vertsolve", "bfs.bfs_conncomp1",
         "bfs.bfs_conncomp1_wet_perim", "ntp.ntp_epsilon_errors_norms", "grid.graph.edges_to_csr", "lib._process_casts", "lib._process_pin_cast", "lib._process_eos"]
    FG = F + ["surface.omega._omega_matsolve_gradient"]
    star4, tri, pair = ((0, 1), (0, 2), (3, 0)), ((0, 1), (2, 1), (0, 2)), ((0, 1),)
    K = ("full", "land", "one", "shallow", "cavity")
    B = "any offsets, initial depths (any missing), pinning cast"
    J = lambda nm, b, h=h_omega, funcs=F, **k: Job(nm, h, k, stubs=fz, bounds=b, funcs=funcs)
    js = [J("array", f"3 casts in a row, 1 iteration; {B}", iters=(None, 1), diags=False, out=False, **(dict(csym=(1,), pins=(0,)) if q else {})),
          J("array-2", f"3 casts in a row, 2 iterations, none dry at first; {B}", iters=(None, 2), dry=False, out=False, norms=False, **(dict(csym=(2,), pins=(1,), diags=False) if q else {})),
          J("out", f"2 casts, initial depths may be out of the cast; {B}", n=2, edges=pair),
          J("nowet", f"3 casts in a row, never wetting; {B}", wetting="never", diags=False, out=False, **(dict(csym=(1,), pins=(1,)) if q else {})),
          J("schedule", f"2 casts, any wetting schedule within 3 iterations; {B}", n=2, edges=pair, wetting="sym", iters=(3, 3), norms=False, **(dict(pins=(0,)) if q else {})),
          J("ml", f"2 casts, any mixed layer, wetting schedule, 3 iterations; {B}", n=2, edges=pair, ml="arr", wetting="sym", iters=(3, 3), diags=False, **(dict(pins=(0,), out=False) if q else {})),
          J("ml-row", f"3 casts in a row, any mixed layer, 2 iterations; {B}", ml="arr", diags=False, dry=False, iters=(2, 2), **(dict(csym=(1,), pins=(0,), out=False) if q else {})),
          J("ml-param", f"2 casts, mixed layer from any density threshold, 2 iterations; {B}", n=2, edges=pair, ml="dict", diags=False, out=False, funcs=F + ["mixed_layer.mixed_layer"], iters=(2, 2), **(dict(pins=(0,)) if q else {})),
          J("warm", f"2 casts, after a call with other options; {B}", n=2, edges=pair, warm=True, out=False, norms=False, iters=(None, 1)),
          J("ml-early", f"2 casts, any mixed layer, ITER_MIN 0..2, no wetting, 2 iterations; {B}", n=2, edges=pair, ml="arr", wetting="never", dry=False, out=False, iters=("sym", 2), norms=False),
          J("signs", "3 casts in a row pinned in the middle, 1 iteration; any offset of one, initial depths", pins=(1,), csym=(0,), iters=(None, 1), dry=False, out=False, wetting="never", norms=False),
          J("scalar", "3 casts in a row from one depth; any offsets, pin", init="scalar"),
          J("scalar-star", "4 casts in a star from one depth, any mixed layer, no diagnostics; any offsets, pin", init="scalar", n=4, edges=star4, ml="arr", diags=False, pins=(0, 3), **(dict(csym=(1,)) if q else {})),
          J("scalar-kinds", "3 casts of 5 kinds from one depth; any offsets, pin", init="scalar", kinds=K, iters=(None, 1), diags=False, **(dict(csym=(1,), pins=(0,)) if q else {})),
          J("perim", "4 casts in a row, one wetting pass per iteration; any offsets", init="scalar", n=4, edges=((0, 1), (1, 2), (2, 3)), rep=1, iters=(3, 3), pins=(0, 1), diags=False),
          J("stop", f"2 casts, any density tolerance, ITER_MIN 0..3, ITER_MAX 0..3; {B}", n=2, edges=pair, tol="sym", iters=("sym", "sym"), dry=False, norms=False, **(dict(pins=(0,), out=False) if q else {})),
          J("stop-dp", f"2 casts, any depth tolerance, ITER_MIN 0..3, no density tolerance; {B}", n=2, edges=pair, tol=0.0, dptol="sym", iters=("sym", 3), dry=False, diags=False),
          J("volume", f"2 casts, specific volume, any tolerance; {B}", n=2, edges=pair, vol=True, tol="sym", iters=(None, 2), dry=False),
          J("plain", f"2 casts, no distances; {B}", n=2, edges=pair, geom=False),
          J("grad", f"3 casts in a row, gradient formulation; {B}", funcs=FG, form="gradient", iters=(None, 1), diags=False, **(dict(csym=(1,), pins=(0, 2), out=False) if q else {})),
          J("layout", f"2 x 2 casts, vertical dimension first; {B}", n=4, edges=((0, 1), (0, 2), (2, 3)), shape=(2, 2), vd=0, iters=(None, 1), diags=False, dry=False, pins=(1,) if q else (1, 2), nk=2, csym=(3,) if q else (0, 3)),
          J("xarray", f"2 x 1 casts, vertical dimension in the middle, xarray; {B}", n=2, edges=pair, shape=(2, 1), vd=1, xr=True, iters=(None, 1), diags=False),
          Job("refuse", h_refuse, {}, stubs=fz, bounds="2 casts, any initial depth", funcs=F)]
    g6 = ((0, 1), (1, 2), (4, 3), (4, 5), (0, 3), (1, 4), (2, 5))
    js.append(J("grid6", "2 x 3 casts from one depth, 2 iterations; any offset of one, depth at the pinning cast", init="scalar", n=6, edges=g6, shape=(2, 3), csym=(3,), pins=(1,), norms=False))
    js.append(J("memory", "2 x 2 casts, any of 4 combinations of memory layouts of casts, initial depths and mixed layer, 1 iteration; any offset of one, initial depths", n=4, edges=((0, 1), (0, 2), (2, 3)), shape=(2, 2), nk=2, csym=(1,), pins=(2,), ml="arr", dry=False, out=False, norms=False, diags=False, wetting="never", iters=(None, 1), lay="any"))
    for form in ("poisson", "gradient"):
        js.append(J(f"weights-{form}", "3 mutually adjacent casts, thermobaric density, fixed initial depths, any offsets (see C19)", h=h_weights, funcs=FG, form=form, flat=True))
    return js
