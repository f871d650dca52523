from ..harness import Job
from ._contract import fz
from ._pure import h_grid, h_graph, h_interp, h_label, h_ntp, h_omega, h_surface, h_traj

ASSUMES = ["the root finder meets its contract (C01, C02) and scipy solves its linear systems exactly; replay uses the real ones"]


def JOBS(tier):
    J = lambda nm, h, b, funcs, stubs=None, **k: Job(nm, h, k, stubs=stubs, bounds=b, funcs=funcs)
    FS = ["surface.isopycnal", "surface._vertsolve", "ntp", "lib"]
    FO = ["surface.omega", "surface._vertsolve", "bfs", "ntp", "lib"]
    js = []
    for a in ("potential", "anomaly"):
        js += [J(a, h_surface, "2 casts of 2 levels with their own depths (one may be land), diagnostics; any salinity, pinning depth", FS, fz, ans=a),
               J(a + "-xr", h_surface, "the same in xarray containers, no diagnostics", FS, fz, ans=a, xr=True, diags=False)]
    js += [J("omega", h_omega, "2 casts of 2 levels with their own depths; any salinity, initial depths, mixed layer", FO, fz),
           J("omega-scalar", h_omega, "the same from one depth", FO, fz, init="scalar"),
           J("omega-xr", h_omega, "the same in xarray containers from one depth", FO, fz, init="scalar", xr=True),
           J("traj", h_traj, "2 casts of 2 levels; any salinity, start, bottle", ["traj"], fz),
           J("label", h_label, "cast of 3 levels; any salinity, depths", ["label.veronis", "mixed_layer.mixed_layer", "stability.count_unstable"]),
           J("ntp", h_ntp, "2 casts, any dry; any s, t, p", ["ntp.ntp_epsilon_errors", "ntp.ntp_epsilon_errors_norms"]),
           J("linear", h_interp, "3 knots, any data, NaN pattern, query", ["ppinterp"], interp="linear"),
           J("pchip", h_interp, "3 knots, any data, NaN pattern, query", ["ppinterp"], interp="pchip"),
           J("rect", h_grid, "2 x 3 cells, any distances", ["grid.rectilinear"], kind="rect"),
           J("tripolar", h_grid, "2 x 4 cells, any distances", ["grid.tripolar"], kind="tri"),
           J("graph", h_graph, "3 nodes, any values", ["grid.graph", "grid.tools", "lib"])]
    return js
