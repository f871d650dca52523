NOT_APPLICABLE = []
PROPS = [
 dict(id="C01", title="Brent root finder: valid range, in-bracket, next to a sign change",
  statement="Given a range [a, b] whose end values of f differ in sign (or are zero), the bracketing root finder evaluates f only inside the range and inside the bracket known so far, and returns a point it evaluated that is a zero of f or lies within its tolerance of an evaluated point of opposite sign, being the one of the two with the smaller |f|. Given NaN, reversed or non-bracketing ranges it returns NaN and never a number. Started from a guess (brent_guess) it finds a zero in the range whenever the end values differ in sign, wherever the guess lies, and NaN when they do not and f is monotone.",
  quant="every range, tolerance and function value sequence the search can meet", why="The tests solve a few smooth functions; the interpolation, acceptance and bisection branches depend on the sequence of values of f and most sequences are never met.",
  files=["neutralocean/fzero.py"], mech=[("brent", "neutralocean/fzero.py")], note="All value sequences over a small value set up to 3 (thorough 4) interior evaluations and any tolerance; unrestricted values for 1 interior evaluation. brent_guess: linear f."),
 dict(id="C02", title="Bracket search from a guess finds a sign change inside the range",
  statement="Searching outward from a guess, the bracket search evaluates f only within [A, B], takes a bounded number of evaluations, and returns either an ordered pair inside [A, B] on which f changes sign (or a zero of f) and which encloses the guess (clipped to the range), or NaN for both when f at the two ends has the same strict sign. The bracket expands gradually: when the only zero is at distance d from the guess, the bracket reaches at most a factor of about sqrt(2) beyond d (or 1/50 of the range).",
  quant="every range, guess (inside or outside the range) and function", why="Tests use one or two functions and guesses.",
  files=["neutralocean/fzero.py"], mech=[("guess_to_bounds", "neutralocean/fzero.py")], note="f unknown, whole expansion unrolled; locality shown for linear f on [0,1]."),
 dict(id="C03", title="Interpolation uses the first contiguous valid block and nothing else",
  statement="For a profile with missing values, the valid range is the first contiguous run of entries where all given arrays are not NaN; interpolants are built from exactly this run, so values are NaN for a NaN query, for queries outside the run and when the run has fewer than two entries, and a number everywhere inside it. This holds for one profile and for stacks of profiles.",
  quant="every NaN pattern in knots, data and query, with any values", why="Tests use one masking pattern (NaN at the bottom).",
  files=["neutralocean/ppinterp/lib.py", "neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/ppinterp.py"],
  mech=[("valid_range*", "neutralocean/ppinterp/lib.py"), ("coeffs wrappers", "neutralocean/ppinterp/tools.py")], note="Profiles of 1 to 5 levels, every NaN pattern."),
 dict(id="C04", title="Linear interpolation and its derivatives are exact",
  statement="Linear interpolation of any valid profile at any query inside its range equals the straight line through the two enclosing knots, including at the knots and both ends; its first derivative is the secant slope of the enclosing piece and higher derivatives are zero. Coefficient-based and direct evaluation routes give this same value.",
  quant="all knot positions (strictly increasing), data and queries", why="Tests compare at a few points of one profile.",
  files=["neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/ppinterp.py"], mech=[("linear_coeffs*", "neutralocean/ppinterp/linear.py"), ("ppval*", "neutralocean/ppinterp/ppinterp.py")],
  note="2 to 5 (thorough 8) symbolic knots."),
 dict(id="C05", title="PCHIP interpolation is the shape-preserving Fritsch-Carlson/Butland cubic",
  statement="The PCHIP interpolant passes through the data, has a continuous first derivative, is monotone wherever neighbouring data are (no overshoot), and equals the standard PCHIP (weighted harmonic mean slopes, three-point one-sided end slopes limited to preserve shape, a straight line for two knots) with its derivatives of every order.",
  quant="all data values and queries over several knot layouts, incl. symbolic knots for small sizes", why="Tests compare one random profile with scipy.",
  files=["neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/ppinterp.py"], mech=[("pchip coefficients", "neutralocean/ppinterp/pchip.py")],
  note="2 to 5 (6) knots; uneven fixed layouts for 4 and more."),
 dict(id="C06", title="All interpolation routes agree",
  statement="For the same data and query, every route to an interpolated value or derivative agrees: one or two dependent variables at once, scalar, stacked and broadcast forms, with or without NaN handling (on NaN-free data), and via precomputed coefficients or directly. The factory gives the route asked for whatever was asked before, and refuses unknown or impossible ones.",
  quant="all data, NaN patterns and queries", why="Tests exercise a subset of the routes on one dataset.",
  files=["neutralocean/ppinterp/tools.py", "neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py"],
  mech=[("make_pp", "neutralocean/ppinterp/tools.py")], note="3 or 4 knots; 2 x 2 stacks for broadcasting."),
 dict(id="C07", title="Polynomial evaluation and its derivatives are exact for every order",
  statement="Evaluating a polynomial given by its coefficients (highest power first), or any of its derivatives, yields exactly that polynomial's value or derivative, for any number of coefficients, with zero for derivatives above the degree.",
  quant="all coefficients, points and derivative orders", why="Tests evaluate cubics at sample points.",
  files=["neutralocean/ppinterp/ppinterp.py"], mech=[("pval", "neutralocean/ppinterp/ppinterp.py")], note="1 to 5 (7) coefficients, all derivative orders."),
 dict(id="C08", title="Equations of state equal the published formulas over the whole ocean range",
  statement="The density / specific volume functions jmd95, jmdfwg06 and gsw equal the published formulas (Jackett & McDougall 1995; Jackett et al. 2006; Roquet et al. 2015, TEOS-10 75 term) for all oceanographic salinity, temperature and pressure; NaN in any argument gives NaN, gsw treats negative salinity as zero, and gswc forwards its arguments unchanged to the GSW library.",
  quant="all S in [0,42], T in [-3,40], P in [0,11000]", why="Tests check one or a few check values per function, which cannot pin dozens of coefficients.",
  files=["neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py", "neutralocean/eos/gsw.py", "neutralocean/eos/gswc.py"], mech=[("rho, specvol", "neutralocean/eos/")],
  note="Agreement on the whole box to 1e-12 of the typical size, decided over exact polynomial normal forms extracted from the code."),
 dict(id="C09", title="Equation of state derivatives are the exact derivatives",
  statement="Every derivative function of an equation of state (first, second and third order, in salinity, temperature, pressure) returns, in the documented order, the exact partial derivatives of that equation of state, for every oceanographic input.",
  quant="all S in [0,42], T in [-3,40], P in [0,11000]", why="Tests compare finite differences at single points for some of the functions.",
  files=["neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py", "neutralocean/eos/gsw.py", "neutralocean/eos/gswc.py"], mech=[("*_s_t, *_p, *_first_derivs, *_second_derivs, ...", "neutralocean/eos/")],
  note="Agreement on the whole box to 1e-10 of the typical size, decided over exact polynomial normal forms extracted from the code."),
 dict(id="C10", title="Equation of state factory: Boussinesq conversion, selection, vectorizing",
  statement="With gravity and reference density given, the made functions take depth, evaluate the equation of state at the hydrostatic pressure, and return the depth derivative scaled by the same factor; without them they are the plain functions. Whatever was requested before, the function returned is the one for the requested name or callable, kind and parameters; unknown requests are refused; the vectorized form applies element by element with broadcasting.",
  over=["inputs", "histories"], quant="all depths, gravities, reference densities, waters; request histories of length 2 (3)", why="Tests build one function at a time.",
  files=["neutralocean/eos/tools.py"], mech=[("make_eos, make_eos_s_t, make_eos_p, make_bsq, vectorize_eos", "neutralocean/eos/tools.py")], note="Request histories up to length 2 (3) from two equations of state, all three kinds."),
 dict(id="C11", title="Rectilinear grids list every adjacent pair once with its own distances",
  statement="The grid built for a rectilinear domain lists exactly the pairs of horizontally adjacent columns (wrapping only in periodic dimensions), each with the centre distance and face width given for that interface, for scalar, 1D, broadcastable or full distances; converting edge data back to maps puts every value back at its interface and NaN where there is none.",
  over=["inputs", "configurations"], quant="all grid sizes up to the bound, periodicities, distance shapes and values", why="Tests use one grid configuration.",
  files=["neutralocean/grid/rectilinear.py"], mech=[("build_grid, edgedata_to_maps", "neutralocean/grid/rectilinear.py")], note="Sizes 1..3 (4) in each dimension."),
 dict(id="C12", title="Tripolar grids join the northern fold and keep distances with interfaces",
  statement="The grid built for a tripolar domain lists each column with its eastern neighbour (periodic) and its northern neighbour, where the last row is folded onto itself (column i adjacent to column ni-1-i), each pair with the distances given for that interface; padded (nj+1, ni+2) input has its last row and first and last columns dropped; converting edge data back to maps restores the arrays.",
  over=["inputs", "configurations"], quant="all grid sizes up to the bound, distance shapes and values", why="No test builds a tripolar grid.",
  files=["neutralocean/grid/tripolar.py"], mech=[("build_grid, edgedata_to_maps", "neutralocean/grid/tripolar.py")], note="Sizes up to 3 x 4 (4 x 5)."),
 dict(id="C13", title="Tiled (xgcm) grids link tiles as specified and keep distances with interfaces",
  statement="The grid built from square tiles and their connections lists each column with its neighbour in the i and in the j direction (previous for 'left', next for 'right' shifts), across tile seams as connected and none at open seams, each pair with the distances given at that location, whatever the order of the dimensions; converting edge data back to maps restores them, NaN where there is no edge.",
  over=["inputs", "configurations"], quant="link patterns, shift directions, dimension orders, any distances", why="No test builds a tiled grid (the installed xgcm has another interface).",
  files=["neutralocean/grid/xgcm.py"], mech=[("build_grid, edgedata_to_maps", "neutralocean/grid/xgcm.py")], note="1 or 2 (3) tiles of 2x2 or 3x3; xgcm itself is replaced by a stand-in that pads over same-axis links."),
 dict(id="C14", title="Graph utilities keep edges, order, weights and conservation",
  statement="Converting an edge list to neighbour lists gives every node exactly its neighbours, in edge order; converting to a matrix gives the symmetric weighted matrix; building a grid from a matrix or matrices lists every edge once with its data and refuses inconsistent matrices; a binary function over edges is applied to the node values in edge direction (NaN where an edge has a negative node); the divergence of an edge flux is each node's net outflow over its area and sums to zero over the graph.",
  over=["inputs", "configurations"], quant="all small graphs (loops and repeats where allowed), weights, fluxes", why="Tests reach these functions only through one rectilinear grid.",
  files=["neutralocean/grid/graph.py", "neutralocean/grid/tools.py", "neutralocean/lib.py"], mech=[("edges_to_csr, edges_to_graph, build_grid, graph_binary_fcn", "neutralocean/grid/graph.py"), ("divergence", "neutralocean/grid/tools.py")],
  note="Graphs on 3 or 4 nodes with 2 to 4 edges."),

 dict(id="C15", title="Breadth-first search returns the whole connected component in order of distance",
  statement="The search from a root over good nodes returns exactly the nodes connected to the root through good nodes, each once, the root first and nearer nodes before farther ones; nothing when the root is not good.",
  over=["inputs", "configurations"], quant="all graphs up to the bound, roots and masks", why="No test calls the search on a graph with a known answer; components, loops and repeated edges are not sampled.",
  files=["neutralocean/bfs.py"], mech=[("bfs_conncomp1", "neutralocean/bfs.py")], note="Every graph on 3 and 4 (5) nodes, with a loop and repeats on 3; a ring, grid and tree of 7 or 8 nodes with any mask."),
 dict(id="C16", title="Wetting extends a surface only to neutrally linked casts below the mixed layer",
  statement="Wetting keeps every bottle that is already on the surface in the component of the root, and adds a dry cast only when it is adjacent to the component and neutrally linked to it: the added bottle lies on its own cast, in its range and below its mixed layer, neutral to the neighbour it came from (or, in perimeter wetting, at the mean of the neutral links from its wet neighbours, within the number of passes asked for). A dry cast next to the component which could be linked is linked; the number of newly wet casts is reported; casts that are not reached are untouched, in perimeter wetting dropped.",
  over=["inputs", "configurations"], quant="all offsets of S and T, wet sets, depths, mixed layers and roots", why="Tests run one ocean and look at the end result of the whole surface computation.",
  files=["neutralocean/bfs.py", "neutralocean/traj.py"], mech=[("bfs_conncomp1_wet, bfs_conncomp1_wet_perim", "neutralocean/bfs.py")],
  note="2 to 4 casts of 3 levels in several graphs, linear density, linear interpolation; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C17", title="Isosurfaces: every point has the isovalue on its own cast",
  statement="potential_surf and anomaly_surf return a surface on which each cast's salinity and temperature are the cast interpolated at the surface depth and the potential density (specific volume anomaly) referenced as asked equals the isovalue; the isovalue and reference are those given or, when left out, those of the pinning bottle, which the surface then intersects. Casts with fewer than two valid bottles give NaN, and so does the absence of an intersection, never a value outside the cast; a cast whose end values enclose the isovalue has the surface. The reported reference, isovalue and number of wet casts are those of the surface.",
  quant="all S, T, references, isovalues and pins, NaN patterns", why="Tests use one ocean with one reference and depth per function.",
  files=["neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py", "neutralocean/lib.py"], mech=[("_isopycnal, _choose_ref_isoval", "neutralocean/surface/isopycnal.py"), ("_make_vertsolve", "neutralocean/surface/_vertsolve.py")],
  note="1 to 4 casts of 2 to 3 (4) levels, linear and PCHIP; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C18", title="The omega vertical update changes locally referenced density by phi",
  statement="In an iteration of omega_surf, the bottle of each cast moves along its cast so that potential density referenced to the previous depth changes by the phi computed for that cast (minus the neutrality error, for a cast whose only neighbour is the pinning cast); salinity and temperature are those of the cast at the new depth. The pinning cast (phi = 0) is left exactly alone, too short a cast gives NaN, and so does the absence of a solution, never a value outside the cast; a solution is found when the ends of the cast enclose the target.",
  quant="all S, T, current depths and phi", why="Tests only see the final surface of one ocean.",
  files=["neutralocean/surface/_vertsolve.py"], mech=[("_make_vertsolve (omega)", "neutralocean/surface/_vertsolve.py")], note="Casts of 2 or 3 (4) levels with NaN patterns, linear and PCHIP; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C19", title="The omega update solves the surface's weighted least squares problem",
  statement="In an iteration of omega_surf over the region connected to the pinning cast, the correction phi (by which each cast's locally referenced density is changed) is zero at the pinning cast and makes the area-weighted residual of the neutrality errors plus the gradient of phi divergence-free at every other cast of the region (the least squares optimum), for every graph, any distances and face widths given as numbers or arrays, in both formulations.",
  over=["inputs", "configurations"], quant="all s and t, regions, reference casts, distances", why="Tests compare one surface with a stored or converged result; a slightly wrong weight still converges.",
  files=["neutralocean/surface/omega.py"], mech=[("_omega_matsolve_poisson, _omega_matsolve_gradient, _omega_matsolve_helper", "neutralocean/surface/omega.py")],
  note="3 or 4 casts in several graphs; through one iteration of omega_surf with a thermobaric density; scipy's linear solvers are replaced by exact linear solves and the root finder by its contract."),
 dict(id="C20", title="Omega surfaces: pinned, connected, wetted on schedule, iterated to tolerances",
  statement="omega_surf keeps the surface at its depth on the pinning cast (inside the water there), keeps only casts connected to it through adjacent wet casts, moves every kept cast by the area-weighted least squares correction of the neutrality errors (either formulation, the same surface when neutrality can be met exactly), adds casts around the perimeter exactly in the iterations of the wetting schedule and never from within the mixed layer, drops casts that outcrop or incrop, and stops at the first iteration (from ITER_MIN on) whose mean absolute correction (or root mean square depth change) meets the tolerance, or at ITER_MAX. Salinity and temperature returned are those of the casts at the returned depths; each diagnostic has one value per iteration (and one for the initial surface where it has one) and equals the quantity it names. It raises an error when the surface is not in the pinning cast, or the initial surface or formulation is not acceptable.",
  over=["inputs", "configurations", "histories"], quant="all casts' densities, initial surfaces (with missing casts), pinning casts, mixed layers, tolerances, iteration limits and wetting schedules, within the bounds", why="Tests run a few surfaces of one ocean and check that errors shrink; which casts are wetted, dropped or missed, when iteration stops and what the diagnostics say depends on the whole history.",
  files=["neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/ntp.py", "neutralocean/lib.py"], mech=[("omega_surf", "neutralocean/surface/omega.py")],
  note="2 to 4 casts of 3 levels, up to 3 iterations; density linear in S and T with depth-linear casts (plus a thermobaric density for the least squares weights); root finder replaced by its contract and sparse solvers by exact linear solves, both real in the replay."),
 dict(id="C21", title="Neutrality errors: one exact value per adjacent pair",
  statement="ntp_epsilon_errors gives for every pair in the grid, in its order and direction, the locally referenced density difference of the two bottles (saline contraction and thermal expansion coefficients at the mean of S, T and p of the two, times the differences of S and T) divided by the distance given (default 1), whatever the number type and memory layout of the arrays; NaN exactly when one of the two is dry.",
  over=["inputs", "configurations"], quant="all s, t, p, NaN patterns, distances", why="Tests only look at norms, of one surface.",
  files=["neutralocean/ntp.py"], mech=[("ntp_epsilon_errors, _ntp_epsilon_error1", "neutralocean/ntp.py")], note="3 to 6 casts with up to 7 pairs, cubic density."),
 dict(id="C22", title="Norms of the neutrality errors are the area-weighted RMS and mean absolute value",
  statement="ntp_epsilon_errors_norms gives the area-weighted root mean square and mean absolute value of the neutrality errors over the pairs of wet casts, the area of a pair being the product of its distance and face width, for distances given as arrays, numbers or not at all (1).",
  over=["inputs", "configurations"], quant="all s, t, p, NaN patterns, distances and widths", why="Tests check that norms are small or decrease.",
  files=["neutralocean/ntp.py"], mech=[("ntp_epsilon_errors_norms", "neutralocean/ntp.py")], note="2 to 4 casts with up to 4 pairs."),
 dict(id="C23", title="A bottle is linked to a cast at the same locally referenced density",
  statement="ntp_bottle_to_cast returns a bottle on the cast, inside its valid range, with the cast's interpolated salinity and temperature there, whose potential density referenced to the mean of the two pressures equals that of the given bottle; NaN when the bottle is missing, when the cast has fewer than two valid bottles, or when there is no such point; if the density differences at the two ends of the cast have opposite signs a link is found.",
  quant="all bottles and casts, NaN patterns", why="Tests link one bottle of one cast.",
  files=["neutralocean/traj.py"], mech=[("ntp_bottle_to_cast, _ntp_bottle_to_cast_ppc", "neutralocean/traj.py")], note="Casts of 2 to 4 levels, linear and PCHIP, cubic density; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C24", title="A neutral trajectory links cast to cast and stops when it leaves the ocean",
  statement="neutral_trajectory starts at the given pressure on the first cast, has each bottle neutrally linked to the one before, on its own cast, and is NaN from the first cast on where no link exists, never resuming.",
  quant="all casts, starting pressures, NaN patterns", why="Tests follow one trajectory.",
  files=["neutralocean/traj.py"], mech=[("neutral_trajectory", "neutralocean/traj.py")], note="2 to 4 casts of 2 or 3 levels; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C25", title="Veronis density is the surface density plus the integrated gradient",
  statement="veronis returns the potential density of the bottle at p0 plus factor times the integral, from p0 to p1, of the vertical gradient of locally referenced density along the interpolated cast, by the trapezoidal rule with steps of at most about dp within each piece (so exactly, where the integrand is linear, and within the corresponding error bound otherwise); NaN when p0 or p1 lies outside the cast.",
  quant="all casts, NaN patterns, p0, p1, steps, factors", why="Tests check one value for one cast.",
  files=["neutralocean/label.py"], mech=[("veronis, _int_dlrpd_dz", "neutralocean/label.py")], note="Casts of 2 to 4 levels; densities with linear and curved integrands."),
 dict(id="C26", title="The mixed layer base is where density passes the surface's by the threshold",
  statement="mixed_layer returns for every stably stratified cast the depth where potential density (or specific volume, converted) referenced as asked first differs from that of the chosen near-surface bottle by the threshold, interpolated linearly in density between bottles; NaN when the cast is too short or the threshold is not reached.",
  quant="all stable casts, thresholds, references, NaN patterns and layouts", why="Tests use one ocean with the default options, as an input to others.",
  files=["neutralocean/mixed_layer.py"], mech=[("mixed_layer", "neutralocean/mixed_layer.py")], note="1 or 2 casts of 3 or 4 levels."),
 dict(id="C27", title="Stability: counts unstable pairs, and stabilizes with the least change",
  statement="count_unstable counts the pairs of neighbouring valid bottles whose density referenced to their mean pressure does not increase with depth. stabilize_ST leaves stable casts exactly alone and missing bottles missing, and changes the others by the smallest weighted amount so that every pair of neighbours has at least the minimum stability asked for.",
  quant="all casts, minimum gradients, NaN patterns and layouts", why="Tests stabilize one cast.",
  files=["neutralocean/stability.py"], mech=[("count_unstable, stabilize_ST", "neutralocean/stability.py")], note="Casts of 2 to 4 levels; scipy's minimizer is replaced by its contract (a feasible point no worse than the optimum, from correct gradients), the optimum is decided for two bottles."),
 dict(id="C28", title="Layout and containers do not change the result",
  statement="Whatever the position of the vertical dimension (given by number or name) and the memory layout of the arrays, whether pressure is a profile or full array, whether data come as numpy or xarray arrays and however the pinning cast is given (number, tuple, or dict of coordinates in any key order), the result is that of the same data in the canonical layout, and xarray input gives xarray output with the horizontal dimensions, coordinates and names kept.",
  over=["inputs", "configurations"], quant="all data, layouts, containers, pins", why="Tests use one layout per function.",
  files=["neutralocean/lib.py", "neutralocean/surface/isopycnal.py"], mech=[("_process_casts, _contiguous_casts, _process_vert_dim, _process_pin_cast, _xr_in, _xr_out", "neutralocean/lib.py")],
  note="Up to 2 x 3 casts of 2 or 3 levels; real xarray over symbolic arrays' stand-in; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C29", title="Array utilities are exact and leave their inputs alone",
  statement="Indexing with a fill value, summing by group, the divergence of an edge vector, the index of the first NaN along any dimension and reading the value at an index along the last dimension return exactly what their documentation says for any shape, including out of range indices, and do not change their inputs.",
  quant="all data, NaN patterns, indices, groups up to the bound", why="No test calls them directly.",
  files=["neutralocean/lib.py", "neutralocean/grid/tools.py"], mech=[("take_fill, aggsum, find_first_nan, val_at", "neutralocean/lib.py"), ("divergence", "neutralocean/grid/tools.py")], note="Up to 2 x 4 x 2 elements, 4 indices, 4 nodes."),
 dict(id="C30", title="The synthetic ocean has the documented shape, walls, depths and salinity anomaly",
  statement="synthocean returns salinity and temperature of the requested shape with depths increasing from 0 to pbot; casts are missing exactly on the first row of each dimension declared not periodic; the southern surface salinity anomaly raises the surface salinity by SSSSa in the southernmost cells decreasing linearly to 0 in the northernmost, leaves temperature alone, and fades to nothing at the bottom; surface values are oceanic, temperature spanning -1.8 to 30 degrees; the bottom does not vary with longitude and nothing does when zonally uniform; and the geometry returned describes a latitude-longitude grid from 80S to 60N with the cell widths and areas of the sphere.",
  over=["inputs", "configurations"], quant="all shapes up to the bound, walls, bottom depths and anomalies", why="Tests use it as an input with a few shapes and never check it.",
  files=["neutralocean/synthocean.py"], mech=[("synthocean", "neutralocean/synthocean.py")], note="2 or 3 (thorough up to 4 x 5 x 4) points per dimension."),
 dict(id="C31", title="Public functions leave their arguments alone and answer the same when repeated",
  statement="Unless documented to work in place, every public function leaves its array and dict arguments as they were (surfaces, initial pressures, mixed layer, grids, casts), and calling it a second time with the same arguments gives the same result.",
  over=["inputs", "histories"], quant="all data, NaN patterns, containers; two calls in a row", why="Tests call each function once per dataset and look only at the result.",
  files=["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/lib.py", "neutralocean/ntp.py", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/mixed_layer.py", "neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py"],
  mech=[("potential_surf, anomaly_surf", "neutralocean/surface/isopycnal.py"), ("omega_surf", "neutralocean/surface/omega.py"), ("ntp_epsilon_errors", "neutralocean/ntp.py"), ("neutral_trajectory", "neutralocean/traj.py")],
  note="2 casts of 2 levels, casts of 3 levels, grids of up to 2 x 4 cells; stabilize_ST, documented to work in place, is excluded; the root finder is replaced by its contract (C01, C02)."),
 dict(id="C32", title="Every public function uses exactly the equation of state it is asked for",
  statement="Surfaces, trajectories, links, labels, mixed layers and neutrality errors computed with an equation of state given by name, with or without gravity and reference density (then at the hydrostatic pressure of the depth), equal those computed with the equivalent functions given directly, for the density and its derivatives alike; when none is given it is gsw; anything that is no equation of state is refused by every function.",
  over=["inputs", "configurations"], quant="every name, with and without Boussinesq parameters, and all data", why="Tests use one named equation of state per function, never with gravity and reference density, and never compare.",
  files=["neutralocean/lib.py", "neutralocean/eos/tools.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/mixed_layer.py", "neutralocean/ntp.py"],
  mech=[("_process_eos", "neutralocean/lib.py"), ("make_eos, make_eos_s_t", "neutralocean/eos/tools.py")],
  note="1 or 2 casts of 2 or 3 levels; the named equations of state are replaced by simple ones (also in the replay); the root finder is replaced by its contract (C01, C02)."),
]
