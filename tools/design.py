"""Writes DESIGN.md from the text below, the job lists and the seeded changes (python3 tools/design.py)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from proptable import NOT_APPLICABLE, PROPS

HEAD = '''# Solver-based checking of neutralocean

(Written by tools/design.py from its own text, nv/props/*.py and seeded/.)

## How every check works

`bash check.sh <ID> quick|thorough` runs `nv.main`:

1. `nv/loader.py` reads the current source of `/repo/neutralocean/**/*.py` and executes it with stand-ins for numpy,
   numba, functools, scipy, xgcm and time: `@njit` bodies run as Python, arrays hold symbolic numbers (`nv/nparr.py`),
   numbers are Z3 terms over the reals with a separate NaN flag (`nv/sym.py`), `np.empty` gives fresh unknowns,
   `float32` storage rounds by an unknown within half an ulp. Nothing is kept between runs; no source text is compared.
2. A harness (`nv/props/`) builds symbolic inputs, calls the real (public, wherever there is one) function and states
   the property as obligations. Every branch on a symbolic condition forks; Z3 decides which sides are feasible
   (depth-first re-execution, complete within the stated bounds). At the end of each path Z3 decides whether an
   obligation can fail under the path condition.
3. A satisfying assignment is replayed by running the same harness on the real numba-jitted package with those numbers
   (`nv/replay.py`, bounds checking on). Only what fails there is a VIOLATION (exit 1). A counterexample that does
   not reproduce is listed in the evidence (`counterexamples_not_reproduced`) and is no alarm: it reflects the
   real-number idealisation or a stand-in.
4. Reachability twins: for some path ends of every harness a model of the path condition (kept away from branch
   boundaries where possible) is replayed on the real code; it must run and satisfy every obligation there. This
   validates the encoding against the implementation. A harness none of whose path ends is satisfiable is reported
   as VACUOUS (in the output and in the evidence); there is none on the unchanged tree.

Equation-of-state properties (C08, C09) use exact normal forms instead of forking (`nv/poly.py`): the code is executed
over polynomials and rational functions in (root of salinity, t, p); code minus specification is decided to be within a
relative tolerance on the whole oceanographic box by Z3 (linear arithmetic over monomial ranges, with box splitting).

Assume/guarantee: properties of code that calls the root finder (C16-C20, C23, C24, C28) replace `brent`,
`guess_to_bounds` and `brent_guess` by their contract (`nv/props/_contract.py`: a zero of f in the range if the ends
have opposite signs; NaN where there provably is none), which C01 and C02 establish; code that solves sparse systems
(C18-C20) gets an exact linear solve (`nv/spshim.py`). Every replay uses the real ones.

Exits: 0 held on everything explored (what was not decided is printed as NOT-DECIDED and listed in the evidence);
1 violation; 2 nothing could be decided.

Outside every claim: floating-point rounding (numbers are reals), performance, printing, sizes beyond the bounds listed
below, and the correctness of numpy, numba, scipy, xarray and xgcm themselves.
Tolerances: an equality that fails only by less than a small margin (default 1e-6 relative) is not a violation;
comparisons with tolerances chosen by the user are kept a margin (1e-3) away from a tie in the C20 harnesses.

Why this reaches what tests cannot: the tests run a handful of fixed oceans and compare norms or a few numbers with a
reference implementation. Here every NaN pattern, every choice of pinning cast, graph, option and history within the
bounds is a symbolic variable, and so are the data, so a change that only matters for an unusual combination
(a cast with one bottle next to the pinning cast, a wetting schedule of one iteration, a second request with another
equation of state) is found by the solver rather than by luck.

Refactorings: the checks were run on two sets of behaviour-preserving rewrites of 60 functions (helpers extracted and
inlined, loops turned into numpy calls and back, conditions inverted, private functions renamed or given other
arguments) and stay quiet on them. Two private functions are used directly by C28 (`_process_casts`,
`_process_pin_cast`, which every public entry point goes through); where these do not exist with these arguments, the
harness is skipped, not failed.

## Not claimed

* Plotting and reading files (`examples/`): no promise of the package is involved.
* `stabilize_ST` works in place as documented; excluded from C31.
* `pin_cast` dicts on a decreasing coordinate (`searchsorted` needs increasing ones; the documentation does not say).
* `find_first_nan` documents two different results for a profile without NaN; claimed is what its callers use.
* A NaN mixed-layer depth, and a pinning bottle inside the mixed layer: undocumented, excluded by assumption.
* Perimeter wetting started from an initial surface in several pieces, and the order in which equally near casts are
  added: depends on the order of neighbours, only what C16 states is claimed.
* `potential_surf` with a pinning pressure outside its pinning cast, `neutral_trajectory` with p0 outside the first
  cast, `count_unstable` with `interp_two`: no sensible result documented.

## Findings

Every genuine defect found was repaired with a "fix:" commit; they are listed in known_findings.txt ("fixed:"
entries, which suppress nothing). No finding is left open.

False alarms corrected on the way: C20 compared ties between a tolerance and a quantity known only up to rounding
(margins added); C01's first statement asked for the better end among all evaluated points (Brent's method keeps the
better of the last two); C19 and C18 first called private functions with fixed signatures (now through omega_surf);
C17 with PCHIP had the solver pick depths where the interpolant is flat (the obligation is now on density, not depth);
a first version of C20's stopping rule assumed a margin around TOL_LRPD_MAV = 1e-7 that no converged surface
satisfies, which made most of its harnesses vacuous (found by a missed seeded change; hence the VACUOUS report).

'''

WHY = dict(
    C01="Oracle: f is an unknown function (fresh real per distinct argument, same value for the same argument), so the obligations (range, bracket, end returned, evaluated points only) hold for every f; the interior evaluations are unrolled to the stated number, after which the path is cut, except for `guess`, where f is a line and the search runs to its end. Cost 40 s.",
    C02="Oracle: as C01; the search has at most 2*ceil(log(50)/log(sqrt 2)) evaluations, fully unrolled. Cost 25 s.",
    C03="Oracle: the first maximal non-NaN block computed from the NaN flags. Cost 60 s.",
    C04="Oracle: the secant line through the enclosing knots. Cost 15 s.",
    C05="Oracle: an independent PCHIP written from Fritsch and Butland (1984) in nv/props; shape (monotonicity, C1) as separate obligations. Nonlinear arithmetic in the knots is avoided by fixed, uneven knots from 4 points on. Cost 45 s.",
    C06="Oracle: the routes themselves, one against the other, over one symbolic data set. Cost 30 s.",
    C07="Oracle: the derivative of the polynomial, coefficient by coefficient. Cost 4 s.",
    C08="Oracle: the published coefficients, transcribed independently in nv/props/_eos*.py. Cost 20 s.",
    C09="Oracle: symbolic differentiation of the code's own function in normal form. Cost 30 s.",
    C10="Oracle: composition of the plain function with the hydrostatic pressure; the history job keeps the loaded modules over two or three requests to see caches. Cost 10 s.",
    C11="Oracle: the set of (pair, distance) by arithmetic on the indices. Sizes enumerated by forking, distances symbolic. Cost 3 s.",
    C12="Oracle: as C11, with the fold. Cost 3 s.",
    C13="Oracle: as C11, with the links of the tiles; xgcm is replaced by a stand-in of its padding (checked by replay with the real one). Cost 5 s.",
    C14="Oracle: sums over the edge list. The edges are symbolic integers. Cost 12 s.",
    C15="Oracle: distances by repeated relaxation over the symbolic wet mask. Cost 25 s.",
    C16="Oracle: density c + x*P of casts linear in depth, so the neutral link is known in closed form. Cost 90 s.",
    C17="Oracle: the equation f(p) = isovalue on the interpolated cast, monotone casts for existence. Cost 45 s.",
    C18="Oracle: density difference referenced to the previous depth equals the least squares correction of two or three casts. Through omega_surf with one iteration. Cost 45 s.",
    C19="Oracle: the normal equations of the weighted least squares problem, solved exactly over the rationals/symbols, pin at zero. Through omega_surf with one iteration. Cost 50 s.",
    C20="Oracle: a model of the whole driver (class Model in _omega2.py) on casts linear in depth: component, wetting, update, stop rule, diagnostics. The model follows the documentation, not the code. Cost 240 s.",
    C21="Oracle: the formula. Cost 5 s.",
    C22="Oracle: the formula with symbolic weights and NaN pattern. Cost 40 s.",
    C23="Oracle: the equation between potential densities at the mean pressure. Cost 30 s.",
    C24="Oracle: C23's equation link by link. Cost 80 s.",
    C25="Oracle: closed-form integral of linear integrands; error bound of the trapezoidal rule for curved ones. Cost 55 s.",
    C26="Oracle: first crossing of the threshold by the linear interpolant of density differences. Cost 15 s.",
    C27="Oracle: counts by definition; for stabilize_ST the exact solution of the quadratic programme for casts of two bottles, feasibility and optimality (against any feasible alternative) for three. Cost 12 s.",
    C28="Oracle: the same call in the canonical layout. Cost 15 s.",
    C29="Oracle: element by element from the documentation. Cost 5 s.",
    C30="Oracle: the documentation of each argument; the geometry of a sphere. The trigonometric functions of the numerical grid are evaluated, the depth and the anomaly are symbolic. Cost 4 s.",
    C32="Oracle: the same call with the functions themselves. Exact equations of state would make every branch a high-degree polynomial, so the named modules' functions are replaced by simple ones on both sides; where the factory does not see the replacement the harness is undecided, not failed. Cost 60 s.",
    C31="Oracle: a copy of the arguments taken before the first call, and the result of the first call, compared element by element after the second. Cost 70 s.",
)


def main():
    out = [HEAD, "## Properties\n\nStatements in properties.jsonl. Per property: what decides it, against what, and the harnesses with their bounds\n(quick tier; a number in parentheses is the thorough tier's). `*` marks harnesses with the root-finder contract.\n"]
    na = {x["property"]: x["reason"] for x in NOT_APPLICABLE}
    for p in PROPS:
        i = p["id"]
        out.append(f"\n### {i} {p['title']}\n")
        if i in na:
            out.append(f"Not applicable: {na[i]}\n")
            continue
        out.append(WHY.get(i, "") + " " + p["note"] + "\n")
        m = importlib.import_module(f"nv.props.{i.lower()}")
        js = m.JOBS("quick")
        extra = [j.name for j in m.JOBS("thorough") if j.name not in {x.name for x in js}]
        fs = sorted({f for j in js for f in j.funcs})
        out.append("Encoded: " + ", ".join(f"`{f}`" for f in fs) + ".\n")
        for j in js:
            out.append(f"* `{j.name}`{'*' if j.stubs else ''}: {j.bounds}")
        if extra:
            out.append(f"* thorough only: {', '.join(f'`{x}`' for x in extra)}")
        for a in sorted({x for j in js for x in j.assumes} | set(getattr(m, "ASSUMES", []))):
            out.append(f"\nAssumed: {a}.")
    out.append("\n## Seeded changes\n\nEach is caught by the check of its property (exit 1 with its VIOLATION line) unless it says otherwise.\n")
    sd = os.path.join(HERE, "seeded")
    missed = json.load(open(os.path.join(HERE, "tools", "missed.json"))) if os.path.exists(os.path.join(HERE, "tools", "missed.json")) else {}
    for s in sorted(os.listdir(sd)):
        d = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append(f"* `{s}` ({d['property']}): {d['what_it_breaks']}. Needs {d['needs']}." + (f" NOT CAUGHT: {missed[s]}." if s in missed else ""))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
