HEAD = r"""
# Design

teorth/expdb ("ANTEDB") is a single-threaded library: polytope and region algebra, piecewise
functions, a database of theorems of analytic number theory, and algorithms which derive new
exponents from sets of hypotheses.  There are no schedules and no crash points.  What there is
to explore is: the space of *inputs* (constraint systems, functions, hypothesis sets), the space
of *programs* over an algebra (nested operations), the *histories* of objects with caches (hypothesis
sets, polytopes), the *iteration order* of Python sets (hypotheses are hashed by identity, so every
process explores another order), and the *configurations* of the shipped derivations.

## Technique

Every check is bounded exhaustive explicit-state exploration **of the real code** (stateless model
checking: each behaviour is re-executed from scratch on the implementation in /repo, nothing is
abstracted away and so nothing needs to be bound to the code by conformance).  A check consists of

* a finite space of cases enumerated completely in a fixed order (`groups(tier)` of
  `checks/<id>.py`): operands from a small alphabet closed under the interesting coincidences
  (equal, touching, nested, crossing, parallel, degenerate, empty, unbounded, beyond the usual
  range), all subsets/sequences/trees over it up to a depth, all iteration orders of a menu;
* an independent *reference model* which never calls the code under test, in exact rational
  arithmetic: `mc/geom.py` (the arrangement of all hyperplanes of a case: one exact witness point
  per face, so that two sets described by those hyperplanes are equal **iff** they agree on the
  witnesses, which makes a finite comparison decide equality of infinite sets), `mc/polys.py`,
  `mc/regs.py` (set semantics of polytopes and region trees), `mc/ratf.py` (exact rational
  functions), `mc/envel.py` (envelopes), `mc/hyps.py` (exponent pairs, convex hulls, closure under
  transforms, validity of proof trees), `mc/lvs.py` (large value sets as unions of cells and exact
  suprema by enumeration of vertices), `mc/derive.py` (published results);
* the comparison of every transition (operation, query, derivation step) with the reference.

`mc/core.py` runs the cases in 8 worker processes, counts states (distinct results), transitions
(comparisons), traces (executions), turns the first violating cases into a replay file and a
VIOLATION line, applies known_findings.txt, and writes the evidence.  A case which raises inside
/repo, where the reference says an answer exists, is a violation; a case which exceeds its time
limit is a violation of termination.  Nothing is sampled and no solver is asked anything.
Iteration order of hypothesis sets is under control of the explorer (`mc/hyps.control_order`
replaces the identity hash of Hypothesis by a rank chosen per case): the orders explored are part
of the bounds.

The code under test is imported from /repo at run time (`run.sh` sets PYTHONPATH; derived.py, which
runs a derivation when imported, is loaded with its top-level calls removed).  No hooks were needed
in /repo.  Checks use the documented functions and classes and the data attributes of results (data,
interval, region, dependencies, ...), not helpers which a refactoring may rename, and compare values
rather than representation (text is compared only where the text is the result, and then parsed).

Sandbox: the code under test writes no files except matplotlib caches, which go to a scratch
directory removed by `run.sh`.
"""

ORACLE = {
    "G01": ("Boolean combination of membership of the witness of every face of the arrangement of all constraints; emptiness, subset etc. follow from the set of faces", "Quick about 30 s, thorough about 8 min."),
    "G02": ("the union of the cells is convex iff it equals the union of all cells inside the convex hull of its vertices, decided on the arrangement", "Quick about 20 s."),
    "G03": ("images computed by exact substitution; a projected point is in the image iff the fibre, an exact one or two dimensional polytope, is not empty", "Quick about 20 s."),
    "G04": ("vertices by enumeration of all square subsystems, edges by pairs of vertices with enough common tight constraints, hulls by exact orientation tests", "Quick about 20 s."),
    "G05": ("a freshly built polytope with the same constraints, for every history of queries and derivations up to the depth", "Quick about 30 s; the state space is the product of cache states reachable by the menu of operations."),
    "R01": ("the Boolean combination evaluated at one witness per face", "Quick about 40 s."),
    "R02": ("the exact set on every cell of the arrangement, pairwise intersections of the returned pieces by their cells, labels recomputed from which child has the tight constraint", "Quick about 45 s."),
    "F01": ("brackets and end points evaluated at every grid point and midpoint", "Quick about 1 s."),
    "F02": ("pointwise optimum at every end point, crossing point and midpoint (between two consecutive ones every function involved is affine, so that two test points decide equality)", "Quick about 15 s."),
    "F03": ("`mc/ratf.R`: pairs of coefficient lists with Fraction arithmetic; roots by sign changes in exact arithmetic", "Quick about 20 s."),
    "F04": ("pointwise optimum by exact evaluation at points of every cell cut out by end points and refined grid, attribution by value", "Quick about 30 s.  Square roots against functions of degree three and more are excluded: sympy.solve takes minutes on them."),
    "F05": ("pointwise minimum at one witness of every cell of the arrangement of all domains and differences", "Quick about 40 s."),
    "F06": ("coefficient lists with Fraction arithmetic; printed forms are parsed by an independent parser and evaluated", "Quick about 10 s."),
    "H01": ("a model of the set (list of current contents); every query is answered by a fresh set with the same contents and by `mc/hyps` (hull, mu)", "Quick about 60 s; the explored histories are all sequences of the operation menu up to the depth, over original and copies."),
    "H02": ("graph traversal over the dependency graph as built by the case", "Quick about 15 s."),
    "H03": ("the case is generated from the fields, so that the expected entry is known; surnames by the BibTeX rules", "Quick about 10 s."),
    "V01": ("exact membership of grid points, exact evaluation of the bounds; the known hull of D02, the records of D02 and the published energy bounds of D03 for the fixed plots", "Quick about 60 s (the two plots of visualizations.py which evaluate the whole literature take 30 s each)."),
    "E01": ("closure under all words of at most `depth` projective maps, exactly; hull by orientation tests; each derivation step recomputed", "Quick about 40 s."),
    "E02": ("Caratheodory: all triangles, segments and points of given pairs, exactly, with their sizes", "Quick about 40 s."),
    "E03": ("exact closure of the allowed hypotheses (per year), hull membership, replay of each step of the proof tree", "Quick about 50 s."),
    "E04": ("upper concave hull of the pointwise minimum, from its break points; edges to pairs by slope and intercept", "Quick about 20 s."),
    "B01": ("pointwise minimum at every end point, crossing and midpoint", "Quick about 50 s."),
    "M01": ("lower convex hull of everything generated by the functional equation, the pairs within the search depth and trivial bounds", "Quick about 60 s."),
    "L01": ("the conventional box and the maximum of the bounds at every face of their arrangement; printed bounds parsed", "Quick about 20 s."),
    "L02": ("membership formula of each implication (power, mu, beta with its range 1/tau) at one tuple of every cell", "Quick about 45 s."),
    "L03": ("Boolean combination of domain and applicable estimates (powers only outside the zeta mode) at one tuple of every cell", "Quick about 50 s, thorough about 10 min."),
    "Z01": ("`mc/lvs.sup_ratio`: for rational sigma the suprema over tau of min of max of affine functions over tau, exactly, by enumeration of all break points in tau; for energy regions exact linear programs in (1/tau, rho/tau, rho*/tau, s/tau) over every combination of pieces", "Quick about 80 s."),
    "Z02": ("exact pointwise minimum (`mc/ratf`), incl. square roots", "Quick about 50 s."),
    "Z03": ("the range sigma_0(m) and the value of Ivic's theorem and of Bourgain's as transcribed from the chapter, exactly", "Quick about 30 s."),
    "A01": ("Boolean combination of clauses at one tuple of every cell of the exact arrangement in (rho, rho*, s) over rational (sigma, tau); projections by existence of a cell", "Quick about 75 s."),
    "A02": ("exact linear programs over every combination of pieces by vertex enumeration; pointwise minimum for the rest", "Quick about 20 s."),
    "P01": ("supremum by recursive subdivision with exact evaluation of the pointwise best A and B", "Quick about 45 s."),
    "D01": ("an independent transcription of the theorems from the LaTeX chapters (not from literature.py)", "Quick about 80 s."),
    "D02": ("the results as stated in the LaTeX chapters and, for the hull and the mu table, their exact vertices", "Quick about 20 s, thorough several minutes."),
    "D03": ("the results as stated in the chapters; for Bourgain's estimate the minimax as linear program solved by enumeration of its vertices in exact arithmetic", "Quick about 60 s, thorough about 10 min."),
}


def BEYOND(p):
    t = p["why_tests_cant"]
    return t[0].upper() + t[1:]


# bugs of one property caught by the check of another one, or only by thorough
CAUGHT = {}

TAIL = r"""
## Decisions and limits

* **7cf3d2b** (a copied set shares its cached hull) is no longer observable on its own since
  **8848f39** (stale hulls become valid again): both are kept, H01 reports each if both return.
* `beta_bounds_to_exponent_pairs` lists as dependencies only bounds on the boundary of the hull; E04
  requires those and that the dependencies imply the pair.
* "Search depth n" is taken to mean: everything reached by at most n transforms (E01, M01), up to
  convexity where pruning is on.
* Zero density estimates bound A(sigma), not A(sigma)(1 - sigma) (fix 2439333): the two conversions
  of the code disagreed with each other and with the literature entries.
* Pieces without interior are dropped by the library in disjoint unions; L03, A01, R02 therefore
  compare open cells only.
* `Region.project` of an INTERSECT documents an outer bound; R01 checks exactly that.
* `lv_zlv_to_zd` adds the zeta estimates it derives to the set of the caller.  This is visible but
  relied on by the shipped derivations, and no property forbids it.
* `ep_to_lver` is checked for k > 0 only: for k = 0 the theorem is vacuous.
* P01 reads the printed table: `compute_gap2` returns nothing else.
* D01: misprints of the chapters are corrected where the source is evident (1/360 for 1/130,
  alpha/(2(k-1)(k-2)) for 1/(2(k-1)(k-2))); several entries under one label are compared by their
  pointwise minimum; ranges of historical entries which the chapters do not state are taken from the code;
  Bourgain (1995) 2/(7 sigma - 5) is recorded beyond 15/16, where it is still true.
* D03: the maximum in Theorem "imp-energy-bound11" is weaker than the pieces of the table, which the
  derivation attains; the derivations give more than the theorem in two places (12/(4 sigma - 1) below 5/6,
  and prove_zero_density_energy_4 on [664/877, 284/375)).
* Not covered: plotting and `visualizations.py` (no observable semantics besides figures),
  `check_bourgain_large_value_estimate` (a maintenance script for an older form of hypothesis, fails on the
  current one), `apply_huxley_subdivision` (NotImplementedError), `optimize_pintz_zero_density` (an
  experiment whose output is not used).
* A few derivations print rather than return: their printed result is parsed (P01, Guth-Maynard in D03).

## Genuine defects

All defects found on the original tree were repaired by "fix:" commits in /repo, listed with commit and
property in known_findings.txt.  There are no open findings.

## False alarms met while building

* R02: overlapping boundaries are allowed in a disjoint union; only interiors are compared now.
* F04/Z02: values at ends of ranges depend on the half-open convention; interior points are compared.
* A02/Z01: where no positive rho is allowed the code may return any non-positive bound.
* D02: the Heath-Brown pair for m = 20 is beyond the truncation of the database.

## Planted bugs

Kept in /verif/seeded; each was confirmed to build, to pass the stable tests and to fail its demo.
Checks were strengthened after misses (R02 half-plane orders, L02 ranges starting near 0, G03
negative limits, F05 differences of 1e-12, Z02 proof lengths, A02 zeta powers, H03 layouts).
"""
