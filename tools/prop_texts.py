# prop(id, title, statement, over, text, why_tests_cant, files, mechanism, state, observe, tech, note, na)
EX = ("bounded exhaustive explicit-state exploration of the real code: every case of a finite space is executed and each "
      "transition is compared with an exact reference model")

prop("G01", "Boolean operations and queries on polytopes mean what they say on point sets",
     "Intersection, difference, complement pieces, emptiness, containment, subset and membership queries on polytopes agree with the "
     "set-theoretic operations on the point sets the constraints describe, for bounded, unbounded, empty and lower dimensional operands, "
     "exactly (no tolerance) and without changing the operands.",
     ["inputs", "programs"],
     "every combination of rational inequality and equality constraints used as operands",
     "the tests try a handful of boxes; the degenerate, unbounded and equality-constrained operand combinations are never executed",
     ["polytope.py"],
     [("intersection, difference, subset, emptiness", "polytope.py:Polytope")],
     observe=["results of the public polytope operations, as point sets"],
     tech=EX + " (point sets over the faces of an exact hyperplane arrangement)",
     note="operand pairs and triples of half-space alphabets in dimension 1-3 with small integer coefficients; exact rational arithmetic on both sides")

prop("G02", "The union of polytopes is recognised exactly",
     "Trying to merge several bounded polytopes gives their union when that union is convex, and reports failure precisely when it is not.",
     ["inputs"], "every list of bounded full-dimensional polytopes, in every order, with or without redundant constraints",
     "the tests merge a few pairs of boxes; one wrongly accepted non-convex union makes every derived region unsound",
     ["polytope.py"], [("union recognition", "polytope.py:Polytope.try_union")],
     tech=EX + " (convexity of the union decided on the cells of the exact arrangement)",
     note="lists of up to 3 (4 in the thorough tier) polytopes of small families in dimension 1-4 and of thin, huge and distant copies")

prop("G03", "Scaling, substitution, lifting and projection of polytopes are exact",
     "Scaling coordinates, fixing coordinates, embedding into more variables and projecting onto coordinates give exactly the image set of the polytope.",
     ["inputs"], "every polytope and every choice of factors, fixed values, coordinate placements and projected coordinates",
     "the tests use one or two maps of one polytope; negative factors, equality constraints and repeated/permuted coordinates are not covered",
     ["polytope.py"], [("scale, substitute, lift, project", "polytope.py:Polytope")],
     tech=EX + " (exact images on the arrangement)",
     note="families in dimension 1-4 with thin, huge and distant copies; projection restricted to bounded non-empty polytopes as documented")

prop("G04", "The vertex view of a polytope agrees with its constraint view",
     "Vertices, edges, centroid and equality of a bounded polytope are those of the set its constraints describe, and a polytope built from points is their convex hull.",
     ["inputs"], "every bounded polytope in any syntactic form and every finite list of points including repeated and collinear ones",
     "tests check a square or a triangle; redundant constraints, repeated or degenerate points are not covered",
     ["polytope.py"], [("vertex representation", "polytope.py:Polytope"), ("construction from points", "polytope.py:Polytope.from_V_rep")],
     tech=EX + " (brute-force vertex enumeration)",
     note="families in dimension 1-4 with thin, huge and distant copies, and all lists of up to 4 (5) grid points")

prop("G05", "A polytope's answers depend on the set it denotes, not on what was asked before",
     "After any sequence of queries and derivations, a polytope and all polytopes it was derived from answer every query as a freshly built polytope with the same point set would.",
     ["histories"], "every sequence of queries and derivations on an object",
     "the objects cache vertices, canonical form and emptiness lazily; tests never interleave queries and derivations",
     ["polytope.py"], [("lazy caches", "polytope.py:Polytope")],
     state=[("lazily computed representations", "vertices, canonical form and emptiness stored on first use")],
     tech=EX + " (all operation sequences up to a depth)",
     note="sequences of at most 3 (4) operations over a menu, 2-dimensional seeds")

prop("R01", "Regions have the set semantics of the combination they are built from",
     "A region built from polytopes by complement, intersection, union and disjoint union contains exactly the points that combination describes, and scaling, lifting, substitution, projection, containment tests and printing respect this.",
     ["inputs", "programs"], "every nested combination of polytopes and every supported map of it",
     "tests look at two or three fixed regions; every node kind must be combined with every map",
     ["region.py", "polytope.py"], [("region tree", "region.py:Region")],
     tech=EX + " (membership of every arrangement face in every region tree)",
     note="trees with up to three children and nesting depth two over seven planar sets; thin, huge and distant copies of them")

prop("R02", "Rewriting a region as a disjoint union keeps the set and tracks boundaries",
     "A region rewritten as a disjoint union of polytopes is the same set up to boundaries, its pieces do not overlap, and simplifying a union never changes the set; with tracking on, the labels of every piece name the children whose constraints bound it.",
     ["inputs", "programs"], "every nested intersection/union of bounded polytopes, with and without label tracking, of any size",
     "tests rewrite one region; the periodic simplification only starts with many pieces and labels are never checked",
     ["region.py", "polytope.py"], [("disjoint union rewriting", "region.py:Region.as_disjoint_union"), ("simplification", "region.py:Region.simplify")],
     tech=EX + " (all region trees over an alphabet; cells of the exact arrangement)",
     note="intersections of up to 3 (4) children in the plane and space, simplification of up to four polytopes, large inputs that trigger the periodic simplification")

prop("F01", "Intervals behave as sets of reals",
     "Membership, emptiness, length, midpoint, intersection, equality and text round trips of intervals agree with the set of reals the brackets and end points describe.",
     ["inputs"], "every pair and chain of intervals with any brackets and end points",
     "tests check a few intervals; the empty, singleton and touching cases with each bracket are many",
     ["functions.py"], [("interval algebra", "functions.py:Interval")],
     tech=EX, note="all intervals on a rational grid with all bracket combinations; all ordered pairs, chains of three")

prop("F02", "The min/max of affine bounds is the pointwise optimum with the right source",
     "The piecewise minimum or maximum of affine functions on intervals equals the pointwise optimum everywhere on the domain where some function is defined, its pieces do not overlap, and every piece keeps the label of the function it came from.",
     ["inputs", "histories"], "every sequence of affine functions combined one after another, with any domains",
     "tests check two crossing lines; partial overlaps, gaps, equal functions and chains are not sampled",
     ["functions.py"], [("envelope of affine functions", "functions.py:Affine")],
     tech=EX, note="up to three (four) functions over a small set of slopes, intercepts and domains, and distorted copies of it")

prop("F03", "Rational functions compute exactly",
     "Sums, differences, products, quotients, equality, parsing, evaluation, extrema, roots and crossings of rational functions agree with exact rational arithmetic.",
     ["inputs"], "every pair of rational functions, numbers and pole-free intervals",
     "tests evaluate a few expressions; constants, cancellation, number operands and interval end points are not sampled",
     ["functions.py"], [("rational function arithmetic", "functions.py:RationalFunction")],
     tech=EX, note="all pairs of a family of 16 functions; extrema/roots on every pole-free interval of a menu; irrational critical points compared numerically to 30 digits")

prop("F04", "The envelope of rational bounds is the pointwise optimum with attribution",
     "The piecewise minimum or maximum of rational functions given on intervals equals the pointwise optimum, the pieces partition the requested domain, and each piece names an input function attaining it.",
     ["inputs"], "every ordered list of rational functions on intervals",
     "one test with fixed functions; touching, equal, nested and adjacent inputs and all orders are not covered",
     ["functions.py"], [("envelope of rational functions", "functions.py:RationalFunction.min")],
     tech=EX, note="ordered lists of up to three functions of a family; pole-free intervals, open and closed")

prop("F05", "Planar piecewise affine functions: minimum, cropping and simplification",
     "The minimum of planar piecewise affine functions is the pointwise minimum on the common domain with the winner's label, cropping restricts the domain and nothing else, and simplification changes neither values nor domain.",
     ["inputs", "histories"], "every pair and chain of piecewise affine functions over any polygonal partitions",
     "tests compare plots of one example; the cells, ties and label propagation are not checked",
     ["functions.py", "polytope.py"], [("planar minimum, crop, simplify", "functions.py:Piecewise")],
     tech=EX + " (a witness of every cell of the arrangement of all boundaries and crossing lines)",
     note="six partitions and five affine pieces; bounded domains; boundaries between pieces not compared")

prop("F06", "Polynomials form a ring, and printed forms denote the value",
     "Polynomial sums, products, quotients and normal forms agree with exact polynomial arithmetic and printing a polynomial or quotient denotes that value.",
     ["inputs"], "every polynomial, pair of polynomials and quotient",
     "one fixed example; zero and unit coefficients, signs and degree drops are not sampled",
     ["polynomial.py", "functions.py"], [("polynomial arithmetic", "polynomial.py:Polynomial")],
     tech=EX, note="degree at most 3 (4) over small coefficient sets")

prop("H01", "A hypothesis set answers from what it contains, not from its history",
     "After any sequence of additions, copies and queries, every question put to a hypothesis set (hull of exponent pairs, best bound on mu, proof of a pair or bound) is answered from the hypotheses it contains at that moment, and copies are independent of the original.",
     ["histories"], "every sequence of additions, copies and queries",
     "answers are cached inside the set; tests never ask, add, and ask again, nor use copies side by side",
     ["hypotheses.py", "exponent_pair.py", "bound_mu.py"], [("cached derived data", "hypotheses.py:Hypothesis_Set")],
     state=[("cached hulls", "hulls stored with the set and declared stale by additions")],
     observe=["answers of the public queries on a Hypothesis_Set"],
     tech=EX + " (all operation sequences up to a depth, caches observed through the answers)",
     note="sequences of at most 4 (5) operations over 13 kinds of operations")

prop("H02", "Selecting hypotheses, proof size and proof date follow the dependency graph",
     "Listing and searching a hypothesis set by type, content, keyword and year returns exactly the matching hypotheses; the dependencies, complexity and date of a proof are those of its dependency graph; adding accepts single hypotheses, lists and sets and keeps every distinct one exactly once.",
     ["inputs", "histories"], "every hypothesis set, dependency graph and assignment of references",
     "tests look up one or two hypotheses; classical, derived, conjectural and undated references each behave differently",
     ["hypotheses.py", "reference.py"], [("listing, searching", "hypotheses.py:Hypothesis_Set"), ("proof complexity, date, dependencies", "hypotheses.py:Hypothesis")],
     tech=EX, note="sets of up to 3 over 3 types x 9 dates; all dependency graphs on up to 4 (5) hypotheses")

prop("H03", "A bibliography file is read as it is written",
     "Every entry of a BibTeX file is available under its label with the entry type, authors' surnames, year and title written in the file, and look-ups by author or year return exactly the matching references.",
     ["inputs"], "every well-formed bibliography",
     "tests read one fixed bibliography; quoted, bare and nested-brace fields and missing fields never occur",
     ["reference.py"], [("BibTeX parsing", "reference.py:Reference_Manager")],
     tech=EX, note="files of one or two entries over a grammar of spellings, plus the repository's own bibliography")

prop("E01", "Transforms generate every exponent pair they imply, each with its derivation",
     "Expanding a set of exponent pairs by the transforms to a given depth returns every pair obtained by at most that many transforms (up to convexity when pruning), nothing else, and every returned pair records a derivation from the given hypotheses.",
     ["inputs"], "every set of starting pairs, transforms, search depth and pruning mode",
     "tests expand one set; collinear starting pairs, the iteration order of sets and each depth change what is visited",
     ["exponent_pair.py", "transform.py"], [("expansion by transforms", "exponent_pair.py:compute_exp_pairs")],
     tech=EX + " (all transform words up to the search depth)",
     note="up to three of 8 starting pairs, A/B/C transforms, depth at most 4 (6)")

prop("E02", "A convexity proof of an exponent pair is found exactly when there is one",
     "A proof of an exponent pair is returned exactly when the pair is a convex combination of the known pairs; it cites pairs whose convex hull contains the target, as few as asked for, and the cheapest such triangle when proof size is minimised.",
     ["inputs"], "every set of exponent pairs, target and search mode",
     "tests prove one pair; degenerate triangles, points on edges or outside and ties are never requested",
     ["exponent_pair.py"], [("proof search in the hull", "exponent_pair.py:construct_proof")],
     tech=EX, note="sets of up to 4 (5) of 9 points, about 40 targets, four assignments of proof sizes, two iteration orders")

prop("E03", "The best proof of an exponent pair is complete, sound and dated correctly",
     "Searching a set of hypotheses for the best proof of an exponent pair finds a proof whenever the pair follows from the hypotheses within the search depth; the proof rests only on given hypotheses through valid steps, and the proof by date uses nothing newer than necessary.",
     ["inputs"], "every hypothesis set, target pair and optimisation method",
     "tests search for one pair in the literature; undated, conjectural and beta-derived hypotheses are not combined",
     ["exponent_pair.py", "constants.py"], [("best proof", "exponent_pair.py:find_best_proof")],
     tech=EX, note="sets of up to 4 (6) of 10 hypotheses, 6 targets, three methods")

prop("E04", "Bounds on beta and exponent pairs imply each other exactly",
     "Exponent pairs obtained from bounds on beta are valid for the best bound the given ones imply on [0,1/2] (with none obtained if part of it is not covered) and include every edge of its concave hull; exponent pairs yield precisely the corresponding affine bounds on beta, and each result cites what it rests on.",
     ["inputs"], "every set of bounds on beta and every set of exponent pairs",
     "tests convert one set; gaps, overlaps, concave corners and pairs already known are not covered",
     ["exponent_pair.py", "bound_beta.py"],
     [("beta to pairs", "exponent_pair.py:beta_bounds_to_exponent_pairs"), ("pairs to beta", "bound_beta.py:exponent_pairs_to_beta_bounds")],
     tech=EX, note="sets of up to 3 (4) of 11 lines on sub-intervals; sets of up to 3 pairs")

prop("B01", "The best bound on beta is the pointwise minimum, with its sources",
     "The best bound on beta computed from a set of bounds equals their pointwise minimum on the requested domain, its pieces do not overlap, each piece is or cites a given bound that equals it there, and the given bounds are unchanged.",
     ["inputs"], "every set of affine bounds on intervals and every order of processing",
     "tests combine two bounds; gaps, touching end points, singleton domains and order of processing are not sampled",
     ["bound_beta.py", "functions.py"], [("best bound on beta", "bound_beta.py:compute_best_beta_bounds")],
     tech=EX, note="sets of up to 4 (6) bounds, all (three) processing orders, three domains")

prop("M01", "The best bound on mu is the convex hull of everything the hypotheses imply",
     "The best bound on the growth exponent mu at any sigma, and the piecewise bound on any interval, equal the lower convex hull of the bounds the hypotheses imply through exponent pairs, the functional equation and convexity; a bound is proved exactly when it is implied, with a valid derivation.",
     ["inputs"], "every set of mu bounds, exponent pairs and transforms, every sigma and interval",
     "tests ask for a few values on the literature; few bounds, reflected bounds and sigma beyond the critical strip are not covered",
     ["bound_mu.py"], [("best bound and proof", "bound_mu.py:best_mu_bound"), ("piecewise bound", "bound_mu.py:best_mu_bound_piecewise")],
     tech=EX, note="sets of up to 4 (6) of 11 hypotheses, 19 values, 7 intervals, two iteration orders")

prop("L01", "A large value estimate means exactly the bound it states",
     "The region of a large value estimate contains (sigma, tau, rho) of the conventional box exactly when rho is at most the largest of the stated affine bounds; the printed bound says the same; and raising an estimate to the power k turns (sigma, tau, rho) into (sigma, k tau, k rho) exactly, citing the original and leaving it unchanged.",
     ["inputs", "programs"], "every list of affine bounds, every constructor of large value estimates and every chain of powers",
     "the tests construct a single estimate; parallel, equal, redundant, negative and constant bounds and repeated powers are not covered",
     ["large_values.py", "zeta_large_values.py"],
     [("estimate from bounds", "large_values.py:Large_Value_Estimate"), ("raise to power", "large_values.py:raise_to_power_hypothesis"),
      ("zeta estimates", "zeta_large_values.py")],
     tech=EX + " (a tuple on every face of the arrangement of all bounds and box sides)",
     note="ordered lists of up to 3 (4) out of 11 affine bounds, chains of up to two of three powers")

prop("L02", "Zeta large value estimates follow from the other hypotheses, no more, no less",
     "The zeta large value estimates derived from large value estimates, from bounds on beta and from bounds on mu allow exactly the tuples (sigma, tau, rho) those hypotheses allow, and each one cites the hypotheses which it rests on.",
     ["inputs"], "every set of large value estimates, bounds on beta and bounds on mu",
     "the tests derive one estimate from the literature; gaps in beta, slopes, bounds beyond 1/2 and several sources together are not covered",
     ["zeta_large_values.py"],
     [("from large values", "zeta_large_values.py:lv_to_zlv"), ("from beta", "zeta_large_values.py:beta_to_zlv"), ("from mu", "zeta_large_values.py:mu_to_zlv")],
     tech=EX + " (a tuple in every cell of the arrangement of all bounds)",
     note="sets of up to 2 (3) large value estimates, 3 mu bounds, 3 (4) beta bounds; boundaries of the curved regions not compared")

prop("L03", "The large value region of a hypothesis set is the intersection of its estimates",
     "The large value region computed on a domain, in the large value or the zeta mode, allows a tuple (sigma, tau, rho) exactly when the domain and every applicable estimate (and allowed power of one) allow it, and the dependencies it cites imply the region on their own.",
     ["inputs"], "every set of large value estimates, allowed powers and domain",
     "tests combine the literature on a single box; slanted or disconnected domains, powers and the zeta mode interact",
     ["large_values.py"], [("best large value region", "large_values.py:compute_large_value_region")],
     tech=EX + " (a tuple in every cell of the arrangement of all bounds)",
     note="sets of up to 3 (4) of 5 estimates with every set of powers, up to 2 zeta estimates, 4 (6) domains; boundaries between cells not compared")

prop("Z01", "Zero density bounds derived from large values are exactly what the theorem gives",
     "The zero density estimate derived from large value and zeta large value estimates, or from large value energy regions, equals, at every sigma, the larger of sup LV/tau and sup LV_zeta/tau over the ranges of tau of the theorem, divided by 1 - sigma, and every piece cites regions which rest only on given hypotheses.",
     ["inputs"], "every set of large value hypotheses, every interval of sigma and every threshold tau_0 (constant or affine in sigma)",
     "tests check published end results for a few choices; the piecewise suprema between their break points and the choice of sources are not examined",
     ["zero_density_estimate.py", "large_values.py", "zeta_large_values.py", "additive_energy.py"],
     [("from large values", "zero_density_estimate.py:lv_zlv_to_zd"), ("with affine threshold", "zero_density_estimate.py:lv_zlv_to_zd2"), ("from energy regions", "zero_density_estimate.py:lver_to_zd")],
     tech=EX + " (five rational points in every interval cut out by all bounds, thresholds and returned pieces)",
     note="sets of up to 2 (3) of 5 estimates with powers, zeta, mu and beta hypotheses; 3 (5) intervals, 3 constant and 5 affine thresholds; sets of up to 2 (3) energy regions and lifted large value estimates with powers and zeta regions")

prop("Z02", "The best zero density estimate is the smallest given one, with its source",
     "At every sigma covered by some estimate the best zero density estimate has exactly the smallest given value, exactly one piece covers the point, and that piece names, cites and depends on what a given estimate attaining the minimum does.",
     ["inputs"], "every set of zero density estimates, in any form and order",
     "tests compare with a few published values; ties, touching ranges, poles, crossings and gaps are not sampled",
     ["zero_density_estimate.py", "functions.py"], [("best estimate", "zero_density_estimate.py:best_zero_density_estimate"), ("estimates", "zero_density_estimate.py:Zero_Density_Estimate")],
     tech=EX, note="sets of up to 3 (4) of 17 rational functions on ranges, three forms, two iteration orders; ends of ranges not compared")

prop("Z03", "Zero density estimates from exponent pairs are those of Ivic and Bourgain",
     "The zero density estimates derived from exponent pairs hold on exactly the range and with exactly the value of the theorems of Ivic and of Bourgain for the given pairs and parameter, and the optimised estimates reproduce the published table.",
     ["inputs"], "every set of exponent pairs and every parameter m",
     "tests check one value; which of several pairs is best depends on m and on every pair at once",
     ["zero_density_estimate.py"], [("Ivic", "zero_density_estimate.py:ivic_ep_to_zd"), ("Bourgain", "zero_density_estimate.py:bourgain_ep_to_zd"), ("derivation", "zero_density_estimate.py:ep_to_zd")],
     tech=EX, note="sets and orders of up to 3 (4) of 9 pairs, m from 2 to 9 (20)")

prop("A01", "Large value energy regions are built, combined and projected exactly",
     "The energy region of an exponent pair, of a lifted large value estimate and of a power contain exactly the tuples (sigma, tau, rho, rho*, s) their definition allows; the best region of a hypothesis set is the intersection of all applicable regions over the domain; its projections to large values and to additive energy contain a point exactly when some tuple projects to it.",
     ["inputs"], "every set of energy regions, large value estimates, allowed powers and domain of (sigma, tau)",
     "tests never evaluate a five-dimensional region; powers, lifts, the zeta mode, unions and projections interact",
     ["additive_energy.py"], [("best region", "additive_energy.py:compute_best_lver"), ("exponent pair to region", "additive_energy.py:ep_to_lver"), ("projections", "additive_energy.py:lver_to_energy")],
     tech=EX + " (a tuple of every cell of the arrangement of all constraints over a grid of (sigma, tau))",
     note="sets of up to 2 (3) of 5 regions and 2 lifted estimates with powers, 3 (4) domains, 5 (9) values of (sigma, tau); boundaries between cells not compared")

prop("A02", "Bounds on the additive energy of zeros follow exactly from their sources",
     "The bound on A*(sigma) derived from energy regions equals the larger of sup LV*/tau over [tau_0, 2 tau_0] and sup LV*_zeta/tau over [2, tau_0], divided by 1 - sigma; zero density estimates give three times their bound, with 3/(1 - sigma); the best energy bound is the smallest given one at every sigma, with its source.",
     ["inputs"], "every set of energy regions, threshold tau_0, set of zero density and energy estimates",
     "tests do not call these functions; suprema between break points, ties, gaps and missing sources are unexamined",
     ["zero_density_energy_estimate.py"], [("from energy regions", "zero_density_energy_estimate.py:lver_to_energy_bound"), ("best bound", "zero_density_energy_estimate.py:compute_best_energy_bound"), ("trivial bounds", "zero_density_energy_estimate.py:add_trivial_zero_density_energy_estimates")],
     tech=EX + " (every combination of pieces by exact linear programs)",
     note="sets of up to 2 (3) of 5 regions with powers, 5 thresholds, a grid of sigma; sets of up to 3 (4) of 15 estimates")

prop("P01", "The prime gap exponent is the supremum the theorem asks for",
     "For every set of zero density and additive energy estimates the reported intervals partition [1/2, 1], and the number reported on each is the supremum over the interval of the larger of alpha(sigma) and beta(sigma) computed from the pointwise best bounds A and B, where A(sigma) is replaced by the admissible larger bound B(sigma)/3 when that is larger (which minimises the larger of alpha and beta), including one-sided limits at the ends.",
     ["inputs"], "every set of zero density and energy estimates which cover [1/2, 1)",
     "no test calls it; missing stationary points or ends with poles lowers the exponent, i.e. claims a false theorem, on particular combinations only",
     ["prime_gap.py", "zero_density_estimate.py", "zero_density_energy_estimate.py"], [("prime gaps", "prime_gap.py:compute_gap2")],
     tech=EX, note="sets of up to 2 (3) of 7 zero density estimates with up to 2 (3) of 7 energy estimates or the trivial ones, four ways to write them; suprema compared to 1e-6")

prop("D01", "The literature database records what the cited theorems state",
     "Every bound on beta and mu, exponent pair, exponent pair transform, large value estimate, energy region, zero density and energy estimate of the literature database states on its whole range exactly what the cited theorem states (no better, no worse, no wider), under that citation and year, and listing results up to a year returns exactly those published by then.",
     ["inputs"], "every argument (alpha, sigma, (sigma, tau, rho), (sigma, tau, rho, rho*, s), exponent pair) of every recorded theorem and family member",
     "tests look at a handful of recorded values; a wrong coefficient, sign or end of range in one of some 450 entries changes derived exponents only where that entry is the best one",
     ["literature.py", "reference.py", "hypotheses.py"], [("database", "literature.py:literature"), ("transforms", "literature.py:D_transform_function")],
     tech=EX + " (interior points of every cell cut out by recorded and published constraints)",
     note="every recorded theorem against an independent transcription of the blueprint; infinite families up to the truncation constants; ranges of a few historical entries which the blueprint does not state are taken from the code")

prop("D02", "The shipped derivations prove the published exponent pairs and zero densities",
     "Every derivation of exponent pairs, mu bounds and zero density estimates in derived.py, run on the literature database in whatever order its entries are iterated, proves exactly the published result on exactly the published range, with a non-circular proof made of the transforms and sources it names; asking for the proof to be printed does not change it.",
     ["inputs", "configurations"], "every shipped derivation, member of its family and iteration order of the hypothesis set",
     "tests run two or three derivations in one order and print others; a lost cell, a wider range or a dependence on set order shows only in the rest",
     ["derived.py", "zero_density_estimate.py", "exponent_pair.py", "bound_mu.py", "literature.py"], [("derivations", "derived.py:prove_zero_density_ingham_1940"), ("van der Corput pairs", "derived.py:van_der_corput_pair"), ("Bourgain's densities", "zero_density_estimate.py:bourgain_ep_to_zd")],
     tech=EX, note="20 derivations, van der Corput pairs up to k = 12 (40), 2 (4) iteration orders, search depth 3 (2 to 5); compute_best_zero_density only in the thorough tier")

prop("D03", "The shipped derivations prove the published energy and large value theorems",
     "Every derivation of additive energy estimates and of large value theorems in derived.py proves the published bound on the published range (or a better one where that is known) and claims nothing outside it, in whatever order the database is iterated; Bourgain's optimised large value estimate, recorded and recomputed, is at every (sigma, tau) the minimum over its two parameters of the maximum of its six terms.",
     ["inputs", "configurations"], "every shipped derivation, every (sigma, tau) of the optimised estimate and iteration order of the hypothesis set",
     "no test runs them; some crashed before this work; a wrong piece is a false theorem on a small range of sigma",
     ["derived.py", "zero_density_energy_estimate.py", "additive_energy.py", "large_values.py", "literature.py"], [("energy derivations", "derived.py:prove_zero_density_energy_2"), ("optimised Bourgain estimate", "large_values.py:optimize_bourgain_large_value_estimate"), ("Guth-Maynard theorem", "derived.py:prove_guth_maynard_large_values_theorem")],
     tech=EX + " (exact linear programs by vertex enumeration on a lattice of (sigma, tau))",
     note="11 derivations in 1 (3) iteration orders, 12 x 36 (48 x 120) lattice; the prime gap derivation only in the thorough tier")

prop("V01", "The plots and tables show the set, function or bound they are asked to show",
     "What is drawn is the truth: plotting a polygon, a plane region or the domains of a piecewise function marks exactly the points of the chosen grid which belong to it, under the right label; the plots of bounds on beta, of zero density estimates (also of a derivation) and of the additive energy draw at every abscissa the best of the bounds they are labelled with, together with what the literature has; the van der Corput and conjectured curves are the stated functions; every exponent pair drawn is a known one, with its B transform; displaying a result does not change it.",
     ["inputs"], "every polygon, region, piecewise function, list of bounds, window and resolution, and every abscissa of the fixed plots",
     "no test draws anything; a figure with a missing region, a stale curve or a wrong label is what readers of the project copy into papers",
     ["visualizations.py", "polytope.py", "region.py", "functions.py", "bound_beta.py", "zero_density_estimate.py", "derived.py", "examples.py"],
     [("plots of the survey", "visualizations.py:zero_density_plot"), ("polygons", "polytope.py:Polytope.plot"), ("regions", "region.py:Region.plot2d"), ("domains", "functions.py:Piecewise.plot_domain"),
      ("bounds on beta", "bound_beta.py:display_beta_bounds"), ("best zero density estimate", "zero_density_estimate.py:best_zero_density_estimate")],
     observe=["the curves, points and patches on the matplotlib figure", "printed tables"],
     tech=EX + " (every drawn and every undrawn grid point against exact membership)",
     note="polygons from a square and up to 2 of 12 lines, region trees of depth 2 over 4 sets, windows and resolutions from a menu; zero density estimates: sets of up to 2 (3) of 9")
