"""G04: the vertex view of a polytope (vertices, edges, centroid, equality, separating planes,
construction from points) agrees with its constraint view."""
from itertools import combinations, product, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, fr
from mc.polys import *
from mc.geom import Arrangement, vertices, hull_spec, val, true_edges, rank, on_segment
from polytope import Hyperplane

ID = "G04"
COVERAGE = (
    "every bounded non-empty polytope of small families in dimension 1, 2, 3, some in dimension 4, and thin, huge and distant copies of them, in several "
    "syntactic forms (canonical, redundant, queried before) and every list of at most 4 (thorough 5) "
    "grid points; vertices, edges, centroid, equality and plane tests compared with brute-force "
    "exact geometry.  state = distinct polytope, transition = one query compared, trace = one "
    "polytope or point list executed"
)
ASSUMPTIONS = ["bounded polytopes, as the library documents for vertex based operations"]
from checks.g03 import bounded, fam4, SP, BOX1, BOX2, BOX3

PLANES = {
    1: [(-1, 1), (0, 1), (F(-1, 2), 1), (-3, 1)],
    2: [(0, 1, 0), (-1, 1, 0), (-1, 0, 1), (0, 1, -1), (-2, 1, 1), (F(-1, 2), 1, 0), (-5, 1, 1), (-3, 2, 1), (0, -1, -1)],
    3: [(0, 1, 0, 0), (-1, 1, 0, 0), (0, 1, -1, 0), (-3, 1, 1, 1), (F(-1, 2), 0, 0, 1), (-6, 1, 1, 1), (-2, 1, 1, 0)],
}


PLANES[4] = [(-1, 1, 0, 0, 0), (-1, 0, 1, 1, 0), (-5, 1, 1, 1, 1), (-8, 1, 1, 1, 1), (0, 1, -1, 0, 0)]
for k in (0, 1):
    for d in (1, 2, 3):
        PLANES[10 * (k + 1) + d] = [warp(r, k) for r in PLANES[d]]


def forms(spec):
    """The same polytope described / prepared in different ways."""
    ineqs, eqs = spec

    def canon():
        p = build(spec)
        p.canonicalize()
        return p

    def redundant():
        extra = [tuple([r[0] + 1] + list(r[1:])) for r in ineqs[:2]]
        return build((tuple(extra) + tuple(reversed(ineqs)) + (tuple(2 * x for x in ineqs[0]),), eqs))

    def queried():
        p = build(spec)
        p.is_full_dim()
        p.get_vertices()
        p.is_empty()
        p.is_empty(include_boundary=False)
        return p

    def full_first():
        # the answer about dimension canonicalises before anything else was asked
        p = redundant()
        p.is_full_dim()
        return p

    def edges_first():
        p = redundant()
        p.get_edges()
        return p

    return {
        "plain": lambda: build(spec),
        "canonical": canon,
        "redundant": redundant,
        "queried": queried,
        "fulldim-first": full_first,
        "edges-first": edges_first,
    }


def pts(vs):
    return [tuple(fr(x) for x in v) for v in vs]


def in_relative_interior(spec, p):
    """p satisfies every inequality strictly unless the inequality is an implicit equality."""
    vs = vertices(spec[0], spec[1], len(p))
    if any(val(r, p) != 0 for r in spec[1]):
        return False
    for r in spec[0]:
        if all(val(r, v) == 0 for v in vs):
            if val(r, p) != 0:
                return False
        elif val(r, p) <= 0:
            return False
    return True


def check_vertices(p, spec, dim, vs, what, ctx):
    got = pts(p.get_vertices())
    if set(got) != set(vs):
        raise Bad(f"{what}: vertices {sorted(set(got) ^ set(vs))} differ")
    if len(got) != len(set(got)):
        raise Bad(f"{what}: a vertex is listed twice")
    ctx.step()


def run_poly(case, ctx):
    key, s = case
    dim = key % 10      # the dimension is the last digit
    spec = spec_from_json(s)
    vs, edges = true_edges(spec[0], spec[1], dim)
    ctx.state((dim, tuple(vs)))
    ctx.outcome((dim, len(vs), len(edges)))
    for name, mk in forms(spec).items():
        what = f"{name} form of {spec}"
        check_vertices(mk(), spec, dim, vs, what, ctx)
        # edges
        p = mk()
        got = set()
        for a, b in p.get_edges():
            a, b = tuple(map(fr, a)), tuple(map(fr, b))
            got.add((min(a, b), max(a, b)))
        if got != edges:
            raise Bad(f"{what}: edges differ, missing {edges - got}, extra {got - edges}")
        ctx.step()
        # ... and the vertices asked for afterwards still agree
        check_vertices(p, spec, dim, vs, what + " after edges", ctx)
        # centroid
        p = mk()
        c = tuple(fr(x) for x in p.get_centroid())
        if not in_relative_interior(spec, c):
            raise Bad(f"{what}: the centroid {c} is not inside")
        if c != tuple(sum(v[i] for v in vs) / len(vs) for i in range(dim)):
            raise Bad(f"{what}: {c} is not the mean of the vertices")
        ctx.step()
        # planes
        for h in PLANES[key]:
            for sgn in (1, -1):
                hh = [sgn * x for x in h]
                signs = {(val(hh, v) > 0) - (val(hh, v) < 0) for v in vs}
                want = 1 in signs and -1 in signs
                if bool(mk().intersects(Hyperplane(hh))) != want:
                    raise Bad(f"{what}: does it cross {hh}? expected {want}")
                ctx.step()
        for v in vs:
            for h in PLANES[key]:
                if Hyperplane(list(h)).contains(list(v)) != (val(h, v) == 0):
                    raise Bad(f"plane {h} contains {v}?")
        ctx.step()
        # round trip through the vertices
        q = Polytope.from_V_rep([list(v) for v in mk().get_vertices()])
        qi, qe = rows_of(q)
        A = Arrangement(dim, list(spec[0]) + list(spec[1]) + qi + qe, reach(spec[0], spec[1], qi, qe))
        if A.poly(qi, qe) != A.poly(*spec):
            raise Bad(f"{what}: rebuilding it from its vertices gives another set")
        if not (q == mk()) or not (mk() == q):
            raise Bad(f"{what}: not equal to the polytope rebuilt from its vertices")
        ctx.step()


def run_equal(case, ctx):
    dim, a, b = case
    dim %= 10
    sa, sb = spec_from_json(a), spec_from_json(b)
    va, vb = (set(vertices(s[0], s[1], dim)) for s in (sa, sb))
    want = va == vb
    for fa in ("plain", "redundant"):
        p, q = forms(sa)[fa](), forms(sb)["canonical"]()
        if bool(p == q) != want:
            raise Bad(f"equality of {sa} and {sb} should be {want}")
        ctx.step()
    ctx.state((dim, tuple(sorted(va)), tuple(sorted(vb))))
    ctx.outcome(want)


def run_points(case, ctx):
    key, points = case
    dim = key % 10
    points = [tuple(F(x) for x in p) for p in points]
    spec = hull_spec(points, dim)
    vs, edges = true_edges(spec[0], spec[1], dim)
    q = Polytope.from_V_rep([list(p) for p in points])
    qi, qe = rows_of(q)
    A = Arrangement(dim, list(spec[0]) + list(spec[1]) + qi + qe, reach(spec[0], spec[1], qi, qe))
    want = A.poly(*spec)
    if A.poly(qi, qe) != want:
        raise Bad(f"the polytope through {points} is a different set")
    for i, pt in enumerate(A.points):
        if bool(q.contains(list(pt))) != bool(want >> i & 1):
            raise Bad(f"does the hull of {points} contain {pt}?")
    ctx.step(1 + len(A.points))
    if bool(q.is_empty()) or bool(q.is_empty(include_boundary=False)) != (want & A.full == 0):
        raise Bad(f"emptiness of the hull of {points} is wrong")
    fresh = lambda: Polytope.from_V_rep([list(p) for p in points])
    # derived queries
    if not (fresh() == build(spec)) or not (build(spec) == fresh()):
        raise Bad(f"the hull of {points} is not equal to the same set given by constraints")
    got = {tuple(sorted((tuple(map(fr, a)), tuple(map(fr, b))))) for a, b in fresh().get_edges()}
    if got != edges:
        raise Bad(f"the hull of {points} has the wrong edges: {got ^ edges}")
    c = tuple(fr(x) for x in fresh().get_centroid())
    if not in_relative_interior(spec, c):
        raise Bad(f"the centroid {c} of the hull of {points} is not inside")
    for h in PLANES[key]:
        signs = {(val(h, v) > 0) - (val(h, v) < 0) for v in vs}
        if bool(fresh().intersects(Hyperplane(list(h)))) != (1 in signs and -1 in signs):
            raise Bad(f"does {h} cross the hull of {points}?")
    ctx.step(4)
    # cut by a half-space and compare
    cut = tuple([0, 1] + [0] * (dim - 1)) if dim == 1 else tuple([-1, 1] + [1] * (dim - 1))
    if key > 10:
        cut = warp(cut, key // 10 - 1)
    r = fresh().intersect(Polytope([list(cut)]))
    ri, re_ = rows_of(r)
    B = Arrangement(dim, list(spec[0]) + list(spec[1]) + ri + re_ + [cut], reach(spec[0], spec[1], ri, re_, [cut]))
    if B.poly(ri, re_) != B.poly(spec[0] + (cut,), spec[1]):
        raise Bad(f"cutting the hull of {points} by {cut} is wrong")
    ctx.step()
    ctx.state((dim, tuple(vs)))
    ctx.outcome((dim, len(vs), len(edges)))


def polys(tier):
    for dim, f in bounded(tier).items():
        for s in f:
            yield [dim, s]


def equal(tier):
    for dim, f in bounded(tier).items():
        g = f if dim < 3 else f[:14]
        for a, b in product(g, g):
            yield [dim, a, b]


def pointlists(tier):
    big = tier == "thorough"
    for n in range(1, 5):
        for c in product(range(3), repeat=n):
            yield [1, [[x] for x in c]]
    grid = [(x, y) for x in range(3) for y in range(3)] if big else [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (1, 2), (2, 2)]
    for n in range(1, 4 if not big else 5):
        for c in product(grid, repeat=n):
            yield [2, [list(p) for p in c]]
    for n in range(4, 6 if not big else 7):
        for c in combinations(grid, n):
            yield [2, [list(p) for p in c]]
            yield [2, [list(p) for p in reversed(c)]]
    cube = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 1, 0), (2, 0, 0)]
    for n in range(1, 6 if not big else 8):
        for c in combinations(cube, n):
            yield [3, [list(p) for p in c]]


def distorted(tier):
    """thin, distant and huge copies; four dimensions"""
    big = tier == "thorough"
    fs = bounded(tier)
    for k in (0, 1):
        for d, step in ((1, 1), (2, 1 if big else 2), (3, 1 if big else 5)):
            for s in fs[d][k::step]:
                yield [10 * (k + 1) + d, warp_spec(s, k)]
    for s in fam4(tier):
        yield [4, s]


def distorted_points(tier):
    big = tier == "thorough"
    for k in (0, 1):
        for d, c in pointlists(tier):
            if big or sum(map(sum, c)) % (1 if d == 1 else 7) == 0:
                yield [10 * (k + 1) + d, [warp_pt(p, k) for p in c]]
    cube = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1), (2, 0, 0, 0)]
    for n in range(1, 7 if not big else 8):
        for c in combinations(cube, n):
            if n < 3 or big or sum(map(sum, c)) % 3 == 0:
                yield [4, [list(p) for p in c]]


def distorted_equal(tier):
    """pairs which differ by less than any tolerance, or only far away"""
    fs = bounded(tier)
    for k in (0, 1):
        for d, n in ((1, 99), (2, 12), (3, 7)):
            f = [warp_spec(s, k) for s in fs[d][:n]]
            for a, b in product(f, f):
                yield [10 * (k + 1) + d, a, b]
    f = fam4(tier)[:8]
    for a, b in product(f, f):
        yield [4, a, b]


def groups(tier):
    return [
        Group("polytopes", polys, run_poly),
        Group("equality", equal, run_equal),
        Group("point lists", pointlists, run_points),
        Group("polytopes, distorted", distorted, run_poly),
        Group("equality, distorted", distorted_equal, run_equal),
        Group("point lists, distorted", distorted_points, run_points),
    ]
