"""G02: convexity recognition -- the union of polytopes is recognised exactly."""
from itertools import combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.polys import *
from mc.geom import vertices, hull2, hull_spec, cross, solve, val, rank

ID = "G02"
COVERAGE = (
    "every list of 1, 2 or 3 (thorough: 4) bounded full-dimensional polytopes of small families "
    "in dimension 1 to 4 (ordered for pairs), with and without redundant rows, and of thin, huge and distant copies of "
    "them (coordinates scaled by 1e-13 to 4e8, moved by up to 1e10), sets of 4 to 9 cells of a grid, a fan and a cube; reference: the "
    "union is convex iff the hull of its vertices adds no cell of the exact arrangement.  "
    "state = distinct union, transition = one union attempted, trace = one list executed"
)
ASSUMPTIONS = [
    "operands are bounded and full dimensional (the library documents union recognition for finite polytopes only)"
]

B2 = [(0, 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)]
C2 = [(-1, 1, 0), (1, -1, 0), (-1, 0, 1), (1, 0, -1), (2, -1, -1), (-2, 1, 1), (0, 1, -1), (0, -1, 1)]
B3 = [(0, 1, 0, 0), (2, -1, 0, 0), (0, 0, 1, 0), (2, 0, -1, 0), (0, 0, 0, 1), (2, 0, 0, -1)]
C3 = [(-1, 1, 0, 0), (1, -1, 0, 0), (0, 0, -1, 1), (0, 0, 1, -1), (3, -1, -1, -1), (-1, 0, 1, 0)]
B4 = [tuple(v) for i in range(1, 5) for v in ([0] * i + [1] + [0] * (4 - i), [2] + [0] * (i - 1) + [-1] + [0] * (4 - i))]
C4 = [(-1, 1, 0, 0, 0), (1, -1, 0, 0, 0), (0, 0, 1, 0, -1), (0, 0, -1, 0, 1)]
SP = {1: Space(1, H1 + [(3, -1), (-3, 1)]), 2: Space(2, B2 + C2), 3: Space(3, B3 + C3), 4: Space(4, B4 + C4)}
# distorted copies of the families: the dimension is the last digit of the key
for k in (0, 1):
    for d, rows in ((1, H1 + [(3, -1), (-3, 1)]), (2, B2 + C2), (3, B3 + C3)):
        SP[10 * (k + 1) + d] = Space(d, [warp(r, k) for r in rows], M=FAR)


def fam1():
    out = []
    for lo in range(0, 4):
        for hi in range(lo + 1, 5):
            out.append((((-lo, 1), (hi, -1)), ()))
    return out


def fam(dim, box, cuts, k):
    return family_boxed(SP[dim], box, cuts, k)


def family_boxed(space, box, cuts, k):
    out, seen = [], set()
    for n in range(k + 1):
        for c in combinations(cuts, n):
            spec = (tuple(box) + tuple(c), ())
            m = spec_mask(space.base, spec)
            if not (m & space.base.full) or m in seen:
                continue
            seen.add(m)
            out.append(spec)
    return out


_V = {}


def verts_of(spec, dim):
    if spec not in _V:
        _V[spec] = sorted(vertices(spec[0], spec[1], dim))
    return _V[spec]


_H = {}


def hull_rows(pts, dim):
    key = (tuple(pts), dim)
    if key in _H:
        return _H[key]
    if dim == 1:
        xs = [p[0] for p in pts]
        rows = [(-min(xs), F(1)), (max(xs), F(-1))]
    elif dim == 2:
        h = hull2(pts)
        rows = []
        for i in range(len(h)):
            a, b = h[i], h[(i + 1) % len(h)]
            # left of a->b
            n = (-(b[1] - a[1]), b[0] - a[0])
            rows.append((-(n[0] * a[0] + n[1] * a[1]), n[0], n[1]))
    elif dim == 4:
        rows = list(hull_spec(pts, 4)[0])
    else:
        rows = set()
        for a, b, c in combinations(pts, 3):
            u = [b[i] - a[i] for i in range(3)]
            v = [c[i] - a[i] for i in range(3)]
            n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
            if n == (0, 0, 0):
                continue
            row = prim((-(n[0] * a[0] + n[1] * a[1] + n[2] * a[2]),) + n)
            vs = [val(row, p) for p in pts]
            if all(x >= 0 for x in vs):
                rows.add(row)
            elif all(x <= 0 for x in vs):
                rows.add(tuple(-x for x in row))
        rows = sorted(rows)
    _H[key] = rows
    return rows


def check(case, ctx):
    dim, specs, red = case
    specs = [spec_from_json(s) for s in specs]
    sp = SP[dim]
    dim %= 10
    pts = sorted({v for s in specs for v in verts_of(s, dim)})
    hr = hull_rows(pts, dim)
    polys = []
    for s in specs:
        ineqs = list(s[0])
        if red:  # redundant, reordered description
            ineqs = [tuple([ineqs[0][0] + 7] + list(ineqs[0][1:]))] + ineqs[::-1]
        polys.append(Polytope([list(r) for r in ineqs], canonicalize=not red))
    before = [rows_of(p) for p in polys]
    u = Polytope.try_union(polys)
    if [rows_of(p) for p in polys] != before:
        raise Bad(f"union recognition modified its operands {specs}")
    rows = list(hr)
    if u is not None:
        ui, ue = rows_of(u)
        rows += ui + ue
    A = sp.get(rows)
    U = 0
    for s in specs:
        U |= spec_mask(A, s)
    hull = A.poly(hr, ())
    convex = hull & A.full & ~U == 0
    ctx.state((dim, U))
    ctx.step()
    ctx.outcome(convex)
    if u is None:
        if convex:
            raise Bad(f"the union of {specs} is convex but was not recognised")
        return
    if not convex:
        raise Bad(f"the union of {specs} is not convex but a polytope was returned")
    if A.poly(ui, ue) != hull:
        raise Bad(f"the polytope returned for the union of {specs} is a different set")


def spec1(spec):
    return spec


def cases(tier):
    big = tier == "thorough"
    f1 = fam1()
    f2 = fam(2, B2, C2, 3 if big else 2)
    f3 = fam(3, B3, C3, 3 if big else 2)
    for red in (0, 1):
        for dim, f in ((1, f1), (2, f2), (3, f3)):
            for a in f[:5]:
                yield [dim, [a], red]
            for a in f:
                for b in f:
                    yield [dim, [a, b], red]


def triples(tier):
    big = tier == "thorough"
    f1 = fam1()
    f2 = fam(2, B2, C2, 3 if big else 2)
    f3 = fam(3, B3, C3, 2)
    for a in f1:
        for b in f1:
            for c in f1:
                yield [1, [a, b, c], 0]
    # small pieces make the interesting unions
    f2 = sorted(f2, key=lambda s: popcount(spec_mask(SP[2].base, s) & SP[2].base.full))
    f3 = sorted(f3, key=lambda s: popcount(spec_mask(SP[3].base, s) & SP[3].base.full))
    for c in combinations(f2[: 45 if big else 22], 3):
        yield [2, list(c), 0]
    for c in combinations(f3[: 20 if big else 11], 3):
        yield [3, list(c), 0]
    # fans: all orders of three consecutive strips / cells partitioning the box
    for perm in permutations(range(3)):
        strips = [
            (((0, 1, 0), (F(2, 3), -1, 0), (0, 0, 1), (2, 0, -1)), ()),
            (((-F(2, 3), 1, 0), (F(4, 3), -1, 0), (0, 0, 1), (2, 0, -1)), ()),
            (((-F(4, 3), 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)), ()),
        ]
        yield [2, [[[[3 * x for x in r] for r in strips[i][0]], []] for i in perm], 0]
    if big:
        for c in combinations(f2[:16], 4):
            yield [2, list(c), 0]


def distorted(tier):
    """thin, distant and huge copies; four dimensions"""
    big = tier == "thorough"
    f1 = fam1()
    f2 = fam(2, B2, C2, 2)
    f3 = fam(3, B3, C3, 2 if big else 1)
    for k in (0, 1):
        for d, f in ((1, f1), (2, f2 if big else f2[::2]), (3, f3)):
            w = [warp_spec(s, k) for s in f]
            for a in w:
                for b in w:
                    yield [10 * (k + 1) + d, [a, b], k]
        small = sorted(f2, key=lambda s: popcount(spec_mask(SP[2].base, s) & SP[2].base.full))
        for c in combinations(small[:16 if big else 12], 3):
            yield [10 * (k + 1) + 2, [warp_spec(s, k) for s in c], 0]
    f4 = fam(4, B4, C4, 2)
    for a in f4:
        for b in f4:
            yield [4, [a, b], 0]


def quads(tier):
    """Four cells around a point: the quadrants of the box, and L-shapes of them."""
    q = [
        (((0, 1, 0), (1, -1, 0), (0, 0, 1), (1, 0, -1)), ()),
        (((-1, 1, 0), (2, -1, 0), (0, 0, 1), (1, 0, -1)), ()),
        (((0, 1, 0), (1, -1, 0), (-1, 0, 1), (2, 0, -1)), ()),
        (((-1, 1, 0), (2, -1, 0), (-1, 0, 1), (2, 0, -1)), ()),
    ]
    for n in (2, 3, 4):
        for p in permutations(q, n):
            for red in (0, 1):
                yield [2, list(p), red]


GRID = [(-k, 1, 0) for k in range(4)] + [(-k, 0, 1) for k in range(4)] + [(-2, 1, 0), (-1, 0, 1), (0, 1, -1), (2, -1, -1), (3, -1, -1), (-1, 1, -1), (1, 1, -1)]
SP[42] = Space(2, GRID)


def cells(kind):
    if kind == "grid":
        return [(((-i, 1, 0), (i + 1, -1, 0), (-j, 0, 1), (j + 1, 0, -1)), ()) for i in range(3) for j in range(3)]
    if kind == "cubes":
        return [(tuple(r for k, c in enumerate((i, j, l)) for r in ([-c] + [int(k == m) for m in range(3)], [c + 1] + [-int(k == m) for m in range(3)])), ())
                for i in (0, 1) for j in (0, 1) for l in (0, 1)]
    out = []   # eight triangles around (1, 1)
    for a in (1, -1):
        for b in (1, -1):
            for c in (1, -1):
                # a (x - 1) >= 0, b (y - 1) >= 0, c (a (x - 1) - b (y - 1)) >= 0, the outer side
                outer = (1 + a, -a, 0) if c > 0 else (1 + b, 0, -b)
                out.append((((-a, a, 0), (-b, 0, b), (c * (b - a), c * a, -c * b), outer), ()))
    return out


def parts_cases(tier):
    """unions of many cells"""
    big = tier == "thorough"
    n = 0
    for kind, dim, N in (("grid", 42, 9), ("fan", 42, 8), ("cubes", 3, 8)):
        for s in range(1, 2 ** N):
            k = bin(s).count("1")
            if k < 4:
                continue
            n += 1
            # all large ones, connected-looking small ones in turn
            if big or (n % (4 if k < 7 else 2) == 0 if kind != "cubes" else n % 6 == 0) or k >= N - 1:
                yield [kind, dim, s, n // 4 % N]


def check_parts(case, ctx):
    kind, dim, s, o = case
    C = cells(kind)
    order = [(i + o) % len(C) for i in range(len(C))]
    if o % 2:
        order.reverse()
    check([dim, [C[i] for i in order if s >> i & 1], 0], ctx)


def groups(tier):
    return [
        Group("pairs", cases, check),
        Group("triples", triples, check),
        Group("quadrants", quads, check),
        Group("distorted", distorted, check),
        Group("many parts", parts_cases, check_parts),
    ]
