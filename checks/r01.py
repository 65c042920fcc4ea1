"""R01: regions have the set semantics of the boolean combination they are built from."""
from itertools import combinations, permutations, product
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc.geom import Arrangement, hull_spec, vertices, val
from mc.polys import spec_from_json, rows_of, mask_of, Space, warp_spec, FAR
from mc.regs import *

ID = "R01"
COVERAGE = (
    "every region tree (polytope, complement, intersection, union, disjoint union; up to three children, and three to eight along cyclic walks; "
    "nesting depth two) over an alphabet of seven planar sets (boxes, triangle, strip, "
    "half-plane, segment, empty set) and thin, huge and distant copies of it: membership on every face of the arrangement, after every map "
    "of a menu of substitutions, scalings, lifts and projections, containment for every ordered pair of "
    "trees of the supported kinds, and every list of up to three half-planes for the union-of-half-planes "
    "constructor.  state = distinct (tree, map) set, transition = one region compared, trace = one tree or pair"
)
ASSUMPTIONS = [
    "containment in a union is decided up to sets without interior, as the library documents",
    "projection of intersections follows the documented assumption (intersection of the projections)",
]

LEAVES = [
    (((0, 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)), ()),      # 0: [0,2]^2
    (((-1, 1, 0), (3, -1, 0), (0, 0, 1), (1, 0, -1)), ()),     # 1: [1,3]x[0,1]
    (((0, 1, 0), (0, 0, 1), (2, -1, -1)), ()),                 # 2: triangle
    (((-1, 1, 0), (2, -1, 0)), ()),                            # 3: strip
    (((0, 1, -1),), ()),                                       # 4: half-plane x >= y
    (((0, 1, 0), (2, -1, 0)), ((0, 1, -1),)),                  # 5: diagonal segment
    (((-3, 1, 0), (1, -1, 0)), ()),                            # 6: empty
]
BOUNDED = [0, 1, 2, 5]
ROWS = [r for l in LEAVES for r in l[0] + l[1]]
A2 = Arrangement(2, ROWS)
M2 = [A2.poly(h, e) for h, e in LEAVES]


# thin, distant and huge copies of the alphabet
LV = [(LEAVES, A2, M2)]
for k in (0, 1):
    ls = [warp_spec(l, k) for l in LEAVES]
    a = Arrangement(2, [r for l in ls for r in l[0] + l[1]], FAR)
    LV.append((ls, a, [a.poly(h, e) for h, e in ls]))


# many children: eight half-planes round an octagon, and six unit boxes
OCT = [(0, 1, 0), (3, -1, 0), (0, 0, 1), (3, 0, -1), (-1, 1, 1), (5, -1, -1), (2, 1, -1), (2, -1, 1)]
CELLS = [((-F(i), 1, 0), (F(i + 1), -1, 0), (-F(j), 0, 1), (F(j + 1), 0, -1)) for j in range(2) for i in range(3)]
LC = [((h,), ()) for h in OCT] + [(c, ()) for c in CELLS]
AC = Arrangement(2, [r for l in LC for r in l[0]])
LV.append((LC, AC, [AC.poly(h, e) for h, e in LC]))
MANY = 3


def many_trees(tier):
    """regions with three to eight children, each of which matters"""
    out = []
    big = tier == "thorough"
    n = lambda c: [["P", i] for i in c]
    for c in windows(8, (3, 4, 5, 6, 8), (1, 3, 5) if big else (1, 3)):
        out.append(["I"] + n(c))
        out.append(["U"] + [["C", t] for t in n(c)])
        out.append(["C", ["I"] + n(c)])
    for c in windows(6, (3, 4, 5, 6), (1, 5) if big else (1,)):
        c = [i + 8 for i in c]
        out.append(["U"] + n(c))
        out.append(["D"] + n(c))
        out.append(["I", ["U"] + n(c), ["P", c[0] - 8], ["P", c[1] - 8], ["C", ["P", c[2]]]])
        out.append(["D", ["U"] + n(c[:2]), ["D"] + n(c[2:])])
    return out


def trees1(ops=("I", "U", "D"), leaves=range(len(LEAVES)), three=True):
    L = [["P", i] for i in leaves]
    out = []
    for op in ops:
        for i in leaves:
            out.append([op, ["P", i]])
        for a, b in product(leaves, repeat=2):
            if a != b:
                out.append([op, ["P", a], ["P", b]])
        if three:
            for c in combinations(leaves, 3):
                out.append([op] + [["P", i] for i in c])
    return L + out


def trees(tier):
    t1 = trees1()
    out = list(t1)
    out += [["C", t] for t in t1]
    small = [0, 1, 2, 4] if tier == "quick" else range(len(LEAVES))
    inner = [t for t in trees1(leaves=small, three=False)]
    for op, t, i in product("IUD", inner, small):
        out.append([op, t, ["P", i]])
        out.append([op, ["P", i], ["C", t]])
    if tier == "thorough":
        for op, a, b in product("IUD", inner, inner):
            if a[0] != "P" and b[0] != "P":
                out.append([op, a, ["C", b]])
    else:
        t3 = trees1(leaves=[0, 1, 4], three=False)
        for op, a, b in product("IUD", t3, t3):
            if a[0] != "P" and b[0] != "P":
                out.append([op, a, b])
    for c in windows(len(LEAVES), (4, 5, 7), (1, 2, 3), rev=tier != "quick"):
        for op in "IUD":
            out.append([op] + [["P", i] for i in c])
            out.append(["C", [op] + [["P", i] for i in c]])
            out.append([op] + [["C", ["P", i]] if i % 2 else ["P", i] for i in c])
    return out


def run_contains(case, ctx):
    t, leaves, A, M = (case, *LV[0]) if isinstance(case[0], str) else (case[1], *LV[case[0]])
    r = make(t, leaves)
    m, w = contains_mask(A, r), tree_mask(t, A, M)
    if m != w:
        raise Bad(f"membership is wrong near [{A.show(m ^ w)}]")
    if not isinstance(repr(r), str) or not repr(r):
        raise Bad("the region cannot be printed")
    Region.to_str(r, use_indentation=False)
    ctx.state(w)
    ctx.step()
    ctx.outcome((w == 0, w == A.all))


def far_trees(tier):
    t1 = trees1(three=tier == "thorough")
    for k in (1, 2):
        for t in t1 + [["C", t] for t in t1]:
            yield [k, t]
    for t in many_trees(tier):
        yield [MANY, t]


def far_sub(tier):
    some = [0, 1, 2, 4, 6] if tier == "quick" else range(len(LEAVES))
    left = trees1(ops=("U",), leaves=some, three=False)
    right = trees1(ops=("I", "U"), leaves=some, three=False) + [["U", ["P", 0], ["P", 1], ["P", 2]]]
    for k in (1, 2):
        for a in left:
            for b in right:
                if tier != "quick" or len(a) == 2 or len(b) == 2 or a[1][1] != 1:
                    yield [a, b, k]
    n = lambda c: [["P", i] for i in c]
    cells = [[i + 8 for i in c] for c in windows(6, (4, 5, 6), (1, 5))]
    left = [["P", 8], ["P", 12]] + [[op] + n(c) for c in cells for op in "UD"] + [["D", ["U"] + n(c[:3]), ["U"] + n(c[3:])] for c in cells[::3]]
    right = [["I"] + n(c) for c in windows(8, (1, 2, 3, 5, 7), (1, 3))] + [["U"] + n(c) for c in cells] + [["I", ["U"] + n(c), ["P", c[0] - 8], ["U"] + n(c[::-1])] for c in cells[::2]]
    if tier == "quick":
        left, right = left[::3], right[::2]
    for a in left:
        for b in right:
            yield [a, b, MANY]


# --------------------------------------------------------------------------- maps
SUBS = [{0: F(1)}, {0: F(5, 2)}, {1: F(1, 2)}, {1: F(0)}]
FACTS = [(1, 1), (2, 1), (1, F(1, 3)), (-1, 2), (F(1, 2), -1)]
LIFTS = [[1, 0], [0, 1, (0, 1)], [(F(1, 2), 2), 1, 0], [1, (0, 0), 0]]
HIGH = [[0, (0, 1), (F(1, 3), 2), (-1, 0), 1], [(0, 1), (-2, F(-1, 2)), 1, (3, 3), 0], [(0, 1), 0, (1, 2), (2, 3), (3, 4), 1]]


def row_sub(r, v):
    keep = [i for i in range(2) if i not in v]
    return tuple([r[0] + sum(r[i + 1] * v[i] for i in v)] + [r[i + 1] for i in keep])


def run_map(case, ctx):
    t, kind, k, alph = (*case, 0)[:4]
    LEAVES, A2, M2 = LV[alph]
    ROWS = [q for i in (range(len(LEAVES)) if alph == 0 else sorted(leaves_of(t))) for q in LEAVES[i][0] + LEAVES[i][1]]
    r = make(t, LEAVES)
    if kind == "sub":
        v = SUBS[k]
        got = r.substitute(dict(v))
        A = Arrangement(1, [row_sub(q, v) for q in ROWS])
        back = lambda p: [v[i] if i in v else p[0] for i in range(2)]
        want = A.of(lambda p: spec_contains(t, LEAVES, back(p)))
    elif kind == "scale":
        f = [F(x) for x in FACTS[k]]
        got = r.scale_all(list(f))
        A = Arrangement(2, [(q[0], q[1] / f[0], q[2] / f[1]) for q in ROWS])
        want = A.of(lambda p: spec_contains(t, LEAVES, (p[0] / f[0], p[1] / f[1])))
    elif kind == "lift":
        var = (LIFTS + HIGH)[k]
        if k >= len(LIFTS):
            ROWS = [q for i in sorted(leaves_of(t)) for q in LEAVES[i][0] + LEAVES[i][1]]
        got = r.lift(list(var))
        n = len(var)
        rows = [[q[0]] + [q[x + 1] if isinstance(x, int) else 0 for x in var] for q in ROWS]
        for i, x in enumerate(var):
            if not isinstance(x, int):
                for b in x:
                    rows.append([-b] + [int(i == j) for j in range(n)])
        A = Arrangement(n, rows)

        def inside(p):
            q = [None, None]
            for i, x in enumerate(var):
                if isinstance(x, int):
                    q[x] = p[i]
                elif not x[0] <= p[i] <= x[1]:
                    return False
            return spec_contains(t, LEAVES, q)
        want = A.of(inside)
    m = contains_mask(A, got)
    if m != want:
        raise Bad(f"image under {kind} {k} is wrong near [{A.show(m ^ want)}]")
    if contains_mask(A2, r) != tree_mask(t, A2, M2):
        raise Bad(f"the region itself changed under {kind}")
    ctx.state((str(t), kind, k))
    ctx.step()
    ctx.outcome((kind, want == 0))


def map_cases(tier):
    base = trees1() + [["C", ["P", i]] for i in range(len(LEAVES))]
    if tier == "quick":
        base = trees1(leaves=[0, 1, 2, 4, 5, 6], three=False) + [["C", ["P", i]] for i in range(7)]
        base = [t for t in base if len(t) < 3 or t[1][1] < t[2][1]]
    base += [["I", ["C", ["P", 0]], ["P", 4]], ["U", ["C", ["P", 4]], ["P", 2]], ["C", ["I", ["P", 0], ["P", 4]]],
             ["C", ["U", ["P", 1], ["P", 2]]], ["U", ["I", ["P", 0], ["P", 4]], ["P", 1]],
             ["I", ["D", ["P", 0], ["P", 1]], ["C", ["P", 2]]]]
    for t in base:
        for kind, menu in (("sub", SUBS), ("scale", FACTS), ("lift", LIFTS)):
            for k in range(len(menu)):
                yield [t, kind, k]
    for t in (["P", 5], ["P", 2], ["C", ["P", 3]], ["U", ["P", 4], ["P", 3]], ["I", ["P", 3], ["P", 4]], ["D", ["P", 5], ["P", 3]]):
        for k in range(2 if tier == "quick" else 3):
            yield [t, "lift", len(LIFTS) + k]
    for t in many_trees(tier)[::2 if tier == "thorough" else 13]:
        for kind, menu in (("sub", SUBS), ("scale", FACTS), ("lift", LIFTS)):
            for k in range(len(menu)):
                yield [t, kind, k, MANY]


# -------------------------------------------------------------------------- project
P3 = [
    (((0, 1, 0, 0), (2, -1, 0, 0), (0, 0, 1, 0), (1, 0, -1, 0), (0, 0, 0, 1), (1, 0, 0, -1)), ()),
    (((0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (2, -1, -1, -1)), ()),
    (((-1, 1, 0, 0), (3, -1, 0, 0), (0, 0, 1, 0), (1, 0, -1, 0)), ((0, 0, 1, -1),)),
    (((-1, 1, 0, 0), (0, -1, 0, 0), (0, 0, 1, 0), (1, 0, -1, 0), (0, 0, 0, 1), (1, 0, 0, -1)), ()),  # empty
    (((F(-1, 2), 1, 0, 0), (5, -1, 0, 0), (1, 0, 1, 0), (F(1, 2), 0, -1, 0), (F(-1, 3), 0, 0, 1), (2, 0, 0, -1)), ()),
    (((1, 1, 0, 0), (3, -1, -1, 0), (1, 0, 1, 0), (1, 0, 0, 1), (F(3, 4), 0, 0, -1)), ()),
]
DIMS = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]]


def proj_cases(tier):
    L = [["P", i] for i in range(4)]
    out = list(L)
    for op in "IUD":
        out += [[op, ["P", i]] for i in range(4)]
        out += [[op, ["P", a], ["P", b]] for a, b in product(range(4), repeat=2) if a != b]
        out += [[op] + [["P", i] for i in c] for c in combinations(range(4), 3)]
    for op1, op2 in product("IUD", repeat=2):
        out.append([op1, [op2, ["P", 0], ["P", 1]], ["P", 2]])
        out.append([op1, ["P", 1], [op2, ["P", 3], ["P", 2]]])
        out.append([op1, ["P", 1], [op2, ["P", 3]]])
        out.append([op1, [op2, ["P", 0]], ["P", 1], ["P", 2]])
    for op in "IUD":
        for c in windows(5, (3, 4, 5), (1, 2)):
            out.append([op] + [["P", (0, 1, 2, 4, 5)[i]] for i in c])
            out.append([op] + [[("U", "I")[i % 2], ["P", (0, 1, 2, 4, 5)[i]]] for i in c] + [["P", 3]])
    for t in out:
        for d in DIMS:
            yield [t, d]


def run_proj(case, ctx):
    t, dims = case
    r = make(t, P3)
    got = r.project(set(dims))
    proj = []
    for h, e in P3:
        vs = vertices(h, e, 3)
        proj.append(hull_spec([tuple(v[i] for i in dims) for v in vs], len(dims)) if vs else None)
    A = Arrangement(len(dims), [q for s in proj if s for q in s[0] + s[1]])
    lm = [A.poly(*s) if s else 0 for s in proj]
    want = tree_mask(t, A, lm)
    if got is None:
        if want:
            raise Bad("a non-empty projection was reported as empty")
    else:
        m = contains_mask(A, got)
        if m != want:
            raise Bad(f"projection onto {dims} is wrong near [{A.show(m ^ want)}]")
    ctx.state((str(t), tuple(dims)))
    ctx.step()
    ctx.outcome((len(dims), want == 0))


# --------------------------------------------------------------------------- subset
def supported_left(t):
    return t[0] == "P" or (t[0] in "UD" and all(supported_left(x) for x in t[1:]))


def sub_cases(tier):
    left = [t for t in trees1(ops=("U", "D"), leaves=[0, 1, 2, 3, 5, 6], three=tier == "thorough")]
    left += [["U", ["D", ["P", 0], ["P", 1]], ["P", 2]]]
    right = trees1(three=True)
    right += [["I", ["U", ["P", 0], ["P", 1]], ["P", 4]], ["I", ["U", ["P", 0], ["P", 3]], ["D", ["P", 1], ["P", 2]]],
              ["I", ["I", ["P", 0], ["P", 3]], ["P", 4]]]
    if tier == "quick":
        left = [t for t in left if len(t) < 3 or t[1][1] == 0 or t[0] == "P" or t[0] == "U"]
    for c in windows(len(LEAVES), (4, 5, 7), (1, 2), rev=False):
        right.append(["U"] + [["P", i] for i in c])
        right.append(["D"] + [["P", i] for i in c])
        if tier != "quick":
            left.append(["U"] + [["P", i] for i in c])
    for a in left:
        for b in right:
            yield [a, b]
        for i in range(len(LEAVES)):
            yield [a, i]


def subset(a, b, k=0):
    """The documented answer, leaf by leaf."""
    if a[0] in "UD":
        return all(subset(x, b, k) for x in a[1:])
    _, A2, M2 = LV[k]
    m = M2[a[1]]
    if isinstance(b, int):
        return m & ~M2[b] == 0
    if b[0] == "P":
        return m & ~M2[b[1]] == 0
    if b[0] == "I":
        return all(subset(a, x, k) for x in b[1:])
    return m & A2.full & ~tree_mask(b, A2, M2) == 0


def run_sub(case, ctx):
    a, b, k = (*case, 0)[:3]
    leaves = LV[k][0]
    ra = make(a, leaves)
    rb = build(leaves[b]) if isinstance(b, int) else make(b, leaves)
    got = ra.is_subset_of(rb)
    want = subset(a, b, k)
    if bool(got) != want:
        raise Bad(f"containment answered {got}, expected {want}")
    ctx.state((str(a), str(b)))
    ctx.step()
    ctx.outcome(want)


# --------------------------------------------------- union of half-planes constructor
BOX = [[0, 1, 0], [2, -1, 0], [0, 0, 1], [2, 0, -1]]
HPS = [(-1, 1, 0), (1, -1, 0), (-1, 0, 1), (2, -1, -1), (-2, 1, 1), (0, 1, -1), (-3, 1, 0), (0, -1, 2), (0, 1, 0)]
SU = Space(2, [tuple(b) for b in BOX] + HPS)


def uh_cases(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for c in permutations(range(len(HPS)), n):
            if n < 3 or tier == "thorough" or c[0] < c[1] or c[1] < c[2]:
                yield list(c)


def run_uh(case, ctx):
    hps = [list(HPS[i]) for i in case]
    box = [list(b) for b in BOX]
    r = Region.from_union_of_halfplanes(hps, box)
    if hps != [list(HPS[i]) for i in case] or box != BOX:
        raise Bad("the arguments were modified")
    ps = pieces(r)
    A, ms = mask_of(SU, ps)
    want = 0
    for i in case:
        want |= A.poly(list(map(tuple, BOX)) + [HPS[i]])
    got = 0
    for m in ms:
        if got & m & A.full:
            raise Bad("the pieces overlap")
        got |= m
    if (got ^ want) & A.full or got & ~want:
        raise Bad(f"the union of half-planes is wrong near [{A.show(got ^ want)}]")
    ctx.state(want)
    ctx.step()
    ctx.outcome((len(ms), want & A.full == 0))


def groups(tier):
    return [
        Group("membership", trees, run_contains),
        Group("maps", map_cases, run_map),
        Group("projection", proj_cases, run_proj),
        Group("containment", sub_cases, run_sub),
        Group("halfplanes", uh_cases, run_uh),
        Group("membership, distorted", far_trees, run_contains),
        Group("containment, distorted", far_sub, run_sub),
    ]
