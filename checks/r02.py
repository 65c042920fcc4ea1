"""R02: a region rewritten as a disjoint union of polytopes is the same set, its pieces do not
overlap, and their labels account for every boundary; simplification never changes the set."""
from itertools import combinations, permutations, product, combinations_with_replacement
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc.geom import Arrangement, prim, plane, val, det, rank
from mc.polys import rows_of, mask_of, Space, build, warp
from mc import polys
from mc.regs import *

ID = "R02"
COVERAGE = (
    "every intersection of up to three (thorough: four; and four to seven along cyclic walks) children drawn from an alphabet of disjoint "
    "unions of bounded polytopes in the plane and in space and thin, huge and distant copies of it, nested intersections/disjoint unions, disjoint unions with unbounded parts (alone and cut to a window), and "
    "large inputs that reach the periodic simplification; with and without label tracking; every ordered choice of up to "
    "three (four) half planes made into a region by the union of half planes constructor; plus every "
    "union of up to four polytopes (and of 5 to 11 along cyclic walks) of an alphabet through the simplifier.  The result is compared with "
    "the exact set on every cell of the arrangement.  state = distinct result set, transition = one piece "
    "or set compared, trace = one region rewritten"
)
ASSUMPTIONS = [
    "bounded polytopes: the convexity recognition the library uses is documented for those",
    "children of a disjoint union are interior-disjoint, as its constructor requires; boundaries are ignored",
]


def box2(a, b, c, d):
    return ((-a, 1, 0), (b, -1, 0), (-c, 0, 1), (d, 0, -1))


def box3(a, b, c, d, e, f):
    return ((-a, 1, 0, 0), (b, -1, 0, 0), (-c, 0, 1, 0), (d, 0, -1, 0), (-e, 0, 0, 1), (f, 0, 0, -1))


# Every entry is a list of interior-disjoint bounded polytopes (rows of inequalities)
U2 = [
    [box2(0, 3, 0, 3)],
    [box2(0, 2, 0, 2)],
    [box2(1, 3, 1, 3)],
    [((0, 1, 0), (0, 0, 1), (3, -1, -1))],
    [box2(0, 1, 0, 3), box2(1, 3, 0, 3)],
    [box2(0, 1, 0, 3), box2(2, 3, 0, 3)],
    [box2(0, 3, 0, 1), box2(0, 3, 2, 3)],
    [box2(0, 3, 0, 1), box2(0, 2, 1, 3)],
    [box2(0, 3, 0, 3) + ((0, 1, -1),), box2(0, 3, 0, 3) + ((0, -1, 1), (-2, 0, 1))],
    [box2(0, 3, 0, 3) + ((-4, 1, 1),), box2(0, 3, 0, 3) + ((2, -1, -1),)],
    [box2(0, 1, 0, 3), box2(1, 2, 0, 1), box2(2, 3, 0, 2)],
    [box2(0, 1, 0, 1), box2(1, 2, 1, 2), box2(2, 3, 2, 3)],
    [box2(4, 5, 4, 5)],
    [box2(0, 1, 0, 1), box2(0, 1, 1, 3), box2(1, 3, 0, 1), box2(1, 3, 1, 3)],
    [tuple(list(box2(F(k, 2), F(k + 1, 2), 0, 3))) for k in range(6)],
]
U3 = [
    [box3(0, 2, 0, 2, 0, 2)],
    [((0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (2, -1, -1, -1))],
    [box3(0, 1, 0, 2, 0, 2), box3(1, 2, 0, 1, 0, 2)],
    [box3(0, 2, 0, 2, 0, 2) + ((0, 1, -1, 0),), box3(0, 2, 0, 2, 0, 2) + ((0, -1, 1, 0), (-1, 0, 0, 1))],
    [box3(0, 2, 0, 1, 0, 2), box3(0, 2, 1, 2, 0, 1)],
    [box3(0, 2, 0, 2, 0, 2) + ((-3, 1, 1, 1),)],
    [box3(0, 1, 0, 1, 0, 2), box3(0, 1, 1, 2, 0, 2), box3(1, 2, 0, 2, 1, 2)],
    [box3(0, 2, 0, 2, 0, 1) + ((1, -1, 0, 1),), box3(0, 2, 0, 2, 1, 2) + ((0, 0, -1, 1),)],
]
S2 = Space(2, [r for u in U2 for p in u for r in p])
S3 = Space(3, [r for u in U3 for p in u for r in p])


# thin, distant and huge copies: the dimension is the last digit of the key
ALPHA = {2: (U2, S2), 3: (U3, S3)}
for k in (0, 1):
    for d in (2, 3):
        us = [[tuple(warp(r, k) for r in p) for p in u] for u in ALPHA[d][0]]
        ALPHA[10 * (k + 1) + d] = (us, Space(d, [r for u in us for p in u for r in p], M=polys.FAR))


def make_child(u, k):
    ps = []
    for j, rows in enumerate(u):
        r = Region.from_polytope(Polytope([list(x) for x in rows]))
        r.set_label((k, j))
        ps.append(r)
    return ps[0] if len(ps) == 1 else Region.disjoint_union(ps)


def umask(A, u):
    m = 0
    for rows in u:
        m |= A.poly(rows)
    return m


def check_pieces(space, result, want_of, labels, tracked, ctx, leaf_masks=None):
    ps = pieces(result)
    A, ms = mask_of(space, ps)
    want = want_of(A)
    got = 0
    for p, m in zip(ps, ms):
        if got & m & A.full:
            raise Bad(f"two pieces overlap near [{A.show(got & m & A.full)}]")
        got |= m
        if m & ~want:
            raise Bad(f"a piece leaves the region near [{A.show(m & ~want)}]")
        ctx.step()
    if (got ^ want) & A.full:
        raise Bad(f"the pieces do not cover the region near [{A.show((got ^ want) & A.full)}]")
    if tracked:
        for p, m in zip(ps, ms):
            check_labels(A, p, m, labels)
    ctx.state((A.dim, want if A is space.base else str(want)))
    ctx.outcome((len(ps), tracked))
    return ps


def check_labels(A, p, m, labels):
    """labels: {label: (child, rows)} of every input polytope."""
    deps = getattr(p, "dependencies", None)
    if deps is None:
        raise Bad("a piece carries no labels although they were asked for")
    deps = set(deps)
    if not deps:
        raise Bad("a piece has an empty label set")
    if not deps <= set(labels):
        raise Bad(f"a piece carries labels {deps - set(labels)} nobody set")
    if m & A.full == 0:
        return
    # every boundary of the piece is a boundary of a polytope it names
    planes = {plane(r) for l in deps for r in labels[l][1]}
    ineq, eq = rows_of(p)
    for r in ineq:
        on = A.mask(r, "==") & m
        pts = [A.points[i] for i in range(A.n) if on >> i & 1]
        if not pts:
            continue
        p0 = pts[0]
        rk = rank([[a - b for a, b in zip(q, p0)] for q in pts[1:]]) if len(pts) > 1 else 0
        if rk == A.dim - 1 and plane(r) not in planes:
            raise Bad(f"the boundary {r} of a piece comes from no polytope it is labelled with ({sorted(deps)})")
    # per child, the named polytopes contain the piece
    for k in {labels[l][0] for l in deps}:
        u = 0
        for l in deps:
            if labels[l][0] == k:
                u |= A.poly(labels[l][1])
        if m & A.full & ~u:
            raise Bad(f"a piece leaves the polytopes of child {k} it is labelled with")


def run_inter(case, ctx):
    dim, idx, tracked = case
    U, space = ALPHA[dim]
    kids = [make_child(U[i], k) for k, i in enumerate(idx)]
    labels = {(k, j): (k, rows) for k, i in enumerate(idx) for j, rows in enumerate(U[i])}
    reg = Region.intersect(kids)

    def want(A):
        m = A.all
        for i in idx:
            m &= umask(A, U[i])
        return m

    before = snapshot(reg)
    res = reg.as_disjoint_union(track_dependencies=tracked)
    check_pieces(space, res, want, labels, tracked, ctx)
    if snapshot(reg) != before:
        raise Bad("the region itself was modified")


def snapshot(reg):
    if reg.region_type == Region_Type.POLYTOPE:
        return (sorted(map(str, rows_of(reg.child)[0])), sorted(map(str, rows_of(reg.child)[1])),
                getattr(reg.child, "label", None), getattr(reg.child, "dependencies", None))
    return (reg.region_type, [snapshot(c) for c in reg.child])


def inter_cases(tier):
    big = tier == "thorough"
    for dim, U in ((2, U2), (3, U3)):
        n = range(len(U))
        for tracked in (False, True):
            for i in n:
                yield [dim, [i], tracked]
            for c in product(n, repeat=2):
                yield [dim, list(c), tracked]
            if big:
                for c in product(n, repeat=3):
                    yield [dim, list(c), tracked]
                for c in combinations(n, 4):
                    yield [dim, list(c), tracked]
            else:
                for c in combinations(n, 3):
                    yield [dim, list(c) if tracked else list(reversed(c)), tracked]


def long_cases(tier):
    q = tier == "quick"
    for dim, U in ((2, U2), (3, U3)):
        for n, c in enumerate(windows(len(U), (4, 5, 7), (1, 2, 4, 7) if dim == 2 else (1, 3), None if not q or dim == 2 else range(0, 8, 3), rev=not q)):
            yield [dim, c, bool(n % 3)]


def far_cases(tier):
    for key in (12, 22, 13, 23):
        n = range(len(ALPHA[key][0]))
        for c in product(n, repeat=2):
            if tier == "thorough" or key % 10 == 2 and c[0] <= c[1] or sum(c) % 3 == 0:
                yield [key, list(c), bool(sum(c) % 2)]
        for i, c in enumerate(combinations(n, 3)):
            if tier == "thorough" or i % (4 if key % 10 == 2 else 9) == 0:
                yield [key, list(c), bool(i % 3)]


# Nested shapes over child indices:  tree leaves are indices into U2
NEST = ["IID", "DII", "IDI", "DDI"]


def nest_cases(tier):
    # disjoint supports so that disjoint unions are legitimate
    A = [1, 3, 11]          # inside x,y <= 3
    for a, b, c in product(range(len(U2)), [1, 3, 7, 8, 10], [2, 5, 9, 13]):
        for shape in (0, 1, 2):
            for tracked in ((True,) if tier == "quick" else (False, True)):
                yield [shape, a, b, c, tracked]


FAR = [box2(4, 5, 4, 6), box2(5, 6, 4, 5)]
SN = Space(2, [r for u in U2 for p in u for r in p] + [r for p in FAR for r in p])


def run_nest(case, ctx):
    shape, a, b, c, tracked = case
    us = [U2[a], U2[b], U2[c]]
    kids = [make_child(u, k) for k, u in enumerate(us)]
    labels = {(k, j): (k, rows) for k, u in enumerate(us) for j, rows in enumerate(u)}
    far = make_child(FAR, 3)
    labels.update({(3, j): (3, rows) for j, rows in enumerate(FAR)})
    if shape == 0:    # D(I(a, b), far)
        if a == 12:
            return
        reg = Region.disjoint_union([Region.intersect(kids[:2]), far])
        want = lambda A: (umask(A, us[0]) & umask(A, us[1])) | umask(A, FAR)
    elif shape == 1:  # I(I(a, b), c)
        reg = Region.intersect([Region.intersect(kids[:2]), kids[2]])
        want = lambda A: umask(A, us[0]) & umask(A, us[1]) & umask(A, us[2])
    else:             # I(a, D(I(b, c), far))
        reg = Region.intersect([kids[0], Region.disjoint_union([Region.intersect(kids[1:]), far])])
        want = lambda A: umask(A, us[0]) & ((umask(A, us[1]) & umask(A, us[2])) | umask(A, FAR))
    res = reg.as_disjoint_union(track_dependencies=tracked)
    # containment per child is only meaningful along one branch: relabel by leaf
    if tracked:
        labels = {l: (l if shape != 1 else k, rows) for l, (k, rows) in labels.items()}
        ps = pieces(res)
        A, ms = mask_of(SN, ps)
        for p, m in zip(ps, ms):
            if not getattr(p, "dependencies", None):
                raise Bad("a piece carries no labels although they were asked for")
    check_pieces(SN, res, want, labels, tracked and shape == 1, ctx)


# ------------------------------------------------------- unbounded parts of the plane
SLABS = [((0, -1, 0),), ((0, 1, 0), (1, -1, 0), (0, 0, 1)), ((0, 1, 0), (1, -1, 0), (0, 0, -1)), ((-1, 1, 0), (3, -1, 0)), ((-3, 1, 0),)]
CLIP = [None, [box2(-2, 5, -2, 2)], [box2(F(-1, 2), F(1, 2), -1, 1), box2(2, 4, -1, 3)]]
SB = Space(2, [r for p in SLABS for r in p] + [r for u in CLIP if u for p in u for r in p])
SHAPES = [lambda k: k, lambda k: [k[:2]] + k[2:], lambda k: [k[0], k[1:]], lambda k: [k[:1], k[1:3]] + k[3:], lambda k: [[k[:1] + [k[1:]]]]]


def slab_cases(tier):
    for n in range(2, 6):
        for i, c in enumerate(permutations(range(5), n)):
            if n > 3 and tier == "quick" and i % 4:
                continue
            for sh in range(len(SHAPES)):
                for clip in range(len(CLIP)):
                    if clip == 0 or tier == "thorough" or (i + sh) % 3 == 0:
                        yield [list(c), sh, clip, bool((i + sh + clip) % 2)]


def run_slab(case, ctx):
    """a disjoint union with unbounded parts, on its own and cut down to a bounded window"""
    idx, sh, clip, tracked = case
    labels = {}

    def tree(t):
        if isinstance(t, int):
            r = Region.from_polytope(Polytope([list(x) for x in SLABS[t]]))
            r.set_label((0, t))
            labels[(0, t)] = (0, SLABS[t])
            return r
        return Region.disjoint_union([tree(x) for x in t])
    reg = tree(SHAPES[sh](idx))
    if CLIP[clip]:
        reg = Region.intersect([reg, make_child(CLIP[clip], 1)])
        labels.update({(1, j): (1, rows) for j, rows in enumerate(CLIP[clip])})

    def want(A):
        m = umask(A, [SLABS[i] for i in idx])
        return m & umask(A, CLIP[clip]) if CLIP[clip] else m
    res = reg.as_disjoint_union(track_dependencies=tracked)
    check_pieces(SB, res, want, labels, tracked and CLIP[clip] is not None, ctx)


# ------------------------------------------------------- the periodic simplification
def grid(n, gap, axis):
    out = []
    for k in range(n):
        a, b = (F(k), F(k + 1)) if not gap else (F(k), F(k) + F(1, 2))
        out.append(box2(a, b, 0, 12) if axis == 0 else box2(0, 12, a, b))
    return out


BIG = {
    # 21 children: vertical strips, horizontal strips, then boxes that cut a little
    "gaps": [grid(10, True, 0), grid(10, True, 1)],
    "touch": [grid(11, False, 0)[::2], grid(11, False, 1)[::2]],
    "mixed": [grid(11, True, 0), grid(5, False, 1) + [box2(0, 12, F(13, 2), 7), box2(0, 12, 8, 9),
                                                      box2(0, 12, 9, 10), box2(0, 12, 10, 11), box2(0, 12, 11, 12)]],
}


def big_cases(tier):
    for name in BIG:
        for tracked in (True, False):
            if tier == "quick" and not tracked and name != "mixed":
                continue
            yield [name, 19, tracked]
    if tier == "thorough":
        for name in BIG:
            yield [name, 39, True]


def run_big(case, ctx):
    name, extra, tracked = case
    us = [list(u) for u in BIG[name]]
    # the remaining children cut the right border a bit more each time, some in two pieces
    for k in range(extra):
        e = F(12) - F(k + 1, 64)
        us.append([box2(0, 5, 0, 12), box2(5, e, 0, 12)] if k % 2 else [box2(0, e, 0, 12)])
    kids = [make_child(u, k) for k, u in enumerate(us)]
    res = Region.intersect(kids).as_disjoint_union(track_dependencies=tracked)
    ps = pieces(res)
    # exact, without a large arrangement: axis-parallel cells
    xs = sorted({F(-r[0], r[1]) for u in us for p in u for r in p if r[1] != 0})
    ys = sorted({F(-r[0], r[2]) for u in us for p in u for r in p if r[2] != 0})
    rws = [rows_of(p) for p in ps]
    for i, o in rws:
        if o:
            raise Bad("a piece has no interior")
    mid = lambda v: [(a + b) / 2 for a, b in zip(v, v[1:])] + [v[0] - 1, v[-1] + 1]
    for x in mid(xs):
        for y in mid(ys):
            want = all(any(all(val(r, (x, y)) >= 0 for r in p) for p in u) for u in us)
            n = sum(all(val(r, (x, y)) >= 0 for r in i) for i, _ in rws)
            if n != (1 if want else 0):
                raise Bad(f"({x},{y}) is in {n} pieces although it should be in {int(want)}")
            ctx.step()
    for p, (i, _) in zip(ps, rws):
        for r in i:
            if (r[1] != 0) == (r[2] != 0):
                raise Bad("a piece is not a box although all the inputs are")
        if tracked:
            deps = set(p.dependencies)
            c = [F(z) for z in p.get_centroid()]
            planes = {plane(r) for (k, j) in deps for r in us[k][j]}
            for r in i:
                if plane(r) not in planes:
                    raise Bad(f"the boundary {r} of a piece comes from no polytope it is labelled with")
    ctx.state((name, extra, len(ps)))
    ctx.outcome(len(ps))


# --------------------------------------------------------------------------- simplify
SIMP = [box2(0, 1, 0, 1), box2(1, 2, 0, 1), box2(0, 1, 1, 2), box2(1, 2, 1, 2), box2(0, 2, 0, 1),
        box2(2, 3, 0, 1), ((0, 1, 0), (0, 0, 1), (2, -1, -1)), box2(0, 2, 0, 2) + ((-2, 1, 1),),
        box2(0, 1, 0, 2), box2(4, 5, 4, 5), box2(F(1, 2), F(3, 2), F(1, 2), F(3, 2))]
SS = Space(2, [r for p in SIMP for r in p])


def simp_cases(tier):
    n = range(len(SIMP))
    for k in range(1, 4):
        for c in permutations(n, k):
            if k < 3 or tier == "thorough" or (c[0] < c[1]):
                yield ["U", list(c)]
    for c in combinations(n, 4):
        yield ["U", list(c)]
    for c in windows(len(SIMP), (5, 6, 8, 11), (1, 2, 3, 5)):
        yield ["U", c]
    for c in combinations([0, 1, 2, 3, 5, 9, 7], 5 if tier == "quick" else 6):
        yield ["D", list(c)]
    if tier == "thorough":
        for c in permutations(n, 4):
            yield ["U", list(c)]


def run_simp(case, ctx):
    op, idx = case
    reg = (Region.union if op == "U" else Region.disjoint_union)(
        [Region.from_polytope(Polytope([list(r) for r in SIMP[i]])) for i in idx])
    reg.simplify()
    ps = pieces(reg)
    A, ms = mask_of(SS, ps)
    want = umask(A, [SIMP[i] for i in idx])
    got = 0
    for m in ms:
        got |= m
    if got != want:
        raise Bad(f"simplification changed the set near [{A.show(got ^ want)}]")
    if len(ps) > len(idx):
        raise Bad("simplification added pieces")
    if contains_mask(A, reg) != want:
        raise Bad("membership changed under simplification")
    ctx.state(want if A is SS.base else str(want))
    ctx.step()
    ctx.outcome((len(idx), len(ps)))


def keep_cases(tier):
    """Regions which are not unions of polytopes are left alone by the simplifier."""
    for t in (["P", 0], ["I", ["P", 0], ["P", 1]], ["C", ["P", 0]], ["U", ["I", ["P", 0], ["P", 1]], ["P", 2]],
              ["C", ["U", ["P", 0], ["P", 1]]], ["D", ["U", ["P", 0], ["P", 1]], ["P", 9]]):
        yield t


def run_keep(case, ctx):
    leaves = [(p, ()) for p in SIMP]
    reg = make(case, leaves)
    reg.simplify()
    A = SS.base
    lm = [A.poly(p) for p in SIMP]
    if contains_mask(A, reg) != tree_mask(case, A, lm):
        raise Bad("simplification changed the set")
    ctx.state(str(case))
    ctx.step()
    ctx.outcome(case[0])


# ------------------------------------------------- unions of half planes inside a box
HP = {2: [(2, -1, 0), (2, 0, -1), (-2, 1, 0), (3, -1, -1), (-3, 1, 1), (0, 1, -1), (5, -1, 0), (-5, 1, 0), (1, -1, 0)],
      3: [(1, -1, 0, 0), (1, 0, -1, 0), (2, -1, -1, -1), (0, 1, 0, -1), (-1, 0, 0, 1), (4, -1, 0, 0)]}
HBOX = {2: box2(0, 4, 0, 3), 3: box3(0, 2, 0, 2, 0, 2)}
HS = {d: Space(d, list(HP[d]) + list(HBOX[d])) for d in HP}


def half_cases(tier):
    for d in (2, 3):
        for k in range(1, 5 if tier == "thorough" else 4):
            for c in permutations(range(len(HP[d])), k):
                if k == 4 and c[0] > c[1] and d == 2:
                    continue
                yield [d, list(c)]


def run_half(case, ctx):
    d, idx = case
    box = [list(r) for r in HBOX[d]]
    hps = [list(HP[d][i]) for i in idx]
    reg = Region.from_union_of_halfplanes(hps, box)
    if box != [list(r) for r in HBOX[d]] or hps != [list(HP[d][i]) for i in idx]:
        raise Bad("the arguments were modified")

    def want(A):
        m = 0
        for i in idx:
            m |= A.poly(HBOX[d] + (HP[d][i],))
        return m

    A = HS[d].base
    if contains_mask(A, reg) != want(A):
        raise Bad("membership differs from the union of the half planes")
    check_pieces(HS[d], reg.as_disjoint_union(), want, {}, False, ctx)


def groups(tier):
    return [
        Group("half-planes", half_cases, run_half),
        Group("big", big_cases, run_big, timeout=600, chunk=8),
        Group("intersections", inter_cases, run_inter),
        Group("intersections, distorted", far_cases, run_inter),
        Group("longer intersections", long_cases, run_inter),
        Group("unbounded parts", slab_cases, run_slab), Group("nested", nest_cases, run_nest),
        Group("simplify", simp_cases, run_simp),
        Group("untouched", keep_cases, run_keep),
    ]
