"""G03: scaling, substitution, lifting and projection of polytopes are exact."""
from itertools import combinations, permutations, product
from fractions import Fraction as F
from mc.core import Group, Bad, fr
from mc.polys import *
from mc.geom import Arrangement, vertices, hull_spec, val

ID = "G03"
COVERAGE = (
    "every polytope of small families in dimension 1, 2, 3, some in dimension 4, and thin, huge and distant copies of them (inequalities and equalities, bounded, "
    "unbounded, lower dimensional, empty) crossed with every map of a finite menu (all factor "
    "vectors over {1,2,1/2,3,-1}, all partial substitutions over a value grid, all placements of "
    "the coordinates among new bounded ones, all coordinate subsets for projections); the image "
    "is compared with the exact image on every face of the arrangement.  state = distinct image, "
    "transition = one map compared, trace = one polytope executed through one kind of map"
)
ASSUMPTIONS = ["projection is stated for bounded non-empty polytopes, as the library documents"]

BOX1 = [(0, 1), (2, -1)]
BOX2 = [(0, 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)]
BOX3 = [(0, 1, 0, 0), (2, -1, 0, 0), (0, 0, 1, 0), (2, 0, -1, 0), (0, 0, 0, 1), (2, 0, 0, -1)]
S1, S2, S3 = Space(1, H1), Space(2, H2), Space(3, H3)
SP = {1: S1, 2: S2, 3: S3}


def fams(tier):
    big = tier == "thorough"
    f1 = family(S1, H1, [(-1, 1)], 2, 1)
    f2 = family(S2, H2, E2, 4 if big else 3, 1)
    f3 = family(S3, H3, E3, 2, 1)
    return {1: f1, 2: f2, 3: f3}


def bounded(tier):
    big = tier == "thorough"
    out = {1: [], 2: [], 3: []}
    for dim, box, hs, es in ((1, BOX1, H1, [(-1, 1)]), (2, BOX2, H2, E2), (3, BOX3, H3, E3)):
        seen = set()
        sp = SP[dim]
        for e in [()] + [(x,) for x in es]:
            for n in range(0, 3):
                for h in combinations(hs, n):
                    spec = (tuple(box) + tuple(h), tuple(e))
                    m = spec_mask(sp.base, spec)
                    if m == 0 or m in seen:
                        continue
                    seen.add(m)
                    out[dim].append(spec)
    return out


def compare(dim, got, want_spec, what, ctx):
    gi, ge = rows_of(got)
    for r in gi + ge:
        if len(r) != dim + 1:
            raise Bad(f"{what}: the image lives in dimension {len(r) - 1}, expected {dim}")
    wi, we = want_spec
    A = Arrangement(dim, list(wi) + list(we) + gi + ge, reach(wi, we, gi, ge))
    m, w = A.poly(gi, ge), A.poly(wi, we)
    if m != w:
        raise Bad(f"{what}: the image differs from the exact one near [{A.show(m ^ w)}]")
    # the image is a usable object: its own queries agree with it
    if bool(got.is_empty()) != (w == 0):
        raise Bad(f"{what}: the image reports the wrong emptiness")
    ctx.step()
    ctx.state((dim, prim_spec(want_spec)))
    ctx.outcome((dim, w == 0, w & A.full == 0))
    return A, w


def prim_spec(s):
    return (tuple(sorted(prim(r) for r in s[0])), tuple(sorted(prim(r) for r in s[1])))


FACT = [F(1), F(2), F(1, 2), F(3), F(-1)]


FAR_FACT = {1: [(F(10 ** 9),), (F(-3, 7) / 10 ** 8,)], 2: [(F(10 ** 9), F(1, 10 ** 7)), (F(-3, 7), F(10 ** 6)), (F(1, 10 ** 9), F(1))],
            3: [(F(1), F(10 ** 9), F(-1, 10 ** 7)), (F(22, 7), F(1), F(1, 10 ** 8))], 4: [(F(2), F(-3), F(1, 2), F(5)), (F(1), F(7, 3), F(1), F(1))]}


def run_scale(case, ctx):
    dim, s = case[:2]
    far = len(case) > 2
    spec = spec_from_json(s)
    facs = FAR_FACT[dim] if far else list(product(FACT, repeat=dim)) if dim < 3 else [
        f for f in product(FACT, repeat=3) if len(set(f)) == 3 or f.count(F(1)) >= 1
    ][::3]
    for f in facs:
        p = build(spec)
        want = tuple(
            tuple((r[0],) + tuple(F(r[i + 1]) / f[i] for i in range(dim)) for r in rows)
            for rows in spec
        )
        q = p.scale_all(list(f))
        compare(dim, q, want, f"scaling {spec} by {[str(x) for x in f]}", ctx)
        bi, be = rows_of(p)
        B = SP[dim].get(bi + be) if not far else Arrangement(dim, bi + be + list(spec[0]) + list(spec[1]), FAR)
        if spec_mask(B, (bi, be)) != spec_mask(B, spec):
            raise Bad(f"scaling modified its operand {spec}")
    # one coordinate (counted from 1), intersected with further constraints
    extra = {1: [[], [[-1, 1]]], 2: [[], [[3, -1, -1]]], 3: [[], [[3, -1, -1, -1]]], 4: [[], [[3, -1, -1, -1, 0]]]}[dim]
    for i in range(1, dim + 1):
        for f in (F(2), F(1, 3), F(-3, 2)):
            for add in extra:
                p = build(spec)
                want = [
                    tuple(tuple(F(x) / (f if j == i else 1) for j, x in enumerate(r)) for r in rows)
                    for rows in spec
                ]
                want = (want[0] + tuple(tuple(r) for r in add), want[1])
                if not want[0] and not want[1]:
                    continue
                q = p.scale(i, f, [list(r) for r in add])
                compare(dim, q, want, f"scaling coordinate {i} of {spec} by {f} with {add}", ctx)


VALUES = [F(0), F(1), F(1, 2), F(3)]


def run_subst(case, ctx):
    dim, s = case
    spec = spec_from_json(s)
    for n in range(1, dim):
        for idx in combinations(range(dim), n):
            for vs in product(VALUES, repeat=n):
                vals = dict(list(zip(idx, vs))[::-1 if sum(idx) % 2 else 1])
                p = build(spec)
                q = p.substitute(dict(vals))
                want = tuple(
                    tuple(
                        (r[0] + sum(r[i + 1] * v for i, v in vals.items()),)
                        + tuple(F(r[i + 1]) for i in range(dim) if i not in vals)
                        for r in rows
                    )
                    for rows in spec
                )
                want = tuple(tuple(tuple(F(x) for x in r) for r in rows) for rows in want)
                compare(dim - n, q, want, f"substituting {vals} in {spec}", ctx)


LIMITS = [[(F(0), F(1)), (F(1, 2), F(2))], [(F(-2), F(3)), (F(-5, 2), F(-1, 3))]]


def placements(dim, total):
    for lims in LIMITS if total > dim else LIMITS[:1]:
        for pos in permutations(range(total), dim):
            var = []
            k = 0
            for i in range(total):
                if i in pos:
                    var.append(pos.index(i))
                else:
                    var.append(lims[k % 2])
                    k += 1
            yield var


def run_lift(case, ctx):
    dim, s, total = case
    spec = spec_from_json(s)
    for var in placements(dim, total):
        p = build(spec)
        q = p.lift(list(var))

        def up(r):
            return (r[0],) + tuple(r[v + 1] if isinstance(v, int) else 0 for v in var)

        ineq = [up(r) for r in spec[0]]
        eq = [up(r) for r in spec[1]]
        for i, v in enumerate(var):
            if isinstance(v, tuple):
                lo = [-v[0]] + [0] * total
                lo[i + 1] = 1
                hi = [v[1]] + [0] * total
                hi[i + 1] = -1
                ineq += [tuple(lo), tuple(hi)]
        compare(total, q, (tuple(ineq), tuple(eq)), f"lifting {spec} by {var}", ctx)


def high_cases(tier):
    """into four and five variables: the image is a product, and so are its faces"""
    big = tier == "thorough"
    fs = fams(tier)
    n = 0
    for dim, total in ((1, 4), (2, 4), (2, 5), (3, 5), (3, 4)):
        pl = list(placements(dim, total))
        f = fs[dim] if big else fs[dim][:: (1, 1, 9, 9)[dim]]
        for s in f:
            n += 1
            yield [dim, s, total, n * 7 % len(pl)]
            if big:
                yield [dim, s, total, n * 11 % len(pl)]


def run_high(case, ctx):
    dim, s, total, k = case
    spec = spec_from_json(s)
    var = list(placements(dim, total))[k]
    q = build(spec).lift(list(var))
    if q.dimension() != total:
        raise Bad(f"lifting by {var} gives dimension {q.dimension()}")
    A = SP[dim].base
    m = spec_mask(A, spec)
    e = F(1, 100)
    opts = [[v[0] - e, v[0], (v[0] + v[1]) / 2, v[1], v[1] + e] for v in var if isinstance(v, tuple)]
    for i, pt in enumerate(A.points):
        if len(A.points) > 60 and i % 7 != k % 7:
            continue
        for c in product(*opts):
            it = iter(c)
            x = [pt[v] if isinstance(v, int) else next(it) for v in var]
            want = bool(m >> i & 1) and all(o[1] <= y <= o[3] for o, y in zip(opts, c))
            if bool(q.contains(x)) != want:
                raise Bad(f"lifting {spec} by {var}: {x} should {'' if want else 'not '}belong to it")
        ctx.step()
    ctx.state((tuple(map(str, var)), m))
    ctx.outcome((dim, total))


def run_project(case, ctx):
    dim, s = case
    spec = spec_from_json(s)
    vs = sorted(vertices(spec[0], spec[1], dim))
    for n in range(1, dim + 1):
        for dims in combinations(range(dim), n):
            p = build(spec)
            q = p.project(set(dims))
            if q is None:
                raise Bad(f"the projection of the non-empty {spec} vanished")
            want = hull_spec([tuple(v[i] for i in dims) for v in vs], n)
            compare(n, q, want, f"projecting {spec} onto {dims}", ctx)
            # second projection of a projection
            if n == 2:
                for j in (0, 1):
                    qq = q.project({j})
                    w = hull_spec([(v[dims[j]],) for v in vs], 1)
                    compare(1, qq, w, f"projecting the projection {dims} of {spec} onto {j}", ctx)


def run_compose(case, ctx):
    """Maps applied to the results of maps."""
    dim, s = case
    spec = spec_from_json(s)
    vs = sorted(vertices(spec[0], spec[1], dim))
    f = [F(2), F(1, 2), F(3)][:dim]
    p = build(spec)
    # lift, scale, then project back: a pure scaling
    var = list(range(dim)) + [(F(0), F(1))]
    up = p.lift(var).scale_all(f + [F(5)])
    back = up.project(set(range(dim)))
    want = hull_spec([tuple(a * b for a, b in zip(v, f)) for v in vs], dim)
    compare(dim, back, want, f"lift, scale by {f}, project of {spec}", ctx)
    # substituting the lifted variable recovers the original
    mid = p.lift(var).substitute({dim: F(1, 2)})
    compare(dim, mid, spec, f"lift then substitute of {spec}", ctx)
    # scaling forth and back
    q = p.scale_all(f).scale_all([1 / x for x in f])
    compare(dim, q, spec, f"scaling {spec} by {f} and back", ctx)


def distorted(tier):
    """thin, distant and huge copies; four dimensions"""
    big = tier == "thorough"
    fs = bounded(tier)
    out = []
    for k in (0, 1):
        for d, step in ((1, 1), (2, 1 if big else 4), (3, 1 if big else 16)):
            out += [[d, warp_spec(s, k)] for s in fs[d][k::step]]
    return out + [[4, s] for s in fam4(tier)]


def fam4(tier):
    box = [tuple(v) for i in range(1, 5) for v in ([0] * i + [1] + [0] * (4 - i), [2] + [0] * (i - 1) + [-1] + [0] * (4 - i))]
    cuts = [(-1, 1, 0, 0, 0), (3, -1, -1, 0, 0), (0, 0, 1, 0, -1), (4, -1, -1, -1, -1)]
    eqs = [(), ((0, 0, 1, -1, 0),), ((-1, 1, 0, 0, 1),), ((0, 1, 0, 0, -1), (-1, 0, 1, 0, 0))]
    return [(tuple(box) + tuple(c), e) for n in range(0, 3 if tier == "thorough" else 2) for c in combinations(cuts, n) for e in eqs]


def far_scale(tier):
    for d, s in distorted(tier):
        yield [d, s, 1]


def far_subst(tier):
    for d, s in distorted(tier):
        if d in (2, 4) or d == 3 and tier == "thorough":
            yield [d, s]


def far_project(tier):
    for d, s in distorted(tier):
        if d < 4 or tier == "thorough" or not s[1]:
            yield [d, s]


def several(tier):
    """several equalities, with few inequalities or none"""
    for dim, sp, H, E in ((2, S2, H2, E2), (3, S3, H3, E3)):
        f = [s for s in family(sp, H, E, 1, 3) if len(s[1]) >= 2]
        if tier == "quick":
            f = [s for s in f if not s[0]][:8] + [s for s in f if s[0]][::max(1, len(f) // 8)]
        for s in f:
            yield [dim, s]


def maps(tier):
    for dim, f in fams(tier).items():
        for s in f:
            yield [dim, s]
    yield from several(tier)


def subst(tier):
    for dim, f in fams(tier).items():
        if dim > 1:
            for s in f:
                yield [dim, s]
    yield from several(tier)


def lifts(tier):
    big = tier == "thorough"
    fs = fams(tier)
    for s in fs[1]:
        yield [1, s, 2]
        yield [1, s, 3]
    for s in fs[2]:
        yield [2, s, 2]  # pure permutation of the coordinates
    for s in fs[2] if big else fs[2][::3]:
        yield [2, s, 3]


def bnd(tier):
    for dim, f in bounded(tier).items():
        for s in f:
            yield [dim, s]


def groups(tier):
    return [
        Group("scale", maps, run_scale),
        Group("substitute", subst, run_subst),
        Group("lift", lifts, run_lift),
        Group("lift into four and five", high_cases, run_high),
        Group("project", bnd, run_project),
        Group("compose", bnd, run_compose),
        Group("scale, distorted", far_scale, run_scale),
        Group("substitute, distorted", far_subst, run_subst),
        Group("project, distorted", far_project, run_project),
        Group("compose, distorted", lambda tier: [c for c in far_project(tier) if c[0] < 4], run_compose),
    ]
