"""G01: Boolean operations and queries on polytopes mean what they say on point sets."""
from fractions import Fraction as F
from itertools import product, combinations
from mc.core import Group, Bad, fr, windows
from mc.polys import *

ID = "G01"
COVERAGE = (
    "every ordered pair (and every triple of a smaller family, and lists of 5 to 13) of polytopes cut out of small "
    "1-, 2- and 3-dimensional half-space alphabets (bounded, unbounded, empty, lower "
    "dimensional, redundantly described, with up to 8 sides, with several equalities; boxes in dimension 1 to 5); each operation of the real library is compared on "
    "every face of the exact arrangement.  state = distinct point set, transition = one "
    "operation compared, trace = one operand tuple executed on the real code"
)
ASSUMPTIONS = ["coefficients are small integers, plus families with coefficients from 1e-13 to 1e9; dimension at most 3"]

S1, S2, S3 = Space(1, H1 + [(-3, 1)]), Space(2, H2), Space(3, H3)
# coefficients of very different size: strips thinner than any tolerance, and distant parallels
EPS, TINY, HUGE = F(1, 10 ** 7), F(1, 10 ** 13), 10 ** 9
HX1 = [(0, 1), (EPS, -1), (-EPS, 1), (TINY, -1), (1, -1), (-1 - TINY, 1), (-1, 1)]
HX2 = [(0, 1, 0), (EPS, -1, 0), (0, 0, 1), (TINY, 0, -1), (1, 0, -1), (1 + TINY, -1, -1), (-1, 1, 1),
       (0, HUGE, -1), (0, -HUGE, 1), (0, 1, -HUGE)]
# polytopes with many sides
OCT = [(0, 1, 0), (3, -1, 0), (0, 0, 1), (3, 0, -1), (-1, 1, 1), (5, -1, -1), (2, 1, -1), (2, -1, 1), (-1, 1, 0), (-2, 0, 1)]
CUBE = [(0, 1, 0, 0), (2, -1, 0, 0), (0, 0, 1, 0), (2, 0, -1, 0), (0, 0, 0, 1), (2, 0, 0, -1), (-1, 1, 1, 1), (5, -1, -1, -1), (-1, 1, 0, 0)]
# further spaces; the dimension is the last digit of the key
SP = {1: S1, 2: S2, 3: S3, 11: Space(1, HX1), 12: Space(2, HX2, M=10 ** 30),
      32: Space(2, OCT), 33: Space(3, CUBE),
      21: Space(1, [(-F(k), 1) for k in range(7)]), 22: Space(2, [(-F(k), 1, 0) for k in range(7)] + [(0, 0, 1), (2, 0, -1), (-1, 0, 1)])}


def variants(spec, k):
    """Syntactic variants of one point set: duplicated / scaled / reordered rows."""
    ineqs, eqs = spec
    if k == 0:
        return spec
    if k == 1 and ineqs:
        return (tuple(reversed(ineqs)) + (tuple(3 * x for x in ineqs[0]),), eqs)
    if k == 2 and ineqs:
        # a weaker, redundant row
        r = ineqs[-1]
        return ((tuple([r[0] + 5] + list(r[1:])),) + ineqs, eqs)
    return spec


def check_single(case, ctx):
    dim, s, k = case
    sp = SP[dim]
    spec = variants(spec_from_json(s), k)
    A = sp.base
    m = spec_mask(A, spec)
    ctx.state((dim, m))
    p = build(spec)
    if p.dimension() != dim % 10:
        raise Bad(f"dimension() = {p.dimension()}, expected {dim % 10}")
    for i, pt in enumerate(A.points):
        want = bool(m >> i & 1)
        if bool(p.contains(list(pt))) != want:
            raise Bad(f"contains({pt}) should be {want} for {spec}")
        ctx.step()
    # points which miss a boundary or an equality by very little do not belong
    for i, pt in enumerate(A.points):
        if m >> i & 1:
            for r in list(spec[0]) + list(spec[1]):
                if r[0] + sum(c * x for c, x in zip(r[1:], pt)) == 0:
                    for t in (F(-1, 10 ** 9), F(-1, 10 ** 20)):
                        near = [x + t * c for x, c in zip(pt, r[1:])]
                        if any(r[1:]) and p.contains(near):
                            raise Bad(f"contains({near}), which violates {r} by very little")
                        ctx.step()
    if bool(p.is_empty()) != (m == 0):
        raise Bad(f"emptiness (with boundary) should be {m == 0} for {spec}")
    if bool(p.is_empty(include_boundary=False)) != (m & A.full == 0):
        raise Bad(f"emptiness (without boundary) should be {m & A.full == 0} for {spec}")
    ctx.step(2)
    if m:
        q = build(spec)
        if bool(q.is_full_dim()) != (m & A.full != 0):
            raise Bad(f"full-dimensionality should be {m & A.full != 0} for {spec}")
        ctx.step()
    # canonical forms describe the same set
    cs = list(spec[0])
    if cs:
        c = Polytope([list(r) for r in cs], canonicalize=True)
        B, (mc,) = mask_of(sp, [c])
        if mc != B.poly(cs, ()):
            raise Bad(f"the canonical form of {cs} is a different set")
        ctx.step()
    if spec[1]:
        c = Polytope([list(r) for r in spec[1]], linear=True, canonicalize=True)
        B, (mc,) = mask_of(sp, [c])
        if mc != B.poly((), spec[1]):
            raise Bad(f"the canonical form of the equalities {spec[1]} is a different set")
        ctx.step()
    c = build(spec)
    c.canonicalize()
    B, (mc,) = mask_of(sp, [c])
    if mc != spec_mask(B, spec):
        raise Bad(f"canonicalize() changed the point set of {spec}")
    ctx.step()
    ctx.outcome((m == 0, m & A.full == 0))


def check_minus(sp, sa, sb, p, q, simplify, ctx):
    parts = p.set_minus(q, simplify=simplify)
    B, ms = mask_of(sp, parts) if parts else (sp.base, [])
    want = spec_mask(B, sa) & ~spec_mask(B, sb) & B.full
    got = 0
    for i, x in enumerate(ms):
        x &= B.full
        if got & x:
            raise Bad(f"pieces of {sa} minus {sb} overlap near {B.show(got & x)}")
        got |= x
    if got != want:
        miss, extra = want & ~got, got & ~want
        raise Bad(
            f"{sa} minus {sb} (simplify={simplify}): missing [{B.show(miss)}] extra [{B.show(extra)}]"
        )
    ctx.step()
    return parts


def check_pair(case, ctx):
    dim, a, b = case
    sp = SP[dim]
    sa, sb = spec_from_json(a), spec_from_json(b)
    A = sp.base
    ma, mb = spec_mask(A, sa), spec_mask(A, sb)
    p, q = build(sa), build(sb)
    # intersection, three ways
    for how in ("intersect", "list", "raw"):
        if how == "intersect":
            r = p.intersect(q)
        else:
            r = Polytope.intersection([p, q], canonicalize=(how == "list"))
        B, (m,) = mask_of(sp, [r])
        want = spec_mask(B, sa) & spec_mask(B, sb)
        if m != want:
            raise Bad(f"{how}: intersection of {sa} and {sb} differs near [{B.show(m ^ want)}]")
        if bool(r.is_empty()) != (want == 0):
            raise Bad(f"{how}: emptiness of the intersection of {sa} and {sb} is wrong")
        if bool(r.is_empty(include_boundary=False)) != (want & B.full == 0):
            raise Bad(f"{how}: interior emptiness of the intersection of {sa} and {sb} is wrong")
        ctx.step(3)
    ctx.state((dim, ma & mb))
    # difference
    check_minus(sp, sa, sb, p, q, True, ctx)
    check_minus(sp, sa, sb, p, q, False, ctx)
    # containment
    want = ma & ~mb == 0
    if bool(p.is_subset_of(q)) != want:
        raise Bad(f"is {sa} a subset of {sb}: expected {want}")
    ctx.step()
    # coverage ignores boundaries; stated for polytopes with an interior
    if ma & A.full:
        want = ma & A.full & ~mb == 0
        if bool(p.is_covered_by([q])) != want:
            raise Bad(f"is {sa} covered by [{sb}]: expected {want}")
        ctx.step()
    # the operands are untouched
    B, (m1, m2) = mask_of(sp, [p, q])
    if m1 != spec_mask(B, sa) or m2 != spec_mask(B, sb):
        raise Bad(f"an operation changed its operands {sa}, {sb}")
    ctx.outcome((ma & mb == 0, ma & ~mb == 0, mb & ~ma == 0))


def check_triple(case, ctx):
    dim, a, b, c = case
    sp = SP[dim]
    sa, sb, sc = map(spec_from_json, (a, b, c))
    A = sp.base
    ma, mb, mc = (spec_mask(A, s) for s in (sa, sb, sc))
    p, q, r = build(sa), build(sb), build(sc)
    for canon in (True, False):
        t = Polytope.intersection([p, q, r], canonicalize=canon)
        B, (m,) = mask_of(sp, [t])
        if m != spec_mask(B, sa) & spec_mask(B, sb) & spec_mask(B, sc):
            raise Bad(f"intersection of {sa}, {sb}, {sc} is wrong")
        ctx.step()
    if ma & A.full:
        want = ma & A.full & ~(mb | mc) == 0
        if bool(p.is_covered_by([q, r])) != want:
            raise Bad(f"is {sa} covered by {sb} and {sc}: expected {want}")
        ctx.step()
    # chained difference: ((a \ b) \ c), ((a \ b) n c), and the pieces cover a again
    parts = p.set_minus(q)
    got = 0
    inter = 0
    allp = []
    for x in parts:
        allp.extend(x.set_minus(r))
    ys = [x.intersect(r) for x in parts]
    B, ms = mask_of(sp, allp + ys) if allp or ys else (sp.base, [])
    for x in ms[: len(allp)]:
        if got & x & B.full:
            raise Bad(f"pieces of ({sa} minus {sb}) minus {sc} overlap")
        got |= x & B.full
    for x in ms[len(allp):]:
        inter |= x & B.full
    base = spec_mask(B, sa) & ~spec_mask(B, sb) & B.full
    if got != base & ~spec_mask(B, sc):
        raise Bad(f"({sa} minus {sb}) minus {sc} is wrong")
    if inter != base & spec_mask(B, sc):
        raise Bad(f"({sa} minus {sb}) intersected with {sc} is wrong")
    ctx.step(2)
    if ma & A.full and parts:
        if not p.is_covered_by([q] + parts):
            raise Bad(f"{sa} is not covered by {sb} and the pieces of their difference")
        ctx.step()
        union = 0
        B, ms = mask_of(sp, parts)
        for x in ms:
            union |= x
        want = spec_mask(B, sa) & B.full & ~(spec_mask(B, sc) | union) == 0
        if bool(p.is_covered_by([r] + parts)) != want:
            raise Bad(f"is {sa} covered by {sc} and the pieces of {sa} minus {sb}: expected {want}")
        ctx.step()
    ctx.state((dim, ma, mb, mc))
    ctx.outcome((len(parts), len(allp)))


def many_cases(tier):
    """one polytope against many, lists of many"""
    q = tier == "quick"
    box2 = family(S2, H2, [], 3, 0, keep=lambda m, A: m & A.full)
    f1 = thin(family(S1, H1, [(-1, 1)], 2, 1), 14)
    for dim, f in ((1, f1), (2, thin(box2, 30))):
        for c in windows(len(f), (5, 6, 8), (1, 3, 7, 11), None if not q else range(0, len(f), 3)):
            yield [dim, [f[i] for i in c]]
    # slices, in every order of a walk, all of them or all but one, some cut in two
    for dim in (21, 22):
        side = lambda a, b: (((-a, 1), (b, -1)), ()) if dim == 21 else (((-a, 1, 0), (b, -1, 0), (0, 0, 1), (2, 0, -1)), ())
        cut = lambda a, b: [(side(a, b)[0] + (r,), ()) for r in ((-1, 0, 1), (1, 0, -1))]
        for n in (4, 5, 6):
            for w in windows(n, (n,), (1, 2, 3) if not q else (1, 2)):
                for miss in [None] + list(range(n)):
                    for k in range(3 if dim == 22 else 2):
                        parts = []
                        for i in w:
                            if i == miss:
                                continue
                            parts += cut(i, i + 1) if k == 2 and i % 2 else [side(i, min(n, i + 2))] if k == 1 and i % 3 == 0 else [side(i, i + 1)]
                        yield [dim, [side(0, n)] + parts]


def check_many(case, ctx):
    dim, ss = case
    ss = [spec_from_json(s) for s in ss]
    sp = SP[dim]
    A = sp.base
    ms = [spec_mask(A, s) for s in ss]
    ps = [build(s) for s in ss]
    for canon in (True, False):
        t = Polytope.intersection(list(ps[1:]), canonicalize=canon)
        B, (m,) = mask_of(sp, [t])
        want = B.all
        for s in ss[1:]:
            want &= spec_mask(B, s)
        if m != want:
            raise Bad(f"the intersection of {ss[1:]} is wrong near [{B.show(m ^ want)}]")
        ctx.step()
    if ms[0] & A.full:
        u = 0
        for k in range(1, len(ss)):
            u |= ms[k]
            if k >= 2:
                want = ms[0] & A.full & ~u == 0
                if bool(ps[0].is_covered_by(ps[1:k + 1])) != want:
                    raise Bad(f"is {ss[0]} covered by {ss[1:k + 1]}: expected {want}")
                ctx.step()
    left = [ps[0]]
    for q in ps[1:]:
        left = [x for y in left for x in y.set_minus(q)]
    B, xs = mask_of(sp, left) if left else (A, [])
    got = 0
    for x in xs:
        if got & x & B.full:
            raise Bad(f"the pieces of {ss[0]} minus {ss[1:]} overlap")
        got |= x & B.full
    want = spec_mask(B, ss[0]) & B.full
    for s in ss[1:]:
        want &= ~spec_mask(B, s)
    if got != want:
        raise Bad(f"{ss[0]} minus {ss[1:]} is wrong near [{B.show(got ^ want)}]")
    ctx.step()
    B, ys = mask_of(sp, ps)
    if any(y != spec_mask(B, s) for y, s in zip(ys, ss)):
        raise Bad(f"an operation changed one of {ss}")
    ctx.state((dim, tuple(ms)))
    ctx.outcome((len(ss), len(left)))


def sides_cases(tier):
    big = tier == "thorough"
    for dim, rows, keep in ((32, OCT, 8), (33, CUBE, 8)):
        few = [(tuple(rows[:keep // 2 if dim == 32 else 6]), ()), (tuple(rows[-1:]), ()), (tuple(rows[-2:] + rows[:1]), ()), ((), ())][: 4 if big else 3]
        for n in (6, 7, 8):
            for w in windows(keep, (n,), (1, 3, 5), None if big else range(0, keep, 2 if dim == 32 else 4)):
                many = (tuple(rows[i] for i in w), ())
                for s in few:
                    if not s[0]:
                        continue
                    yield ["p", dim, s, many]
                    if big or w[0] == 0:
                        yield ["p", dim, many, s]
                yield ["s", dim, many, 1]


def equal_cases(tier):
    """several equalities at once"""
    big = tier == "thorough"
    for dim, sp, H, E in ((2, S2, H2, E2), (3, S3, H3, E3)):
        e2 = [s for s in family(sp, H, E, 2, 3) if len(s[1]) >= 2]
        rest = family(sp, H, E, 2, 1)
        e2, rest = thin(e2, 40 if big else 14), thin(rest, 40 if big else 12)
        for s in e2:
            for k in range(3):
                yield ["s", dim, s, k]
        for a, b in product(e2, e2):
            yield ["p", dim, a, b]
        for a, b in product(e2, rest):
            yield ["p", dim, a, b]
            yield ["p", dim, b, a]
        # the set, and the sets in which equalities are relaxed to one side
        for s in e2[:40 if big else 8]:
            for rel in product((0, 1, -1), repeat=len(s[1])):
                t = (tuple(s[0]) + tuple(tuple(g * v for v in e) for g, e in zip(rel, s[1]) if g), tuple(e for g, e in zip(rel, s[1]) if not g))
                if any(rel):
                    yield ["p", dim, s, t]
                    yield ["p", dim, t, s]
        e1 = thin([s for s in family(sp, H, E, 1, 1) if s[1]], 12) + e2[:4] + rest[:4]
        for c in windows(len(e1), (3, 4), (1, 2, 3, 7), None if big else range(0, len(e1), 2)):
            yield ["m", dim, [e1[i] for i in c]]


LIMS = [(0, 1), (-1, 2), (F(1, 3), F(1, 2)), (F(0), F(0)), (-5, -3), (F(10) ** 9, F(10) ** 9 + 1)]


def rect_cases(tier):
    for d in range(1, 6 if tier == "quick" else 7):
        if d <= 3:
            for c in product(range(len(LIMS)), repeat=d):
                yield list(c)
        else:
            for k in range(len(LIMS)):
                for step in range(len(LIMS)):
                    yield [(k + i * step) % len(LIMS) for i in range(d)]


def check_rect(case, ctx):
    lims = [LIMS[i] for i in case]
    p = Polytope.rect(*lims)
    if p.dimension() != len(lims):
        raise Bad(f"the box {lims} has dimension {p.dimension()}")
    e = F(1, 10 ** 12)
    opts = [[F(a) - e, F(a), (F(a) + b) / 2, F(b), F(b) + e] for a, b in lims]
    if len(lims) <= 3:
        pts = product(*opts)
    else:
        mid = [o[2] for o in opts]
        pts = [mid[:i] + [x] + mid[i + 1:] for i in range(len(lims)) for x in opts[i]] + [[o[1] for o in opts], [o[3] for o in opts]]
    for x in pts:
        want = all(a <= v <= b for v, (a, b) in zip(x, lims))
        if bool(p.contains(list(x))) != want:
            raise Bad(f"the box {lims} {'does not contain' if want else 'contains'} {x}")
        ctx.step()
    flat = any(a == b for a, b in lims)
    if p.is_empty() or bool(p.is_empty(include_boundary=False)) != flat:
        raise Bad(f"emptiness of the box {lims} is wrong")
    ctx.state(tuple(case))
    ctx.outcome((len(lims), flat))


def fams(tier):
    big = tier == "thorough"
    f1 = family(S1, H1, [(-1, 1)], 2, 1)
    f2 = family(S2, H2, E2, 4 if big else 3, 2 if big else 1)
    f3 = family(S3, H3, E3, 3 if big else 2, 1)
    return f1, f2, f3


def thin(f, n):
    """Deterministic spread of n members."""
    if len(f) <= n:
        return f
    return [f[i * len(f) // n] for i in range(n)]


def extreme(tier):
    big = tier == "thorough"
    return (11, family(SP[11], HX1, [(-EPS, 1)], 3, 1)), (12, thin(family(SP[12], HX2, [], 4 if big else 3, 0), 220 if big else 60))


def extreme_cases(tier):
    for dim, f in extreme(tier):
        for s in f:
            yield ["s", dim, s, 0]
        for a, b in product(f, f):
            yield ["p", dim, a, b]


def run_extreme(case, ctx):
    {"s": check_single, "p": check_pair, "m": check_many}[case[0]](case[1:], ctx)


def singles(tier):
    f1, f2, f3 = fams(tier)
    for dim, f in ((1, f1), (2, f2), (3, f3)):
        for s in f:
            for k in range(3):
                yield [dim, s, k]


def pairs(tier):
    f1, f2, f3 = fams(tier)
    big = tier == "thorough"
    for dim, f in ((1, f1), (2, thin(f2, 400 if big else 110)), (3, thin(f3, 110 if big else 36))):
        for a, b in product(f, f):
            yield [dim, a, b]


def triples(tier):
    big = tier == "thorough"
    f1, f2, f3 = fams(tier)
    box2 = family(S2, H2, [], 3, 0, keep=lambda m, A: m & A.full)
    for a, b, c in product(thin(f1, 14), repeat=3):
        yield [1, a, b, c]
    for a, b, c in product(thin(box2, 30 if big else 16), repeat=3):
        yield [2, a, b, c]
    box3 = family(S3, H3, [], 2, 0, keep=lambda m, A: m & A.full)
    for a, b, c in product(thin(box3, 14 if big else 8), repeat=3):
        yield [3, a, b, c]


def groups(tier):
    return [
        Group("queries", singles, check_single),
        Group("pairs", pairs, check_pair),
        Group("triples", triples, check_triple),
        Group("extreme", extreme_cases, run_extreme),
        Group("many", many_cases, check_many),
        Group("boxes", rect_cases, check_rect),
        Group("many sides", sides_cases, run_extreme),
        Group("several equalities", equal_cases, run_extreme),
    ]
