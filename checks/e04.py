"""E04: the duality between bounds on beta and exponent pairs."""
from itertools import product, combinations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis, Hypothesis_Set
from functions import Affine, Interval
from transform import Transform
from bound_beta import Bound_beta, derived_bound_beta
import bound_beta as bb
import exponent_pair as ep

ID = "E04"
COVERAGE = (
    "every set of up to 3 (thorough: 4) beta bounds (and 5 to 11 in the order of cyclic walks) out of 11 lines on sub-intervals of [0,1/2] (gaps, overlaps, concave and "
    "convex corners), with and without the B transform and with pairs already known: the pairs obtained are exactly the "
    "edges of the concave hull of the best bound (and their B transforms), each dominates the best bound everywhere, the bounds it cites suffice to imply it, none is obtained "
    "when [0,1/2] is not covered; every set of up to 3 exponent pairs to beta bounds, with extra transforms, and back "
    "again.  state = distinct set of pairs, transition = one pair or point compared, trace = one conversion"
)
H = F(1, 2)
CL = (True, True)
LINES = [
    (F(1), F(0), F(0), H), (F(1, 2), F(1, 6), F(0), H), (F(1, 2), F(1, 6), F(1, 4), H), (F(4, 7), F(1, 9), F(0), H),
    (F(2, 3), F(1, 12), F(1, 8), F(2, 5)), (F(3, 4), F(1, 20), F(0), F(1, 4)), (F(3, 4), F(1, 20), F(0), F(1, 3)),
    (F(11, 20), F(1, 10), F(1, 3), H), (F(0), F(5, 16), F(5, 12), H), (F(1), F(0), F(0), F(1)), (F(1, 2), F(1, 8), F(1, 6), F(9, 20)),
]


def best_limits(c):
    """None if [0,1/2] is not covered, else the points (x, limsup of the best bound)"""
    bs = [LINES[i] for i in c]
    xs = {F(0), H}
    for b in bs:
        xs |= {x for x in b[2:] if 0 <= x <= H}
    for a, b in combinations(bs, 2):
        if a[0] != b[0]:
            x = (b[1] - a[1]) / (a[0] - b[0])
            if 0 <= x <= H:
                xs.add(x)
    xs = sorted(xs)
    pts = []
    for a, b in zip(xs, xs[1:]):
        m = (a + b) / 2
        act = [l for l in bs if l[2] <= m <= l[3]]
        if not act:
            return None
        for x in (a, b):
            pts.append((x, min(l[0] * x + l[1] for l in act)))
    return pts


def dual(pts):
    h = M.hull(pts + [(F(0), F(-1)), (H, F(-1))])
    out = []
    for a, b in zip(h, h[1:] + h[:1]):
        if a[0] > b[0] and a[1] >= 0 and b[1] >= 0:
            m = (b[1] - a[1]) / (b[0] - a[0])
            k = a[1] - m * a[0]
            out.append((k, m + k))
    return out


KNOWN = [[], [(F(0), F(1))], [(F(1, 6), F(2, 3)), (F(0), F(1))]]


def to_pairs_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for c in combinations(range(len(LINES)), n):
            for b in (0, 1):
                for k in range(len(KNOWN)):
                    for rev in (0, 1):
                        yield [list(c), b, k, rev]
    for c in windows(len(LINES), (5, 6, 8, 11), (1, 2, 3)):
        for b in (0, 1):
            yield [c, b, sum(c) % 3, 0]


def mk(c):
    return [Hypothesis(f"b{i}", "Upper bound on beta", Bound_beta(Affine(LINES[i][0], LINES[i][1], Interval(LINES[i][2], LINES[i][3], *CL))),
                       "given", M.ref(1950 + i)) for i in c]


def to_pairs(case, ctx):
    c, b, kn, rev = case
    hs = mk(c)
    known = [M.pair(*p) for p in KNOWN[kn]]
    tr = [M.transform("B")] if b else []
    allh = hs + known + tr
    M.rank(allh if not rev else allh[::-1])
    S = Hypothesis_Set(allh)
    got = ep.beta_bounds_to_exponent_pairs(S)
    if {id(h) for h in S} != {id(h) for h in allh}:
        raise Bad("the conversion changed the given set")
    pts = best_limits(c)
    want = set()
    if pts:
        want = set(dual(pts))
        if b:
            want |= {M.T_B(p) for p in want}
    have = {M.pt(h) for h in got}
    ctx.step()
    if not want <= have:
        raise Bad(f"{[LINES[i] for i in c]} imply the pairs {sorted(want)}, found {sorted(have)}")
    if not have <= want | set(KNOWN[kn]):
        raise Bad(f"{sorted(have - want)} does not follow from {[LINES[i] for i in c]}")

    def extra(h):
        deps = list(h.dependencies)
        if h.hypothesis_type != "Exponent pair" or not deps or any(d.hypothesis_type != "Upper bound on beta" for d in deps):
            return False
        k, l = M.pt(h)
        if not pts or any(k + (l - k) * x < v for x, v in pts):
            raise Bad(f"{h.desc()} is not implied by the bounds")
        for d in deps:
            if not any(d is g for g in hs) and not (d.dependencies and all(any(e is g for g in hs) for e in d.dependencies)):
                raise Bad(f"{d.desc()} rests on {d.dependencies}")
        # the bounds cited, on their own, imply the pair
        cited = {id(e) for d in deps for e in ([d] if any(d is g for g in hs) else d.dependencies)}
        own = best_limits([i for i, g in zip(c, hs) if id(g) in cited])
        if not own or any(k + (l - k) * x < v for x, v in own):
            raise Bad(f"{h.desc()} does not follow from the bounds it cites: {[LINES[i] for i, g in zip(c, hs) if id(g) in cited]}")
        return True

    for h in got:
        M.check_pair_tree(h, allh, extra)
        ctx.step()
    ctx.state(sorted(have))
    ctx.outcome((len(want), len(have)))


PAIRS = [(F(0), F(1)), (F(1, 2), H), (F(1, 6), F(2, 3)), (F(2, 7), F(4, 7)), (F(1, 14), F(11, 14)), (F(0), H), (F(13, 84), F(55, 84))]


def to_beta_cases(tier):
    for n in range(0, 4):
        for c in combinations(range(len(PAIRS)), n):
            for tr in range(3):
                yield [list(c), tr]
    for c in windows(len(PAIRS), (4, 5, 7), (1, 2)):
        yield [c, c[0] % 3]


def sargos(dep):
    def f(h):
        k, l = M.pt(h)
        return [derived_bound_beta(Affine(F(1, 2) + k / 10, F(i + 1, 20), Interval(0, H, *CL)), "t", {h, dep[0]}) for i in range(2)]
    t = Hypothesis("extra", "Exponent pair to beta bound transform", Transform("extra", f), "given", M.ref(1990))
    dep.append(t)
    return t


def to_beta(case, ctx):
    c, ntr = case
    ps = [M.pair(*PAIRS[i], name=f"p{i}") for i in c]
    trs = [sargos([]) for _ in range(ntr)]
    S = Hypothesis_Set(ps + trs + mk([0, 4]))
    got = bb.exponent_pairs_to_beta_bounds(S)
    left = list(got)
    for p, i in zip(ps, c):
        k, l = PAIRS[i]
        exp = [(l - k, k, {id(p)})] + [(F(1, 2) + k / 10, F(j + 1, 20), {id(p), id(t)}) for t in trs for j in range(2)]
        for m, e, deps in exp:
            hit = [h for h in left if h.data.bound.m == m and h.data.bound.c == e and {id(x) for x in h.dependencies} == deps]
            if not hit:
                raise Bad(f"{PAIRS[i]} implies beta <= {m} x + {e}, not found among {[h.data for h in got]}")
            b = hit[0].data.bound
            if (b.domain.x0, b.domain.x1, b.domain.include_lower, b.domain.include_upper) != (0, H, True, True) \
                    or hit[0].hypothesis_type != "Upper bound on beta":
                raise Bad(f"{PAIRS[i]} implies a bound on [0,1/2], not on {b.domain}")
            left.remove(hit[0])
            ctx.step()
    if left:
        raise Bad(f"{[h.data for h in left]} does not follow from {[PAIRS[i] for i in c]}")
    if c and not ntr:
        # and back: the pairs on the boundary come back, all of them stay implied
        T = Hypothesis_Set(got)
        back = {M.pt(h) for h in ep.beta_bounds_to_exponent_pairs(T)}
        crit = sorted({F(0), H} | {(q[0] - p[0]) / ((p[1] - p[0]) - (q[1] - q[0])) for p in (PAIRS[i] for i in c)
                                   for q in (PAIRS[i] for i in c) if p[1] - p[0] != q[1] - q[0]})
        crit = [x for x in crit if 0 <= x <= H]
        pts = [(x, min(PAIRS[i][0] + (PAIRS[i][1] - PAIRS[i][0]) * x for i in c)) for x in crit]
        if back != set(dual(pts)):
            raise Bad(f"{[PAIRS[i] for i in c]} converted to beta bounds and back: {sorted(back)}, expected {dual(pts)}")
        ctx.step()
    ctx.state((c, ntr))
    ctx.outcome(len(got))


def conj(case, ctx):
    h = {"conj": ep.exponent_pair_conjecture, "trivial": ep.trivial_exp_pair}[case]
    want = {"conj": (F(0), H), "trivial": (F(0), F(1))}[case]
    if M.pt(h) != want:
        raise Bad(f"{h.desc()}, expected {want}")
    S = Hypothesis_Set([h])
    for b in bb.exponent_pairs_to_beta_bounds(S):
        # the trivial bound beta <= alpha, the conjectured one beta <= alpha/2
        if (b.data.bound.m, b.data.bound.c) != (want[1], 0):
            raise Bad(f"{h.desc()} gives {b.data}")
    if h.is_match("Exponent pair", 2100) != (case == "trivial"):
        raise Bad(f"{h.desc()} by year")
    ctx.step(3)
    ctx.state(case)
    ctx.outcome(case)


def groups(tier):
    return [Group("beta-to-pairs", to_pairs_cases, to_pairs), Group("pairs-to-beta", to_beta_cases, to_beta),
            Group("standard", lambda t: ["conj", "trivial"], conj)]
