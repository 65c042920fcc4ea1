"""Z03: zero density estimates implied by exponent pairs."""
from itertools import combinations, permutations, product
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.ratf import exact
from mc import hyps as M
import zero_density_estimate as zd
from hypotheses import Hypothesis_Set
from functions import Interval

ID = "Z03"
COVERAGE = (
    "Ivic's theorem for every set and order of up to 3 (thorough: 4) of 9 exponent pairs and every m from 2 to 9 (thorough: 20), the five published cases, "
    "and the whole derivation from small sets of pairs and transforms (thorough: the literature); Bourgain's theorem: range conditions, formula and the published optimal table at "
    "9 points of every piece and around every break point.  state = distinct estimate, transition = one value or condition compared, trace = one call"
)
ASSUMPTIONS = []

PAIRS = [(F(0), F(1)), (F(1, 6), F(2, 3)), (F(1, 2), F(1, 2)), (F(2, 7), F(4, 7)), (F(13, 84), F(55, 84)), (F(97, 251), F(132, 251)),
         (F(1, 14), F(11, 14)), (F(9, 56), F(37, 56)), (F(3, 40), F(31, 40))]


def limit(pairs, m):
    """smallest sigma for which the general zero density estimate holds"""
    def third(k, l):
        return (3 * m ** 2 * (1 + 2 * k + 2 * l) - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m ** 2 * (1 + 2 * k + 2 * l) - (6 * k + 4 * l) * m + 2 * k + 2 * l)
    a = F(6 * m ** 2 - 5 * m + 2, 8 * m ** 2 - 7 * m + 2)
    b = F(9 * m ** 2 - 4 * m + 2, 12 * m ** 2 - 6 * m + 2)
    return min([a] + [max(b, third(k, l)) for k, l in pairs])


def check_ivic(h, m, pairs, ctx, leaf):
    if h.hypothesis_type != "Zero density estimate":
        raise Bad(f"the result has type {h.hypothesis_type}")
    lo = limit(pairs, m)
    iv = h.data.interval
    if exact(iv.x0) != lo or exact(iv.x1) != 1:
        raise Bad(f"m = {m}, pairs {pairs}: the estimate is claimed on {iv}, it holds from {lo} on")
    for j in range(9):
        s = lo + (1 - lo) * F(j, 9)
        v = exact(h.data.at(s))
        want = F(3 * m) / ((3 * m - 2) * s + 2 - m)
        ctx.step()
        if v != want:
            raise Bad(f"m = {m}: A({s}) <= {v}, the theorem gives {want}")
    deps = list(h.dependencies)
    if len(deps) > 1 or not all(leaf(d) for d in deps):
        raise Bad(f"the estimate rests on {deps}")
    if limit([M.pt(d) for d in deps], m) != lo:
        raise Bad(f"the cited {deps} gives the estimate only from {limit([M.pt(d) for d in deps], m)} on, not from {lo}")
    ctx.state((m, lo))


def ivic_cases(tier):
    n = 3 if tier == "quick" else 4
    for m in range(2, 10 if tier == "quick" else 21):
        for k in range(1, n + 1):
            for c in combinations(range(len(PAIRS)), k):
                yield [m, list(c)]
                if k > 1:
                    yield [m, list(c[::-1])]


def run_ivic(case, ctx):
    m, c = case
    hs = [M.pair(*PAIRS[i], year=1950 + i) for i in c]
    h = zd.ivic_ep_to_zd(hs, m=m)
    check_ivic(h, m, [PAIRS[i] for i in c], ctx, lambda d: any(d is g for g in hs))
    if m == 2:
        check_ivic(zd.ivic_ep_to_zd(hs), 2, [PAIRS[i] for i in c], ctx, lambda d: any(d is g for g in hs))
    ctx.outcome((m, len(c), str(h.data.interval.x0)))


PUBLISHED = [(2, (F(97, 251), F(132, 251)), F(3831, 4791), ([3], [2, 0])), (3, (0, 1), F(41, 53), ([9], [7, -1])), (4, (0, 1), F(13, 17), ([6], [5, -1])),
             (5, (0, 1), F(127, 167), ([15], [13, -3])), (6, (0, 1), F(47, 62), ([9], [8, -2]))]


def published_cases(tier):
    return range(len(PUBLISHED))


def run_published(case, ctx):
    m, p, lo, (num, den) = PUBLISHED[case]
    h = zd.ivic_ep_to_zd([M.pair(*p)], m=m)
    if exact(h.data.interval.x0) != lo:
        raise Bad(f"published from {lo} on, obtained on {h.data.interval}")
    for j in range(9):
        s = lo + (1 - lo) * F(j, 9)
        want = F(num[0]) / (den[0] * s + den[1])
        if exact(h.data.at(s)) != want:
            raise Bad(f"published {want} at {s}, obtained {h.data}")
        ctx.step()
    ctx.outcome(m)


# ---------------------------------------------------------------- Bourgain
TABLE = [
    (F(3, 4), F(14, 15), (11, 48, -36)), (F(14, 15), F(2841, 3016), (391, 2493, -2014)), (F(2841, 3016), F(859, 908), (22232, 163248, -134765)),
    (F(859, 908), F(635113, 655952), (4406612, 33911310, -28181831)), (F(635113, 655952), F(637457, 656512), (3918, 49189, -43490)),
    (F(637457, 656512), F(39, 40), (2351558, 39632665, -35918731)), (F(39, 40), F(59, 60), (1780, 35670, -32717)), (F(59, 60), F(1), (6, 303, -290)),
]


def admissible(k, l, s):
    if not (k <= F(1, 5) and l >= F(3, 5) and 15 * l + 20 * k >= 13 and 2 * (k + 1) * s >= l + 1):
        return False
    return k <= F(11, 85) or s >= (144 * k - 11 * l - 11) / (170 * k - 22)


def check_bourgain(got, ctx):
    for h in got:
        if h.hypothesis_type != "Zero density estimate":
            raise Bad(f"the result has type {h.hypothesis_type}")
        deps = list(h.dependencies)
        if len(deps) != 1 or deps[0].hypothesis_type != "Exponent pair":
            raise Bad(f"an estimate of Bourgain's rests on {deps}")
        k, l = M.pt(deps[0])
        lo, hi = exact(h.data.interval.x0), exact(h.data.interval.x1)
        for j in range(1, 10):
            s = lo + (hi - lo) * F(j, 10)
            if not admissible(k, l, s):
                raise Bad(f"the pair ({k}, {l}) gives no estimate at {s}")
            v, want = exact(h.data.at(s)), 4 * k / (2 * (1 + k) * s - 1 - l)
            ctx.step()
            if v != want:
                raise Bad(f"A({s}) <= {v} claimed from the pair ({k}, {l}), which gives {want}")
    eps = F(1, 10 ** 12)
    for lo, hi, (n, d1, d0) in TABLE:
        for s in [lo + eps, hi - eps] + [lo + (hi - lo) * F(j, 10) for j in range(1, 10)]:
            here = [h for h in got if h.data.interval.contains(s)]
            ctx.step()
            if len(here) != 1 or exact(here[0].data.at(s)) != F(n) / (d1 * s + d0):
                raise Bad(f"published A({s}) <= {F(n) / (d1 * s + d0)}, obtained {[str(h.data) for h in here]}")


def bourgain_cases(tier):
    yield 0


def run_bourgain(case, ctx):
    got = zd.bourgain_ep_to_zd()
    check_bourgain(got, ctx)
    ctx.state(tuple(str(h.data) for h in got))
    ctx.outcome(len(got))


# ---------------------------------------------------------------- everything
def all_cases(tier):
    for c in ([0], [0, 1], [0, 4], [1, 2], [0, 5]):
        for t in ([""] if tier == "quick" and len(c) > 1 else ["", "A", "AB"]) + (["AB"] if c == [0, 4] else []):
            yield [c, t]
    yield "literature"


def run_all(case, ctx):
    import exponent_pair as ep
    if case == "literature":
        from literature import literature
        S = Hypothesis_Set()
        for t in ("Exponent pair", "Exponent pair transform", "Upper bound on beta"):
            S.add_hypotheses(literature.list_hypotheses(hypothesis_type=t))
        given = S.list_hypotheses()
    else:
        c, t = case
        given = [M.pair(*PAIRS[i], year=1950 + i) for i in c] + [M.transform(w) for w in t]
        M.rank(given)
        S = Hypothesis_Set(given)
    got = zd.ep_to_zd(S)
    check_bourgain(got[:-1], ctx)
    if case == "literature":
        pts = [M.pt(h) for h in ep.beta_bounds_to_exponent_pairs(S)]
        for h in got[:-1]:
            p = M.pt(next(iter(h.dependencies)))
            if not M.in_hull(pts, p):
                raise Bad(f"the exponent pair {p} behind {h.data} does not follow from the literature")
    else:
        pts = M.closure([PAIRS[i] for i in c], t, 5)
    leaves = lambda d: set(x for x in rec(d))

    def rec(d):
        if any(d is g for g in given):
            return [d]
        out = []
        for e in d.dependencies:
            out += rec(e)
        return out
    check_ivic(got[-1], 2, pts, ctx, lambda d: d.hypothesis_type == "Exponent pair" and M.in_hull(pts, M.pt(d)) and bool(leaves(d)))
    ctx.outcome(str(case))


def groups(tier):
    return [
        Group("Ivic", ivic_cases, run_ivic),
        Group("published cases", published_cases, run_published, chunk=1),
        Group("Bourgain", bourgain_cases, run_bourgain, chunk=1),
        Group("from hypotheses", all_cases, run_all),
    ]
