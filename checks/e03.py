"""E03: the search for the best proof of an exponent pair: complete, sound, and dated correctly."""
from itertools import product, combinations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis, Hypothesis_Set
from constants import Proof_Optimization_Method as POM
from functions import Affine, Interval
from bound_beta import Bound_beta
import exponent_pair as ep

ID = "E03"
COVERAGE = (
    "every set of up to 4 hypotheses (and 6, 8 or all 10 in the order of cyclic walks; thorough: all subsets of up to 6) out of 10: dated, classical, conjectured and undated "
    "exponent pairs, the A and B transforms and beta bounds, for 6 target pairs and the three search methods: a proof is found "
    "whenever the target lies in the hull of what is generated within five transforms, every proof is a checkable "
    "derivation from the given hypotheses, and a proof by date uses nothing newer than the earliest year in which the target "
    "follows.  state = (hypotheses, target, found), transition = one search, trace = one hypothesis set"
)
ASSUMPTIONS = ["searches by size are run where the generated set stays small (it grows exponentially otherwise)"]

H12 = F(1, 2)
MENU = [
    ("pair", F(0), F(1), "classical"), ("pair", F(1, 6), F(2, 3), 1930), ("A", 1920), ("B", 1925),
    ("pair", F(1, 14), F(11, 14), 1950), ("pair", F(0), H12, "conj"), ("pair", F(9, 56), F(37, 56), "unknown"),
    ("beta", F(1), F(0), F(0), H12, 1900), ("beta", F(1, 2), F(1, 10), F(1, 4), H12, 1960),
    ("beta", F(1, 2), F(1, 8), F(0), F(1, 3), 1940),
]
TARGETS = [(F(1, 6), F(2, 3)), (F(1, 4), F(3, 4)), (F(2, 7), F(4, 7)), (F(1, 12), F(5, 6)), (F(1, 10), F(7, 10)), (F(1, 5), F(3, 5))]
INF = float("inf")


def year_of(m):
    y = m[-1]
    return {"classical": -1, "conj": INF, "unknown": None}.get(y, y)


def build(c):
    out = []
    for i in c:
        m = MENU[i]
        if m[0] == "pair":
            out.append(M.pair(m[1], m[2], m[3], name=f"p{i}"))
        elif m[0] == "beta":
            out.append(Hypothesis(f"beta{i}", "Upper bound on beta", Bound_beta(Affine(m[1], m[2], Interval(m[3], m[4], True, True))),
                                  "given", M.ref(m[5])))
        else:
            out.append(M.transform(m[0], m[1]))
    M.rank(out)
    return out


def beta_at(c, x):
    vals = [MENU[i][1] * x + MENU[i][2] for i in c if MENU[i][0] == "beta" and MENU[i][3] <= x <= MENU[i][4]]
    return min(vals) if vals else None


_bp = {}


def beta_crit(c):
    xs = {F(0), H12}
    bs = [MENU[i] for i in c if MENU[i][0] == "beta"]
    for b in bs:
        xs |= {b[3], b[4]}
    for a, b in combinations(bs, 2):
        if a[1] != b[1]:
            x = (b[2] - a[2]) / (a[1] - b[1])
            if 0 <= x <= H12:
                xs.add(x)
    return sorted(xs)


def beta_sup(c, x):
    """limit superior of the best bound at x (bounds are closed: take both sides)"""
    vals = []
    for s in (-1, 0, 1):
        # one-sided limits of the best bound
        cand = [MENU[i] for i in c if MENU[i][0] == "beta"]
        if s == 0:
            cand = [b for b in cand if b[3] <= x <= b[4]]
        elif s < 0:
            if x == 0:
                continue
            cand = [b for b in cand if b[3] < x <= b[4]]
        else:
            if x == H12:
                continue
            cand = [b for b in cand if b[3] <= x < b[4]]
        v = [b[1] * x + b[2] for b in cand]
        vals.append(min(v) if v else None)
    return None if None in vals else max(vals)


def beta_pairs(c):
    """exponent pairs dual to the concave hull of the best beta bound"""
    key = tuple(i for i in c if MENU[i][0] == "beta")
    if key not in _bp:
        pts = []
        for x in beta_crit(key):
            v = beta_sup(key, x)
            if v is None:
                pts = None
                break
            pts.append((x, v))
        res = []
        if pts:
            h = M.hull(pts + [(F(0), F(-1)), (H12, F(-1))])
            for a, b in zip(h, h[1:] + h[:1]):
                if a[0] > b[0] and a[1] >= 0 and b[1] >= 0:
                    m = (b[1] - a[1]) / (b[0] - a[0])
                    k = a[1] - m * a[0]
                    res.append((k, m + k))
        _bp[key] = res
    return _bp[key]


_hulls = {}


def reach_hull(c, depth, beta=True):
    key = (tuple(c), depth, beta)
    if key not in _hulls:
        pts = [(MENU[i][1], MENU[i][2]) for i in c if MENU[i][0] == "pair"]
        ws = "".join(MENU[i][0] for i in c if MENU[i][0] in "AB")
        if beta:
            pts += beta_pairs(c)
        cur = set(M.hull(pts))
        for _ in range(depth):
            cur = set(M.hull(cur | {M.TRANS[w](p) for p in cur for w in ws}))
        _hulls[key] = M.hull(cur)
    return _hulls[key]


def cases(tier):
    n = 4 if tier == "quick" else 6
    for k in range(n + 1):
        for c in combinations(range(len(MENU)), k):
            yield list(c)
    if tier == "quick":
        for i, c in enumerate(windows(len(MENU), (6, 8, 10), (1, 3), rev=False)):
            yield c if i % 2 else c[::-1]


def justify(c, given):
    def extra(h):
        deps = list(h.dependencies)
        if h.hypothesis_type != "Exponent pair" or not deps or any(d.hypothesis_type != "Upper bound on beta" for d in deps):
            return False
        k, l = M.pt(h)
        for x in beta_crit(c):
            v = beta_sup(c, x)
            if v is None or k + (l - k) * x < v:
                raise Bad(f"{h.desc()} does not follow from the beta bounds at {x}")
        for d in deps:
            if not any(d is g for g in given) and any(not any(e is g for g in given) for e in d.dependencies):
                raise Bad(f"{d.desc()} rests on {d.dependencies}")
        # the bounds cited, on their own, imply the pair
        names = {e.name for d in deps for e in ([d] if any(d is g for g in given) else d.dependencies)}
        own = [i for i in c if f"beta{i}" in names]
        for x in beta_crit(own):
            v = beta_sup(own, x)
            if v is None or k + (l - k) * x < v:
                raise Bad(f"{h.desc()} does not follow from the bounds it cites, {sorted(names)}, at {x}")
        return True
    return extra


def run(case, ctx):
    c = case
    years = sorted({year_of(MENU[i]) for i in c} - {None})
    for q in TARGETS:
        for method in (POM.NONE, POM.DATE, POM.COMPLEXITY):
            if method == POM.COMPLEXITY:
                ab = {"A", "B"} <= {MENU[i][0] for i in c}
                if ab and not M.in_hull(reach_hull(c, 2, False), q):
                    continue
            hs = build(c)
            S = Hypothesis_Set(hs)
            h = ep.find_best_proof(*q, S, method)
            ctx.step()
            if {id(x) for x in S} != {id(x) for x in hs}:
                raise Bad(f"the search changed the given set")
            must = M.in_hull(reach_hull(c, 5), q)
            if method == POM.DATE and not years:
                must = False      # nothing is dated: there is no year to search
            if h is None:
                if must:
                    raise Bad(f"{q} follows from {[MENU[i] for i in c]} but no proof was found (method {method})")
            else:
                if M.pt(h) != q:
                    raise Bad(f"a proof of {q} was asked for, {h.desc()} returned")
                use = c
                if method == POM.DATE:
                    first = next((y for y in years if M.in_hull(reach_hull(
                        [i for i in c if year_of(MENU[i]) is None or year_of(MENU[i]) <= y], 5), q)), INF)
                    if h.proof_date() > first:
                        raise Bad(f"{q} could be proved in {first}; the proof dates from {h.proof_date()}")
                    use = [i for i in c if year_of(MENU[i]) is None or year_of(MENU[i]) <= first]
                M.check_pair_tree(h, [x for x, i in zip(hs, c) if i in use], justify(use, hs))
            ctx.state((c, q, h is not None))
            ctx.outcome((method, h is not None))


def groups(tier):
    return [Group("search", cases, run)]
