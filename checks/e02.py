"""E02: a proof of an exponent pair is found exactly when it follows by convexity, and it is a proof."""
from itertools import product, combinations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis_Set
import exponent_pair as ep

ID = "E02"
COVERAGE = (
    "every set of up to 4 (thorough: 5) exponent pairs out of 9 grid points (collinear and interior ones included; and sets of 5 to 9 in the order of cyclic walks) with "
    "several assignments of proof sizes, queried for every grid point and several centroids, with and without reducing "
    "dependencies and searching the interior, in two iteration orders: existence of a proof, validity of the convex "
    "combination, number of dependencies and least total size among all triangles.  "
    "state = distinct (set, target), transition = one request, trace = one set"
)

G = [(F(0), F(1)), (F(1, 2), F(1, 2)), (F(0), F(1, 2)), (F(1, 4), F(3, 4)), (F(1, 4), F(1, 2)), (F(1, 8), F(5, 8)),
     (F(0), F(3, 4)), (F(1, 6), F(2, 3)), (F(1, 4), F(5, 8))]
Q = sorted(set(G) | {(F(i, 16), F(j, 16)) for i in range(0, 9, 2) for j in range(8, 17, 2) if i + j <= 16}
           | {(F(1, 16), F(15, 16)), (F(1, 6), F(7, 12)), (F(1, 12), F(3, 4)), (F(1, 2), F(3, 4)), (F(-1, 8), F(1))})
SIZES = [[1] * 9, [3, 1, 2, 1, 3, 1, 1, 2, 4], [1, 3, 1, 4, 2, 6, 1, 1, 2], [2, 2, 5, 1, 1, 1, 3, 1, 2]]


def cases(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for c in combinations(range(len(G)), n):
            for s in range(len(SIZES)):
                if s and n < 3:
                    continue
                for rev in (0, 1):
                    yield [list(c), s, rev]
    for i, c in enumerate(windows(len(G), (5, 6, 7, 8, 9), (1, 2, 4))):
        for s in range(len(SIZES)):
            if tier != "quick" or i % 4 == s:
                yield [c, s, 0]


def build(c, s, rev):
    hs = [M.pair(*G[i], name=f"p{i}") for i in c]
    for i, h in enumerate(hs):
        for j in range(SIZES[s][i] - 1):
            h.add_dependency(M.pair(0, 1, name=f"step{j}"))
    M.rank(hs if not rev else hs[::-1])
    return hs


def run(case, ctx):
    c, s, rev = case
    hs = build(c, s, rev)
    pts = [G[i] for i in c]
    size = {id(h): SIZES[s][i] for i, h in enumerate(hs)}
    corners = set(M.hull(pts))
    noise = [M.mu(F(1, 2), F(1, 6)), M.transform("A")]
    for q in Q:
        inside = M.in_hull(pts, q)
        opt = {}
        if inside and q not in pts:
            for deep in (True, False):
                use = [h for h in hs if deep or M.pt(h) in corners]
                opt[deep] = min((sum(size[id(h)] for h in t) for t in combinations(use, min(3, len(use)))
                                 if M.in_hull([M.pt(h) for h in t], q)), default=None)
        for red, deep in product((True, False), repeat=2):
            S = Hypothesis_Set(hs + noise)
            h = ep.construct_proof(*q, S, reduce_dependencies=red, deep_search=deep)
            ctx.step()
            if (h is not None) != inside:
                raise Bad(f"{q} from {pts}: {'no proof found' if h is None else h.desc()}")
            if h is None:
                continue
            if M.pt(h) != q or h.hypothesis_type != "Exponent pair":
                raise Bad(f"a proof of {q} was asked for, {h.desc()} returned")
            if q in pts:
                if h is not hs[pts.index(q)]:
                    raise Bad(f"{q} is given, yet derived")
                continue
            M.check_pair_tree(h, hs)
            deps = list(h.dependencies)
            if any(not any(d is x for x in hs) for d in deps):
                raise Bad(f"{h.desc()} depends on {deps}, not all given")
            if red:
                if len(deps) > 3:
                    raise Bad(f"{q} rests on {len(deps)} pairs")
                tot = sum(size[id(d)] for d in deps)
                if tot > opt[deep]:
                    raise Bad(f"{q} from {[d.desc() for d in deps]}: total size {tot}, possible {opt[deep]}")
            if h.proof_complexity() != 1 + sum(size[id(d)] for d in deps):
                raise Bad("size of the proof")
        ctx.state((pts, q))
    ctx.outcome((len(pts), len(corners)))


def groups(tier):
    return [Group("proofs", cases, run)]
