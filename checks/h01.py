"""H01: what a hypothesis set answers depends on what it contains, not on its history."""
from itertools import product
from fractions import Fraction as F
import copy
from mc.core import Group, Bad
from mc import hyps as M
from hypotheses import Hypothesis_Set
import exponent_pair as ep
import bound_mu as bm
from functions import Interval

ID = "H01"
COVERAGE = (
    "every sequence of at most 4 (thorough: 5; quick: those of 5 that add, query, copy and add again) operations over a menu of additions (single hypothesis, list, "
    "set; exponent pairs, mu bounds, transforms), copies, switches between original and copy, and queries that fill "
    "caches (hull of pairs, best and piecewise mu bound, proof of a pair, proving a mu bound); every query along the way, and "
    "all queries on all sets at the end, are compared with exact values computed from the contents alone.  state = "
    "(contents of all sets, kind of last operation), transition = one operation, trace = one sequence"
)
ASSUMPTIONS = ["contents change through the adding operations of the set, not by mutating hypotheses already in it"]

P = [(F(0), F(1)), (F(1, 2), F(1, 2)), (F(1, 6), F(2, 3)), (F(1, 9), F(13, 18))]
MU = [(F(1, 2), F(1, 6)), (F(3, 4), F(1, 20))]
SIG = [F(1, 2), F(3, 4), F(1, 3)]
TARGET = (F(1, 5), F(7, 10))

OPS = [
    ("pair", 0), ("pair", 1), ("pair", 2), ("mu", 0), ("list",), ("set",), ("A",), ("copy",), ("swap",),
    ("hull?",), ("mu?", 0), ("pw?",), ("proof?",), ("prove",),
]

class World:
    def __init__(self):
        self.H = {("p", i): M.pair(*p) for i, p in enumerate(P)}
        self.H.update({("m", i): M.mu(*m) for i, m in enumerate(MU)})
        self.H["A"] = M.transform("A")
        M.rank(list(self.H.values()))
        self.sets = [(Hypothesis_Set(), set())]
        self.cur = 0


def points(model):
    return [P[k[1]] for k in model if k[0] == "p"]


_cache = {}


def mu_points(model):
    key = frozenset(model)
    if key not in _cache:
        pts = [(F(1), F(0))] + [MU[k[1]] for k in model if k[0] == "m"]
        pts += [(l - k, k) for k, l in M.closure(points(model), "A" if "A" in model else "", 5)]
        pts += [(1 - s, m + s - F(1, 2)) for s, m in pts]
        _cache[key] = M.hull(pts)
    return _cache[key]


def best(model, s):
    return min(M.lower(mu_points(model), s), (1 - s) / 2)


def q_hull(S, m, ctx):
    got = [M.pt(h) for h in ep.compute_convex_hull(S)]
    want = points(m)
    if not set(got) <= set(want) or M.hull(got) != M.hull(want):
        raise Bad(f"the hull of the pairs {want} is reported as {got}")


def q_mu(S, m, s, ctx):
    got = bm.best_mu_bound(s, S)
    if F(got.data.mu) != best(m, s) or F(got.data.sigma) != s:
        raise Bad(f"best bound on mu({s}) is {best(m, s)}, reported {got.data} with {sorted(map(str, m))}")


def q_pw(S, m, ctx):
    pieces = bm.best_mu_bound_piecewise(Interval(F(1, 4), F(3, 4), True, True), S)
    for s in [F(1, 4), F(1, 3), F(2, 5), F(1, 2), F(3, 5), F(3, 4)]:
        vals = [f.m * s + f.c for f in pieces if f.domain.x0 <= s <= f.domain.x1]
        if not vals or any(v != best(m, s) for v in vals):
            raise Bad(f"piecewise best bound on mu({s}) is {best(m, s)}, reported {vals} with {sorted(map(str, m))}")


def q_proof(S, m, ctx):
    h = ep.construct_proof(*TARGET, S, reduce_dependencies=True, deep_search=False)
    if (h is not None) != M.in_hull(points(m), TARGET):
        raise Bad(f"{TARGET} from {points(m)}: {h}")
    if h is not None:
        M.check_pair_tree(h, list(S))


def run(case, ctx):
    w = World()
    for op in case:
        S, m = w.sets[w.cur]
        k = op[0]
        if k == "pair":
            S.add_hypothesis(w.H[("p", op[1])])
            m.add(("p", op[1]))
        elif k == "mu":
            S.add_hypothesis(w.H[("m", op[1])])
            m.add(("m", op[1]))
        elif k == "list":
            S.add_hypotheses([w.H[("p", 3)], w.H[("m", 1)]])
            m |= {("p", 3), ("m", 1)}
        elif k == "set":
            S.add_hypotheses(Hypothesis_Set([w.H[("p", 2)], w.H[("m", 0)]]))
            m |= {("p", 2), ("m", 0)}
        elif k == "A":
            S.add_hypothesis(w.H["A"])
            m.add("A")
        elif k == "copy":
            if len(w.sets) < 3:
                w.sets.append((copy.copy(S), set(m)))
                w.cur = len(w.sets) - 1
        elif k == "swap":
            w.cur = (w.cur + 1) % len(w.sets)
        elif k == "hull?":
            q_hull(S, m, ctx)
        elif k == "mu?":
            q_mu(S, m, SIG[op[1]], ctx)
        elif k == "pw?":
            q_pw(S, m, ctx)
        elif k == "proof?":
            q_proof(S, m, ctx)
        elif k == "prove":
            b = best(m, SIG[1])
            r = bm.prove_mu_bound(SIG[1], b, S)
            if not r or r.data.mu != b:
                raise Bad(f"mu({SIG[1]}) <= {b} was not proved: {r}")
            if bm.prove_mu_bound(SIG[1], b - F(1, 1000), S):
                raise Bad(f"mu({SIG[1]}) <= {b - F(1, 1000)} was claimed")
        ctx.step()
        ctx.state((tuple(tuple(sorted(map(str, x[1]))) for x in w.sets), k))
    for S, m in w.sets:
        q_mu(S, m, SIG[0], ctx)
        q_hull(S, m, ctx)
        q_pw(S, m, ctx)
        q_proof(S, m, ctx)
        q_mu(S, m, SIG[2], ctx)
        ctx.step(5)
    ctx.outcome((len(w.sets), tuple(len(x[1]) for x in w.sets)))


def cases(tier):
    for c in product(OPS, repeat=4 if tier == "quick" else 5):
        # adding the same thing twice in a row does nothing new
        if any(a == b and a[0] in ("pair", "list", "set", "A") for a, b in zip(c, c[1:])):
            continue
        yield [list(o) for o in c]
    if tier == "quick":
        # length five: something is added, cached, copied or switched, and extended after that
        add, ask = [o for o in OPS if o[0] in ("pair", "mu", "list", "set", "A")], [o for o in OPS if o[0][-1] == "?" or o[0] == "prove"]
        for a, q in product(add, ask):
            for c in product(OPS, repeat=3):
                kinds = [o[0] for o in c]
                if "copy" in kinds[:2] and any(o in add for o in c[1:]) and not any(x == y and x in add for x, y in zip((q,) + c, c)):
                    yield [list(o) for o in (a, q) + c]


def groups(tier):
    return [Group("histories", cases, run)]
