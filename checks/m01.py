"""M01: the best bound on mu implied by a set of hypotheses."""
from itertools import product, combinations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis_Set
from functions import Interval
import bound_mu as bm

ID = "M01"
COVERAGE = (
    "every set of up to 4 (thorough: 6) hypotheses (and sets of 5 to 11 along cyclic walks) out of 11 (bounds on both sides of 1/2, beyond the critical strip, on the "
    "critical line, useless ones, exponent pairs, the A and B transforms, a conjecture), in two iteration orders: the best bound at 19 values of sigma "
    "equals the lower convex hull of everything generated, the piecewise bound agrees on 8 intervals, a bound is "
    "proved iff the best bound implies it, and every bound comes with a checkable derivation.  state = distinct best bound, "
    "transition = one value or derivation checked, trace = one hypothesis set"
)

H = F(1, 2)
MENU = [
    ("mu", H, F(1, 6)), ("mu", F(3, 4), F(1, 12)), ("mu", F(1, 4), F(3, 10)), ("mu", F(5, 7), F(1, 14)), ("mu", F(3, 4), F(1, 5)),
    ("mu", F(1, 3), F(1, 4)), ("pair", F(0), F(1)), ("pair", F(1, 6), F(2, 3)), ("pair", F(1, 14), F(11, 14)), ("A",), ("B",),
]
SIG = sorted({F(-1), F(0), F(1), F(2), F(3, 2), F(-1, 3), F(1, 8), F(7, 8), F(1, 3), F(2, 3), H, F(1, 4), F(3, 4), F(5, 7), F(2, 7),
              F(11, 12), F(3, 5), F(2, 5), F(9, 20)})
IVS = [(F(0), F(1)), (F(1, 3), F(9, 10)), (H, F(1)), (F(-1), F(2)), (F(-2), F(-1)), (F(5, 7), F(5, 7)), (F(1), F(3)), (F(3, 2), F(3))]


def cases(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for c in combinations(range(len(MENU)), n):
            for rev in (0, 1):
                yield [list(c), rev]
    for n, c in enumerate(windows(len(MENU), (5, 6, 8, 11), (1, 3), rev=False)):
        yield [c, n % 2]


def trivial(s):
    return H - s if s <= 0 else (F(0) if s >= 1 else (1 - s) / 2)


def gen(c, depth):
    pts = [(F(1), F(0))] + [MENU[i][1:] for i in c if MENU[i][0] == "mu"]
    ws = "".join(MENU[i][0] for i in c if MENU[i][0] in ("A", "B"))
    prs = set(M.hull([MENU[i][1:] for i in c if MENU[i][0] == "pair"]))
    for _ in range(depth):
        prs = set(M.hull(prs | {M.TRANS[w](p) for p in prs for w in ws}))
    pts = pts + [(l - k, k) for k, l in prs]
    return M.hull(pts + [(1 - a, b + a - H) for a, b in pts])


def make(c):
    out = []
    for i in c:
        m = MENU[i]
        out.append(M.mu(*m[1:]) if m[0] == "mu" else M.pair(*m[1:]) if m[0] == "pair" else M.transform(m[0]))
    return out


def check_tree(h, given, seen):
    """every derived bound in the tree follows from its dependencies"""
    if id(h) in seen or any(h is g for g in given) or h is bm.bound_mu_trivial:
        return
    seen.add(id(h))
    deps = list(h.dependencies)
    if h.hypothesis_type == "Exponent pair":
        return M.check_pair_tree(h, given)
    if h.hypothesis_type != "Upper bound on mu":
        raise Bad(f"{h} was not given")
    s, m = F(h.data.sigma), F(h.data.mu)
    if not deps:
        if m != trivial(s):
            raise Bad(f"{h.desc()} is claimed without any source")
        return
    pts = []
    for d in deps:
        if d.hypothesis_type == "Exponent pair":
            k, l = M.pt(d)
            pts.append((l - k, k))
        elif d.hypothesis_type == "Upper bound on mu":
            pts.append((F(d.data.sigma), F(d.data.mu)))
        else:
            raise Bad(f"{h.desc()} rests on {d}")
    pts += [(1 - a, b + a - H) for a, b in pts]
    v = M.lower(pts, s)
    if v is None or v > m:
        raise Bad(f"{h.desc()} does not follow from {[d.desc() for d in deps]}")
    for d in deps:
        check_tree(d, given, seen)


def run(case, ctx):
    c, rev = case
    hs = make(c)
    M.rank(hs if not rev else hs[::-1])
    # at least all words of five transforms are searched, at most five rounds of all of them
    nt = sum(MENU[i][0] in ("A", "B") for i in c)
    lo, hi = gen(c, 5), gen(c, 5 * max(nt, 1))

    def env(pts, s):
        if s <= 0 or s >= 1:
            return trivial(s)
        return min(trivial(s), M.lower(pts, s))

    S = Hypothesis_Set(hs)
    ref = {}

    def best(s):
        if s not in ref:
            T = Hypothesis_Set(hs)
            v = F(bm.best_mu_bound(s, T).data.mu)
            if not env(hi, s) <= v <= env(lo, s):
                raise Bad(f"best bound on mu({s}) from {[MENU[i] for i in c]} is {env(lo, s)}, reported {v}")
            ref[s] = v
        return ref[s]

    key = []
    for s in SIG:
        h = bm.best_mu_bound(s, S)
        if F(h.data.sigma) != s or F(h.data.mu) != best(s):
            raise Bad(f"best bound on mu({s}) from {[MENU[i] for i in c]} is {best(s)}, reported {h.data}")
        check_tree(h, hs, set())
        key.append(best(s))
        ctx.step()
    if {id(h) for h in S} != {id(h) for h in hs}:
        raise Bad("asking for a bound changed the given set")
    for a, b in IVS:
        for fresh in (True, False):
            T = Hypothesis_Set(hs) if fresh else S
            pieces = bm.best_mu_bound_piecewise(Interval(a, b, True, True), T)
            for s in sorted({x for x in SIG if a < x < b} | ({(a + b) / 2} if a < b else set())):
                vals = [p.m * s + p.c for p in pieces if p.domain.x0 <= s <= p.domain.x1]
                if not vals or any(v != best(s) for v in vals):
                    raise Bad(f"best bound at {s} on [{a},{b}] from {[MENU[i] for i in c]} is {best(s)}, reported {vals}")
                ctx.step()
            for p, q in zip(pieces, pieces[1:]):
                if p.domain.x1 != q.domain.x0:
                    raise Bad(f"pieces {pieces} do not follow each other")
            if a < b and (not pieces or pieces[0].domain.x0 != a or pieces[-1].domain.x1 != b):
                raise Bad(f"pieces {pieces} do not cover [{a},{b}]")
    for s in (F(2, 5), F(3, 4), F(1), F(-1, 3)):
        b = best(s)
        n = len(S)
        if bm.prove_mu_bound(s, b - F(1, 10 ** 9), S) or len(S) != n:
            raise Bad(f"mu({s}) <= {b} - epsilon was claimed")
        T = Hypothesis_Set(hs)
        r = bm.prove_mu_bound(s, b, T)
        if not r or r.data.mu != b or not any(r is x for x in T):
            raise Bad(f"mu({s}) <= {b} was not proved and recorded")
        r = bm.prove_mu_bound(s, b + F(1, 7), S)
        if not r or r.data.mu > b + F(1, 7) or not any(r is x for x in S):
            raise Bad(f"mu({s}) <= {b} + 1/7 was not proved and recorded")
        if F(bm.best_mu_bound(F(9, 20), S).data.mu) != best(F(9, 20)):
            raise Bad("recording a proved bound changed another bound")
        check_tree(r, hs, set())
        ctx.step(3)
    ctx.state(tuple(key))
    ctx.outcome(best(H))


def conv_cases(tier):
    for i in range(9):
        for s in SIG:
            yield [i, str(s)]


def conv(case, ctx):
    i, s = case[0], F(case[1])
    kind, a, b = MENU[i]
    if F(bm.trivial_mu_bound(s)) != trivial(s) or F(bm.apply_trivial_mu_bound(s).data.mu) != trivial(s):
        raise Bad(f"trivial bound at {s}: {bm.trivial_mu_bound(s)}")
    if kind == "pair":
        p = M.pair(a, b)
        h = bm.obtain_mu_bound_from_exponent_pair(p)
        want = (b - a, a)
        deps = {id(p)}
    else:
        p = M.mu(a, b)
        h = bm.apply_functional_equation(p)
        want = (1 - a, a + b - H)
        deps = {id(p)}
        t = abs(s) / 3
        if 0 <= t <= 1:
            q = M.mu(F(1, 5), F(2, 5))
            g = bm.apply_mu_convexity(p, q, t)
            w = ((1 - t) * a + t * F(1, 5), (1 - t) * b + t * F(2, 5))
            if (F(g.data.sigma), F(g.data.mu)) != w or {id(d) for d in g.dependencies} != {id(p), id(q)}:
                raise Bad(f"convexity of {p.desc()} and {q.desc()} at {t}: {g.desc()}, expected {w}")
    if (F(h.data.sigma), F(h.data.mu)) != want or {id(d) for d in h.dependencies} != deps:
        raise Bad(f"{p.desc()} gives {h.desc()}, expected {want}")
    ctx.step(3)
    ctx.state(case)
    ctx.outcome(want)


def groups(tier):
    return [Group("best-bounds", cases, run), Group("rules", conv_cases, conv)]
