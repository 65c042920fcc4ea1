"""B01: the best bound on beta implied by a set of bounds, with its sources."""
from itertools import product, combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis, Hypothesis_Set
from functions import Affine, Interval
from bound_beta import Bound_beta
import bound_beta as bb

ID = "B01"
COVERAGE = (
    "every set of up to 4 (thorough: 6) bounds out of a family of affine bounds on closed, half-open and singleton "
    "intervals (crossing, touching, equal, nested, adjacent, with gaps, beyond 1/2), in every order of processing (three orders from four bounds on), and 5 to 9 bounds in the order of every cyclic walk through the family, on the "
    "default domain and two others: value at every end point, crossing and midpoint, no overlaps, and every piece is a given "
    "bound or derived from exactly one given bound that holds there and equals it; the given bounds stay as they were.  state = "
    "distinct envelope, transition = one point compared, trace = one call"
)

H = F(1, 2)
BOUNDS = [
    (F(1), F(0), (F(0), F(1), True, True)),
    (F(1, 2), F(1, 6), (F(0), H, True, True)),
    (F(1, 2), F(1, 6), (F(1, 4), F(3, 4), False, True)),
    (F(0), F(1, 3), (F(0), H, True, True)),
    (F(2, 3), F(1, 12), (F(1, 8), F(1, 3), True, False)),
    (F(0), F(1, 4), (F(1, 4), F(1, 4), True, True)),
    (F(-1), F(3, 4), (F(1, 4), H, True, True)),
    (F(1), F(1, 24), (F(0), F(1, 4), True, False)),
    (F(1), F(-1), (F(1), F(2), False, True)),
]
DOMS = [None, (F(1, 5), F(3, 2), True, False), (F(1, 3), F(1, 3), True, True)]


def contains(iv, x):
    a, b, ia, ib = iv
    return (a < x or (a == x and ia)) and (x < b or (x == b and ib))


def cases(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for c in combinations(range(len(BOUNDS)), n):
            for p in permutations(c) if n < 4 else [c, c[::-1], (c[2], c[0], c[3], c[1]) + c[4:]]:
                for d in range(len(DOMS)):
                    yield [list(p), d]
    for c in windows(len(BOUNDS), (5, 6, 7, 8, 9), (1, 2, 4)):
        for d in range(len(DOMS)):
            yield [c, d]


def run(case, ctx):
    c, d = case
    hs = [Hypothesis(f"b{i}", "Upper bound on beta", Bound_beta(Affine(BOUNDS[i][0], BOUNDS[i][1], Interval(*BOUNDS[i][2]))),
                     "given", M.ref(1950 + i)) for i in c]
    M.rank(hs)
    S = Hypothesis_Set(hs + [M.pair(0, 1), M.mu(F(1, 2), F(1, 6))])
    dom = DOMS[d] or (F(0), H, True, True)
    got = bb.compute_best_beta_bounds(S) if d == 0 else bb.compute_best_beta_bounds(S, Interval(*dom))
    for i, h in zip(c, hs):
        b = h.data.bound
        if (b.m, b.c, b.domain.x0, b.domain.x1, b.domain.include_lower, b.domain.include_upper) != (*BOUNDS[i][:2], *BOUNDS[i][2]) \
                or b.label is not None or h.dependencies:
            raise Bad(f"bound {BOUNDS[i]} was changed to {b}")
    xs = {dom[0], dom[1]}
    for i in c:
        xs |= {BOUNDS[i][2][0], BOUNDS[i][2][1]}
    for i, j in combinations(c, 2):
        (m, e, _), (n, f, _) = BOUNDS[i], BOUNDS[j]
        if m != n:
            xs.add((f - e) / (m - n))
    xs = sorted(xs)
    xs = sorted(set(xs) | {(a + b) / 2 for a, b in zip(xs, xs[1:])} | {xs[0] - 1, xs[-1] + 1})
    key = []
    for x in xs:
        here = {i: BOUNDS[i][0] * x + BOUNDS[i][1] for i in c if contains(BOUNDS[i][2], x)} if contains(dom, x) else {}
        want = min(here.values()) if here else None
        at = [h for h in got if h.data.bound.domain.contains(x)]
        ctx.step()
        if want is None:
            if at:
                raise Bad(f"a bound is claimed at {x}, outside: {at[0].data}")
            continue
        if len(at) != 1:
            raise Bad(f"{len(at)} bounds at {x} from {[BOUNDS[i] for i in c]} on {dom}: {[h.data for h in at]}")
        h = at[0]
        v = h.data.bound.m * x + h.data.bound.c
        if v != want or h.data.bound.at(x) != want:
            raise Bad(f"best bound at {x} from {[BOUNDS[i] for i in c]} on {dom} is {want}, reported {v}")
        src = [h] if any(h is g for g in hs) else list(h.dependencies)
        if len(src) != 1 or not any(src[0] is g for g in hs):
            raise Bad(f"the bound at {x} is attributed to {src}")
        i = c[[k for k, g in enumerate(hs) if g is src[0]][0]]
        if here.get(i) != want:
            raise Bad(f"the bound at {x} is attributed to {BOUNDS[i]}, which does not give {want}")
        if h.data.bound.label is not None:
            raise Bad("a working label is left behind")
        key.append(v)
    ctx.state((tuple(key), d))
    ctx.outcome((len(c), len(got)))


def groups(tier):
    return [Group("envelopes", cases, run)]
