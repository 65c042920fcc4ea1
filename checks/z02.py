"""Z02: the best zero density estimate is the smallest given one, with its source."""
from itertools import combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.ratf import exact
from mc import hyps as M, envel as E
import zero_density_estimate as zd
from hypotheses import Hypothesis_Set
from functions import Interval

ID = "Z02"
COVERAGE = (
    "every set of up to 3 (thorough: 4; and sets of 5 to 13 along cyclic walks) of 17 estimates (constants, affine, Mobius, quadratic, cubic and square root functions on nested, touching, overlapping and half "
    "ranges of [1/2, 1], with every choice of open and closed ends, with poles outside their own range, with and without gaps), given as text, as a function or as a derived estimate with "
    "dependencies, in two iteration orders: at every rational test point the best estimate has exactly the smallest given value, one piece covers the point, "
    "and it names, cites and depends on what a given estimate attaining the minimum does; values, ranges and printed texts of single estimates.  state "
    "= distinct envelope, transition = one value compared, trace = one call"
)
ASSUMPTIONS = ["compared at midpoints between range ends and multiples of 1/80, not at ends of ranges"]
TYPE = "Zero density estimate"


def make(i, form, year, k=0):
    f = E.FAM[i][0]
    iv = E.rng(i, k)
    if form == "text":
        S = Hypothesis_Set()
        zd.add_zero_density(S, f.expr(), iv, M.ref(year), f" number {i}")
        return S.list_hypotheses()[0]
    data = zd.Zero_Density_Estimate.from_rational_func(f.lib(), iv)
    return zd.derived_zero_density_estimate(data, f"proof {i}", {M.mu(F(i, 20), 1, year), M.pair(F(1, 6), F(2, 3), year - 1)})


def cases(tier):
    forms = ["text", "derived"]
    n = 0
    for c in E.combos(tier):
        n += 1
        yield [list(c), forms[n % 2], "text" if n % 4 < 2 else "derived", n // 4]
        if tier != "quick" or n % 2:
            yield [list(c[::-1]), forms[(n + 1) % 2], "derived" if n % 4 < 2 else "text", n // 4 + 1]


def run(case, ctx):
    idx, f1, f2, k = case
    hs = [make(i, f1 if n == 0 else f2, 1950 + n, k >> 2 * n) for n, i in enumerate(idx)]
    M.rank(hs)
    S = Hypothesis_Set(hs + [M.mu(F(1, 2), F(1, 6)), M.pair(F(1, 6), F(2, 3))])
    got = zd.best_zero_density_estimate(S)
    E.check_best(got, hs, idx, "best zero density estimate", ctx, TYPE, zd.Zero_Density_Estimate)


def single_cases(tier):
    for i in range(len(E.FAM)):
        for form in ("text", "derived"):
            for k in range(4):
                yield [i, form, k]


def run_single(case, ctx):
    i, form, k = case
    f, (a, b) = E.FAM[i]
    iv = E.rng(i, k)
    h = make(i, form, 1950, k)
    before = str(h.data)
    for x in E.grid([i]) + [a, b, a - 1, b + 1]:
        inside = iv.contains(x)
        if inside and (isinstance(f, E.Sqrt) and x == a or x == b):
            continue        # irrational, or a pole
        want = f.at(x) if inside else None
        try:
            got = exact(h.data.at(x))
        except ValueError:
            got = None
        ctx.step()
        if not E.close(got, want):
            raise Bad(f"{h.data} has the value {got} at {x}, expected {want}")
    if str(h.data) != before:
        raise Bad(f"{before} is printed as {h.data} after evaluation")
    if (h.data.interval.include_lower, h.data.interval.include_upper) != E.ENDS[k]:
        raise Bad(f"the range of {h.data} was given as {iv}")
    ctx.state(before)
    ctx.outcome(form)


def groups(tier):
    return [Group("envelopes", cases, run), Group("single estimates", single_cases, run_single)]
