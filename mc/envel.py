"""Best of a family of one-variable estimates: reference minimum and attribution (shared by Z02 and A02)."""
from fractions import Fraction as F
from mc.core import Bad, windows
from mc.ratf import R, Sqrt, exact
from functions import Interval

H = F(1, 2)
FAM = [
    (R([3], [-1, 2]), (H, F(1))),
    (R([3], [3, -1]), (F(3, 5), F(1))),
    (R([2]), (F(11, 14), F(1))),
    (R([4], [4, -1]), (F(9, 10), F(1))),
    (R([15], [5, 3]), (F(7, 10), F(9, 10))),
    (R([F(12, 5)]), (H, F(1))),
    (R([3], [10, -7]), (F(3, 4), F(1))),
    (R([3], [-1, 2]), (F(2, 3), F(4, 5))),
    (R([2, 1], [1, 0, 1]), (H, F(9, 10))),
    (R([-1, F(31, 10)]), (H, F(3, 4))),
    (R([3], [-1, 1]), (H, F(1))),
    (Sqrt(F(321, 50)), (F(9, 10), F(1))),
    (R([F(4)], [30, -25]), (F(15, 16), F(1))),
    (R([-8, 6, F(3, 2)]), (H, F(9, 10))),
    (R([8, 0, -6, F(5, 2)]), (F(3, 5), F(1))),
    # the function of the first record with other ranges: the same left end, or the same right end
    (R([3], [-1, 2]), (H, F(3, 4))),
    (R([3], [-1, 2]), (F(3, 4), F(1))),
]



ENDS = [(True, False), (False, True), (True, True), (False, False)]


def rng(i, k=0):
    """the range of one estimate, with the k-th choice of which ends belong to it"""
    return Interval(*FAM[i][1], *ENDS[k % 4])


def value(i, x, scale=1):
    f, (a, b) = FAM[i]
    if not a <= x < b:
        return None
    v = f.at(x)
    return None if v is None else v * scale


def close(v, w):
    return v == w or v is not None and w is not None and abs(v - w) < F(1, 10 ** 9)


def points(i, n=7):
    """rational points inside the range of one estimate, where its value is rational"""
    f, (a, b) = FAM[i]
    if isinstance(f, Sqrt):
        return [1 - F(k, 40) ** 2 for k in range(1, 12)]
    return [a + (b - a) * F(j, n) for j in range(1, n)]


def combos(tier):
    from itertools import combinations
    for k in range(0, 4 if tier == "quick" else 5):
        for c in combinations(range(len(FAM)), k):
            late = sum(11 <= i <= 14 for i in c)
            if late and k >= 3 and (late > 1 or tier == "quick" and sum(c) % 4 or tier != "quick" and k == 4):
                continue        # algebraic break points are slow
            if 11 in c and (8 in c or 14 in c):
                continue        # a sextic: solving it symbolically takes a minute
            yield c
    # larger sets, along cyclic walks through the rational ones of low degree
    easy = [i for i in range(len(FAM)) if not 11 <= i <= 14]
    for c in windows(len(easy), (5, 6, 8, 10, 13), (1, 3, 5), None if tier != "quick" else range(0, len(easy), 3)):
        yield tuple(easy[i] for i in c)


def grid(idx):
    xs = {F(1, 2), F(1)}
    for i in idx:
        xs |= set(FAM[i][1])
    if any(isinstance(FAM[i][0], Sqrt) for i in idx):
        out = [1 - F(k, 240) ** 2 for k in range(1, 170, 2)]
        out = [x for x in out if x not in xs]
    else:
        xs |= {F(1, 2) + F(k, 80) for k in range(41)}
        xs = sorted(xs)
        out = [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [1 - F(1, 10 ** 7)]
    return [x for x in out if not any(
        value(i, x) is not None and value(j, x) is not None and value(i, x) != value(j, x) and abs(value(i, x) - value(j, x)) < F(1, 10 ** 9)
        for i in idx for j in idx)]


def check_best(got, hs, idx, what, ctx, typ, cls):
    """got: hypotheses returned; hs: the given ones, of FAM[idx]"""
    snap = [(h.data.interval.x0, h.data.interval.x1) for h in hs]
    for (a, b), i in zip(snap, idx):
        if (a, b) != FAM[i][1]:
            raise Bad(f"the range of a given estimate changed from {FAM[i][1]} to {(a, b)}")
    for g in got:
        if g.hypothesis_type != typ:
            raise Bad(f"{g.name} has type {g.hypothesis_type}")
        if not isinstance(g.data, cls):
            raise Bad(f"{g.name} carries a {type(g.data).__name__}")
    key = []
    for x in grid(idx):
        vals = {i: value(i, x) for i in idx}
        vals = {i: v for i, v in vals.items() if v is not None}
        best = min(vals.values()) if vals else None
        here = [g for g in got if g.data.interval.contains(x)]
        ctx.step()
        if len(here) != 1:
            raise Bad(f"{len(here)} pieces of the {what} at {x}: {[g.data for g in here]}")
        g = here[0]
        v = exact(g.data.at(x))
        if best is None:
            if v is None or v < 10 ** 5:  # a placeholder
                raise Bad(f"nothing is known at {x}, the {what} there is {v}")
            if g.dependencies or any(g.name == h.name for h in hs):
                raise Bad(f"nothing is known at {x}, but the bound there is attributed to {g.name}")
            key.append(None)
            continue
        if v != best and not (any(isinstance(FAM[i][0], Sqrt) for i in vals) and v is not None and abs(v - best) < F(1, 10 ** 9)):
            raise Bad(f"the {what} at {x} is {v}, the smallest given bound is {best}")
        src = [h for i, h in zip(idx, hs) if vals.get(i) == best]
        if not any(h.name == g.name and h.reference is g.reference and h.proof == g.proof
                   and set(h.dependencies) == set(g.dependencies) for h in src):
            raise Bad(f"the {what} at {x} is attributed to {g.desc()} [{g.reference}], depending on {g.dependencies}; it is attained by {[h.desc() for h in src]}")
        key.append(v)
    ctx.state((what, tuple(key)))
    ctx.outcome((what, len(idx), len(got)))
