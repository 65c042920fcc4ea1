"""F02: the piecewise minimum and maximum of affine functions on intervals."""
from itertools import product, combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from functions import Affine, Interval

ID = "F02"
COVERAGE = (
    "every choice of one affine function against one or two others (thorough: three), over a set of slopes/"
    "intercepts and partially overlapping domains with all kinds of end points, minimum and maximum, with and "
    "without an explicit domain, labelled (each its own label, one label for all, labels shared in twos) and unlabelled, and of thin, distant, steep and nearly parallel copies; 4 to 11 functions in the order of cyclic walks through the family; each result is compared with the pointwise optimum at "
    "every end point, crossing point and midpoint.  state = distinct envelope, transition = one point compared, "
    "trace = one call"
)
LINES = [(F(0), F(0)), (F(1), F(-1)), (F(-1), F(2)), (F(1, 2), F(0)), (F(0), F(1))]
DOMS = [(0, 2, 1, 1), (0, 1, 1, 0), (1, 3, 0, 1), (1, 2, 0, 0), (1, 1, 1, 1), (0, 3, 1, 0), (2, 3, 1, 1)]
WIN = [None, (F(1, 2), F(5, 2), True, False), (F(0), F(2), True, True), (F(0), F(3), False, False)]


# thin, distant and steep copies: x' = s x + t, y' = u y + v x'
def copy_of(s, t, u, v):
    def line(m, c):
        m2 = u * m / s
        return (m2 + v, u * c - m2 * t)
    def dom(d):
        return (s * d[0] + t, s * d[1] + t) + tuple(d[2:])
    return [line(*l) for l in LINES], [dom(d) for d in DOMS], [w and dom(w) for w in WIN]


TABLES = [(LINES, DOMS, WIN), copy_of(F(1, 10 ** 9), F(1, 3), F(1), F(0)), copy_of(F(10 ** 8, 7), F(-10 ** 10), F(1, 10 ** 12), F(3)),
          copy_of(F(1), F(1, 2), F(1, 10 ** 14), F(-1, 7)), copy_of(F(1), F(0), F(1, 10 ** 30), F(-1, 7)), copy_of(F(1), F(1, 2), F(1, 10 ** 30), F(-1, 7))]


def funcs(lines, doms):
    return [[i, j] for i in lines for j in doms]


def mk(f, label, k=0):
    LINES, DOMS, _ = TABLES[k]
    m, c = LINES[f[0]]
    a, b, lo, up = DOMS[f[1]]
    return Affine(m, c, Interval(F(a), F(b), bool(lo), bool(up)), label)


def inside(d, x):
    a, b, lo, up = d
    return (a < x or (a == x and lo)) and (x < b or (x == b and up))


def crit_points(fs, k=0):
    LINES, DOMS, WIN = TABLES[k]
    xs = {F(e) for f in fs for e in DOMS[f[1]][:2]}
    for f, g in combinations(fs, 2):
        (m1, c1), (m2, c2) = LINES[f[0]], LINES[g[0]]
        if m1 != m2:
            xs.add((c2 - c1) / (m1 - m2))
    xs |= {e for w in WIN if w for e in w[:2]}
    xs = sorted(xs)
    return sorted(set(xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [xs[0] - 1, xs[-1] + 1]))


def run(case, ctx):
    fs, op, w, labelled, tab = (*case, 0)[:5]
    LINES, DOMS, WIN = TABLES[tab]
    name = {True: lambda k: k, False: lambda k: None, "same": lambda k: 7, "twos": lambda k: k % 2}[labelled]
    objs = [mk(f, name(k), tab) for k, f in enumerate(fs)]
    snap = [(o.m, o.c, o.domain.x0, o.domain.x1, o.domain.include_lower, o.domain.include_upper, o.label) for o in objs]
    win = WIN[w]
    dom = Interval(win[0], win[1], win[2], win[3]) if win else None
    others = objs[1:]
    call = objs[0].min_with if op == "min" else objs[0].max_with
    res = call(others, dom) if dom is not None else call(others)
    if [(o.m, o.c, o.domain.x0, o.domain.x1, o.domain.include_lower, o.domain.include_upper, o.label) for o in objs] != snap:
        raise Bad("an operand was modified")
    if others != objs[1:]:
        raise Bad("the list of operands was modified")
    pick = min if op == "min" else max
    key = []
    for x in crit_points(fs, tab):
        vals = {k: LINES[f[0]][0] * x + LINES[f[0]][1] for k, f in enumerate(fs) if inside(DOMS[f[1]], x)}
        want = pick(vals.values()) if vals and (win is None or inside(win, x)) else None
        hit = [p for p in res if p.at(x) is not None]
        if len(hit) > 1:
            raise Bad(f"{len(hit)} pieces are defined at {x}: {res}")
        if want is None:
            if hit:
                raise Bad(f"defined at {x} where no operand is (or outside the domain): {res}")
        else:
            if not hit:
                raise Bad(f"not defined at {x}: {res}")
            if hit[0].at(x) != want:
                raise Bad(f"value {hit[0].at(x)} at {x}, expected {want}: {res}")
            if labelled:
                l = hit[0].label
                if l not in [name(k) for k in vals if vals[k] == want]:
                    raise Bad(f"at {x} the piece is labelled {l}, which does not attain the {op}: {res}")
        key.append((x, want))
        ctx.step()
    for p, q in zip(res, res[1:]):
        if p.domain.x1 > q.domain.x0:
            raise Bad(f"the pieces are not in increasing order: {res}")
    # the result is usable as an operand again
    ctx.state(tuple(key))
    ctx.outcome((op, len(res)))


def cases(tier):
    A = funcs(range(5), range(7))
    B = funcs([0, 1, 2, 3], [0, 1, 2, 3, 4])
    for f, g in product(A, A):
        for op in ("min", "max"):
            for w in range(len(WIN)):
                yield [[f, g], op, w, True]
            yield [[f, g], op, 0, False]
            yield [[f, g], op, 0, "same"]
    k = 0
    for f in B:
        for g, h in permutations(B, 2):
            k += 1
            if tier == "thorough":
                for op in ("min", "max"):
                    for w in range(len(WIN)):
                        yield [[f, g, h], op, w, True]
            else:
                if g < h:
                    yield [[f, g, h], "min", 0, True]
                    yield [[f, g, h], "min" if k % 4 < 2 else "max", 0, "same" if k % 2 else "twos"]
                    yield [[f, g, h], "max", 1 + k % 3, True]
    if tier == "thorough":
        C = funcs([0, 1, 2], [0, 1, 2, 4])
        for c in product(C, repeat=2):
            for d in combinations(C, 2):
                yield [list(c) + list(d), "min", 0, True]


def many_cases(tier):
    A = funcs(range(5), range(7))
    n = 0
    for k in (0, 1, 2, 3):
        for c in windows(len(A), (4, 5, 6, 8, 11), (1, 2, 3, 6, 9, 11, 16), None if tier == "thorough" else range(0, len(A), 2)):
            n += 1
            if tier == "thorough" or n % 4 == k:
                yield [[A[i] for i in c], "max" if n % 8 < 4 else "min", n // 8 % len(WIN), (True, "twos", "same")[n // 32 % 3], k]


def far_cases(tier):
    A = funcs(range(5), range(7))
    n = 0
    for k in range(1, len(TABLES)):
        for f, g in product(A, A):
            n += 1
            if tier == "thorough":
                for op in ("min", "max"):
                    for w in range(len(WIN)):
                        for lab in (True, "same", False):
                            yield [[f, g], op, w, lab, k]
            else:
                yield [[f, g], "max" if n % 2 else "min", n // 2 % 4, (True, "same", False)[n % 3], k]
        for c in combinations(funcs([0, 1, 2, 3], [0, 1, 3, 5]), 3):
            n += 1
            if tier == "thorough" or n % 3 == 0:
                yield [list(c) if n % 2 else list(c[::-1]), "min" if n % 4 < 2 else "max", 0, ("same", True, False, True)[n // 3 % 4], k]


def fold_cases(tier):
    """The way the library uses it: the running optimum is compared with the next function."""
    A = funcs([0, 1, 2, 3], [0, 1, 2, 5]) if tier == "quick" else funcs(range(5), range(6))
    for c in (permutations(A, 3) if tier == "thorough" else combinations(A, 3)):
        yield list(c)
        if tier == "quick":
            yield list(reversed(c))


def run_fold(fs, ctx):
    objs = [mk(f, k) for k, f in enumerate(fs)]
    dom = Interval(F(0), F(2), True, True)
    best = objs[0].min_with([objs[1]], dom)
    best = objs[2].min_with(best, dom)
    key = []
    for x in crit_points(fs):
        vals = {k: LINES[f[0]][0] * x + LINES[f[0]][1] for k, f in enumerate(fs) if inside(DOMS[f[1]], x)}
        want = min(vals.values()) if vals and 0 <= x <= 2 else None
        hit = [p for p in best if p.at(x) is not None]
        if [p.at(x) for p in hit] != ([] if want is None else [want]):
            raise Bad(f"running minimum at {x} is {[p.at(x) for p in hit]}, expected {want}: {best}")
        if want is not None and vals.get(hit[0].label) != want:
            raise Bad(f"running minimum at {x} is attributed to {hit[0].label}: {best}")
        key.append((x, want))
        ctx.step()
    ctx.state(tuple(key))
    ctx.outcome(len(best))


def inter_cases(tier):
    A = funcs(range(5), range(7))
    for f, g in product(A, A):
        yield [f, g]


def run_inter(case, ctx):
    f, g = case
    p, q = mk(f, None), mk(g, None)
    got = p.intersection(q)
    (m1, c1), (m2, c2) = LINES[f[0]], LINES[g[0]]
    want = None
    if m1 != m2:
        x = (c2 - c1) / (m1 - m2)
        if inside(DOMS[f[1]], x) and inside(DOMS[g[1]], x):
            want = x
    if got != want:
        raise Bad(f"{p} meets {q} at {got}, expected {want}")
    if p.function_equals(q) != ((m1, c1) == (m2, c2)):
        raise Bad("function_equals is wrong")
    for x in (F(0), F(1), F(3, 2), F(2), F(3)):
        w = m1 * x + c1
        if p.at(x) != (w if inside(DOMS[f[1]], x) else None) or p.at(x, extend_domain=True) != w:
            raise Bad(f"{p} evaluates wrongly at {x}")
        ctx.step()
    ctx.state((f, g))
    ctx.outcome(want is None)


def groups(tier):
    return [Group("envelopes", cases, run), Group("envelopes, distorted", far_cases, run), Group("many functions", many_cases, run), Group("running", fold_cases, run_fold), Group("crossings", inter_cases, run_inter)]
