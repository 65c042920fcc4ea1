"""F04: the piecewise minimum and maximum of rational functions, with attribution."""
from itertools import product, combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc.ratf import R, exact, approx
from functions import RationalFunction, Interval

ID = "F04"
COVERAGE = (
    "every ordered list of up to three (and lists of up to 9 along cyclic walks) (function, interval) pairs from a family of rational functions (constants, "
    "affine, quadratic, Mobius; touching, crossing twice, equal) and partially overlapping, nested, adjacent and "
    "outside intervals, also after changes of variable which give break points with large denominators, minimum and maximum, with and without attribution: values and attribution at a rational grid "
    "and all rational break points, the pieces partition the domain; one and two functions with every choice of open and closed "
    "ends of the intervals and of the domain, away from the end points.  state = distinct envelope, transition = one "
    "point compared, trace = one call"
)
ASSUMPTIONS = ["every function is pole-free on its own interval"]

FUN = [R([1, 0]), R([-1, 2]), R([F(1, 2)]), R([1, 0, 0]), R([1], [1, 1]), R([3], [10, -7]), R([1, -2, F(5, 4)]),
       R([2, 0], [2]), R([1, 0, -3, 1]), R([3000000]), R([-2000000, 0])]
DOMS = [(F(0), F(2)), (F(0), F(1)), (F(1), F(2)), (F(1, 2), F(3, 2)), (F(-1), F(3)), (F(4), F(5)), (F(3, 4), F(7, 4))]
WINS = [(F(0), F(2)), (F(1, 2), F(5, 2))]


# the same under a change of variable x = s y + t, and values scaled and shifted
def copy_of(s, t, u, v):
    def comp(p):
        out = [F(0)]
        for c in p:
            out = [a + b for a, b in zip([x * s for x in out] + [F(0)], [F(0)] + [x * t for x in out])]
            out[-1] += c
        return out[1:] if len(out) > 1 and out[0] == 0 else out

    def fun(f):
        n, d = comp(f.num), comp(f.den)
        k = max(len(n), len(d))
        n, e = [F(0)] * (k - len(n)) + n, [F(0)] * (k - len(d)) + d
        return R([u * a + v * b for a, b in zip(n, e)], d)
    back = lambda x: (x - t) / s
    return [fun(f) for f in FUN], [(back(a), back(b)) for a, b in DOMS], [(back(a), back(b)) for a, b in WINS]


TABLES = [(FUN, DOMS, WINS), copy_of(F(12345, 67891), F(1, 99991), F(1), F(0)), copy_of(F(10 ** 7), F(-10 ** 5 + 1, 3), F(1, 10 ** 6), F(1, 3)),
          copy_of(F(1, 10 ** 8), F(7, 5), F(999, 1000), F(-1, 10 ** 4))]


def ok(f, d):
    return not (f == 5 and DOMS[d][0] <= F(7, 10) <= DOMS[d][1]) and not (f == 4 and DOMS[d][0] <= -1)


ALL = [[f, d] for f in range(len(FUN)) for d in range(len(DOMS)) if ok(f, d)]
SMALL = [p for p in ALL if p[0] in (0, 1, 3, 4, 7) and p[1] in (0, 1, 2, 3)] + [[8, 0], [8, 2], [9, 0], [10, 1]]
TINY = [p for p in ALL if p in ([0, 0], [1, 0], [3, 3], [4, 1], [7, 2], [8, 0], [9, 2], [10, 3], [2, 4], [5, 2], [1, 3])]


def cases(tier):
    big = tier == "thorough"
    for p in ALL:
        for op in ("min", "max"):
            for w in range(len(WINS)):
                for track in (True, False):
                    yield [[p], op, w, track]
    for k, (p, q) in enumerate(permutations(ALL if big else SMALL, 2)):
        if big:
            for op in ("min", "max"):
                for w in range(2):
                    yield [[p, q], op, w, True]
        else:
            yield [[p, q], "min" if k % 2 else "max", (k // 2) % 2, k % 7 != 0]
    for k, t in enumerate(permutations(SMALL if big else TINY, 3)):
        if big and t[0] > t[2]:
            continue
        yield [list(t), "min" if k % 2 else "max", 0, True]
        if not big or k % 3 == 0:
            yield [list(t), "max" if k % 2 else "min", 0, True]
    easy = [p for p in ALL if p[0] not in (5, 8)]
    for k, c in enumerate(windows(len(easy), (4, 5, 7, 9), (1, 5, 7, 11), range(0, len(easy), 1 if big else 4))):
        if big or k % 2:
            yield [[easy[i] for i in c], "min" if k % 4 < 2 else "max", k // 4 % 2, k % 3 != 0]
    yield [[], "min", 0, True]
    yield [[], "max", 1, False]


def far_cases(tier):
    big = tier == "thorough"
    n = 0
    for k in (1, 2, 3):
        for p, q in permutations(ALL if big else SMALL, 2):
            n += 1
            if big or n % 8 == 0:
                yield [[p, q], "min" if n % 2 else "max", n // 2 % 2, n % 7 != 0, k]
        for t in permutations(TINY, 3):
            n += 1
            if big or n % 8 == 0:
                yield [list(t), "min" if n // 8 % 2 else "max", 0, True, k]


def run(case, ctx):
    fs, op, w, track, tab = (*case, 0)[:5]
    FUN, DOMS, WINS = TABLES[tab]
    a, b = WINS[w]
    items = [(FUN[f].lib(), Interval(*DOMS[d])) for f, d in fs]
    snap = [(str(f), str(i)) for f, i in items]
    given = list(items)
    dom = Interval(a, b)
    res = getattr(RationalFunction, op)(items, dom, track_dependencies=track)
    if [(str(f), str(i)) for f, i in items] != snap or items != given or str(dom) != str(Interval(a, b)):
        raise Bad("the arguments were modified")
    # pieces partition the domain
    if not res:
        raise Bad("no pieces")
    prev = a
    for t in res:
        if len(t) != (3 if track else 2):
            raise Bad("a piece has the wrong number of components")
        I = t[1]
        if abs(approx(I.x0) - approx(prev)) > 1e-12 * max(1.0, abs(approx(prev))) or not approx(I.x0) < approx(I.x1):
            raise Bad(f"the pieces do not partition the domain: {[str(u[1]) for u in res]}")
        prev = I.x1
    if approx(prev) != float(b):
        raise Bad(f"the pieces end at {prev}, the domain at {b}")
    pts = {a + (b - a) * F(k, 48) for k in range(48)}
    pts |= {x for _, d in fs for x in DOMS[d]}
    pts |= {F(1, 3), F(2, 3), F(7, 5)} if tab == 0 else set()
    pick = min if op == "min" else max
    default = F(1000000) if op == "min" else F(-1000000)
    key = []
    for x in sorted(p for p in pts if a <= p < b):
        vals = {k: FUN[f].at(x) for k, (f, d) in enumerate(fs) if DOMS[d][0] <= x < DOMS[d][1]}
        want = pick(vals.values()) if vals else default
        hit = [t for t in res if t[1].contains(x)]
        if len(hit) != 1:
            raise Bad(f"{len(hit)} pieces contain {x}")
        v = exact(hit[0][0].at(x))
        if v != want:
            raise Bad(f"the {op} at {x} is {want}, reported {v} ({hit[0]})")
        if track:
            k = hit[0][2]
            if vals and vals.get(k) != want:
                raise Bad(f"at {x} the {op} is attributed to #{k}, which does not attain it")
            if not vals and k != -1:
                raise Bad(f"at {x}, where nothing is defined, the {op} is attributed to #{k}")
            if k in vals and exact(hit[0][0].at(x)) != vals[k]:
                raise Bad("the piece is not the function it is attributed to")
        key.append((x, want))
        ctx.step()
    ctx.state((op, tuple(key)))
    ctx.outcome((op, len(res)))


# the same with every choice of which ends belong to the intervals; compared away from the end points
FLAGS = [[True, True], [True, False], [False, True], [False, False]]
ENDS = [[0, 0], [3, 1], [7, 2], [2, 3], [4, 0]]


def end_cases(tier):
    for op in ("min", "max"):
        for w in FLAGS:
            for i, p in enumerate(ENDS):
                for a in FLAGS:
                    yield [[[p, a]], op, w]
                    for q in ENDS[:i] + ENDS[i + 1:] if tier == "thorough" else [ENDS[(i + 1) % len(ENDS)], ENDS[i - 2]]:
                        for b in FLAGS:
                            yield [[[p, a], [q, b]], op, w]


def run_ends(case, ctx):
    fs, op, w = case
    a, b = WINS[0]
    items = [(FUN[f].lib(), Interval(*DOMS[d], *fl)) for (f, d), fl in fs]
    snap = [(str(f), str(i)) for f, i in items]
    res = getattr(RationalFunction, op)(items, Interval(a, b, *w))
    if [(str(f), str(i)) for f, i in items] != snap:
        raise Bad("the arguments were modified")
    pick = min if op == "min" else max
    default = F(1000000) if op == "min" else F(-1000000)
    key = []
    for x in [a + (b - a) * F(2 * k + 1, 46) for k in range(23)]:
        vals = {k: FUN[f].at(x) for k, ((f, d), _) in enumerate(fs) if DOMS[d][0] < x < DOMS[d][1]}
        want = pick(vals.values()) if vals else default
        hit = [t for t in res if t[1].x0 < x < t[1].x1]
        if len(hit) != 1 and not any(x in (t[1].x0, t[1].x1) for t in res):
            raise Bad(f"{len(hit)} pieces contain {x}")
        for t in hit:
            v = exact(t[0].at(x))
            if v != want:
                raise Bad(f"the {op} at {x} of {snap} is {want}, reported {v} (attributed to #{t[2]})")
            if vals and vals.get(t[2]) != want or not vals and t[2] != -1:
                raise Bad(f"at {x} the {op} of {snap} is attributed to #{t[2]}")
        key.append(want)
        ctx.step()
    ctx.state((op, tuple(key)))
    ctx.outcome((op, len(res)))


def bad_cases(tier):
    yield "list"
    yield "interval"


def run_bad(case, ctx):
    for op in (RationalFunction.min, RationalFunction.max):
        try:
            if case == "list":
                op(RationalFunction([1]), Interval(0, 1))
            else:
                op([], (0, 1))
        except ValueError:
            pass
        else:
            raise Bad("a malformed argument was accepted")
        ctx.step()
    ctx.state(case)
    ctx.outcome("refused")


def groups(tier):
    return [Group("envelopes", cases, run), Group("envelopes, distorted", far_cases, run), Group("ends", end_cases, run_ends), Group("refusals", bad_cases, run_bad)]
