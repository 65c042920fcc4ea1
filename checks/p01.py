"""P01: the bound on gaps between primes computed from zero density and energy estimates."""
from itertools import combinations
from fractions import Fraction as F
import contextlib
import io
import re
import sympy
from mc.core import Group, Bad, windows
from mc.ratf import R, Sqrt
from mc import hyps as M
import prime_gap as pg
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from hypotheses import Hypothesis_Set
from functions import Interval

ID = "P01"
COVERAGE = (
    "every set of up to 2 (thorough: 3) of 7 zero density estimates covering [1/2, 1) together with up to 2 (thorough: 3) of 7 energy estimates (and larger sets along cyclic walks) or the trivial ones, "
    "in factored and expanded form: the reported intervals partition [1/2, 1], and on each of them the reported number is the supremum of alpha and beta "
    "of the theorem, for the pointwise best B and the best choice of A among the upper bounds max(A, .), to 1e-9 (maximised by recursive subdivision).  state = distinct table, "
    "transition = one interval, trace = one computation"
)
ASSUMPTIONS = ["B > A on the closed intervals considered (the theorem divides by B - A)", "the value is read from the printed table"]
H = F(1, 2)

A_FAM = [
    (R([3], [-1, 2]), (H, F(1)), "3/(2 - x)"),
    (R([3], [3, -1]), (F(3, 5), F(1)), "3/(3*x - 1)"),
    (R([F(12, 5)]), (H, F(1)), "12/5"),
    (R([15], [5, 3]), (F(7, 10), F(9, 10)), "15/(5*x + 3)"),
    (R([4], [4, -1]), (F(3, 4), F(1)), "4/(4*x - 1)"),
    (R([3], [10, -7]), (F(9, 10), F(1)), "3/(10*x - 7)"),
    (R([2, 1], [1, 0, 1]), (F(4, 5), F(1)), "(2*x + 1)/(x**2 + 1)"),
]
# the trivial estimate 3/(1 - x) and others which are larger than every A
B_FAM = [
    (R([3], [-1, 1]), (H, F(1)), "3/(1 - x)"),
    (R([-11, 10], [1, -3, 2]), (H, F(1)), "(10 - 11*x)/((2 - x)*(1 - x))", (H, F(2, 3))),
    (R([-4, 8]), (H, F(3, 4)), "8 - 4*x"),
    (R([12], [4, -1]), (F(5, 6), F(1)), "12/(4*x - 1)"),
    (R([-36, 40], [-20, 25, -5]), (F(3, 4), F(1)), "(40 - 36*x)/((20*x - 5)*(1 - x))"),
    (R([-19, 18], [-4, 6, -2]), (F(2, 3), F(3, 4)), "(18 - 19*x)/((4*x - 2)*(1 - x))"),
    (R([1, -5, 9]), (H, F(1)), "x**2 - 5*x + 9"),
]


def cases(tier):
    q = tier == "quick"
    n = 0
    for k in range(1, 3 if q else 4):
        for a in combinations(range(len(A_FAM)), k):
            if not any(i in (0, 2) for i in a):
                continue
            for j in range(1, 3 if q else 4):
                for b in combinations(range(len(B_FAM)), j):
                    if not any(i in (0, 6) for i in b):
                        continue
                    n += 1
                    yield [list(a), list(b), n % 4]
    for m, a in enumerate(windows(len(A_FAM), (4, 5, 7), (1, 2, 3) if not q else (1,), rev=False)):
        bs = list(windows(len(B_FAM), (3, 4, 7), (1,), rev=False))
        b = bs[(5 * m) % len(bs)]
        if any(i in (0, 2) for i in a) and any(i in (0, 6) for i in b):
            yield [a, b, m % 4]
    for a in ([0], [0, 1], [2, 4, 5], [0, 1, 6], [0, "s"], [0, 1, 5, "s"]):
        yield [a, "trivial", 0]


def pick(fam, idx, x):
    best = None
    for i in idx:
        if i == "s":
            if x < F(9, 10):
                continue
            v = 6.42 * (1 - float(x)) ** .5
        else:
            f, dom = fam[i][0], fam[i][1] if len(fam[i]) == 3 else fam[i][3]
            if not dom[0] <= x < dom[1]:
                continue
            v = f.at(x)
        if best is None or v < best[0]:
            best = (v, i)
    return best[1]


def value(fam, i):
    """float evaluation of one function as a pair (numerator, denominator)"""
    if i == "s":
        return lambda x: (6.42 * max(0.0, 1 - x) ** .5, 1.0)
    f = fam[i][0]
    num, den = [float(c) for c in f.num], [float(c) for c in f.den]

    def ev(p, x):
        s = 0.0
        for c in p:
            s = s * x + c
        return s
    return lambda x: (ev(num, x), ev(den, x))


def alpha_beta(A, B, s):
    """max of alpha and beta, with denominators cleared: B = b/d, A = a/c"""
    def at(x):
        a, c = A(x)
        b, d = B(x)
        if s:       # B = s * b/d
            b *= s
        # (B(1-x) - 1)/(B - A) = c (b (1-x) - d) / (b c - a d),  (B(1-x) - 1)/A = c (b(1-x) - d) / (a d)
        u = b * (1 - x) - d
        # any larger A may be used, and A = B / 3 is the best choice if that is larger
        if a * d * 3 < b * c if c * d > 0 else a * d * 3 > b * c:
            return 4 * x - 2 + 3 * u / b
        out = [4 * x - 2 + 2 * c * u / (b * c - a * d)]
        if abs(a * d) > 1e-300:
            out.append(4 * x - 2 + c * u / (a * d))
        return max(out)
    return at


def sup(f, lo, hi):
    """maximum of a smooth function on [lo, hi]; the ends are approached from inside"""
    n = 400
    e = (hi - lo) * 1e-9
    lo, hi = lo + e, hi - e
    xs = [lo + (hi - lo) * k / n for k in range(n + 1)]
    vs = [f(x) for x in xs]
    best = max(vs)
    for k in sorted(range(n + 1), key=lambda k: -vs[k])[:8]:
        a, b = xs[max(0, k - 1)], xs[min(n, k + 1)]
        for _ in range(80):
            m1, m2 = a + (b - a) / 3, b - (b - a) / 3
            if f(m1) < f(m2):
                a = m1
            else:
                b = m2
        best = max(best, f((a + b) / 2))
    return best


NUM = re.compile(r"\s(-?[0-9.]+(?:e[-+]?\d+)?|nan|-?inf)(\s|$)")


def parse(line):
    """'[x0,x1) value alpha beta' -> (x0, x1, value); the ends can be expressions such as CRootOf(..., 0)"""
    if not line.startswith("["):
        return None
    depth, cuts = 0, []
    for k, ch in enumerate(line):
        depth += (ch in "([") - (ch in ")]")
        if ch == "," and depth == 1:
            cuts.append(k)
        if depth <= 0:
            break
    m = NUM.match(line, k + 1)
    if len(cuts) != 1 or not m:
        return None
    return sympy.sympify(line[1:cuts[0]]), sympy.sympify(line[cuts[0] + 1:k]), float(m.group(1))


def run(case, ctx):
    a, b, form = case
    S = Hypothesis_Set([M.mu(H, F(1, 6))])
    for i in a:
        if i == "s":
            zd.add_zero_density(S, "6.42 * (1 - x) ** (1/2)", Interval(F(9, 10), F(1)), M.ref(1990))
            continue
        f, dom, text = A_FAM[i]
        if form % 2:
            S.add_hypothesis(zd.derived_zero_density_estimate(zd.Zero_Density_Estimate.from_rational_func(f.lib(), Interval(*dom)), "p", set()))
        else:
            zd.add_zero_density(S, text, Interval(*dom), M.ref(1950 + i), f" {i}")
    if b == "trivial":
        ze.add_trivial_zero_density_energy_estimates(S)
    else:
        for i in b:
            f, dom, text = B_FAM[i][:3]
            dom = B_FAM[i][3] if len(B_FAM[i]) > 3 else dom
            if form // 2:
                S.add_hypothesis(ze.derived_zero_density_energy_estimate(ze.Zero_Density_Energy_Estimate.from_rational_func(f.lib(), Interval(*dom)), "p", set()))
            else:
                S.add_hypothesis(ze.literature_zero_density_energy_estimate(text, Interval(*dom), M.ref(1960 + i), f" {i}"))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pg.compute_gap2(S)
    rows = []
    for line in out.getvalue().splitlines():
        m = parse(line)
        if m:
            rows.append(m)
    if not rows:
        raise Bad("no interval was reported")
    prev = H
    key = []
    for x0, x1, v in rows:
        if abs(float(x0) - float(prev)) > 1e-12 or not float(x0) < float(x1):
            raise Bad(f"the reported intervals do not follow each other: {rows}")
        prev = x1
        lo, hi = float(x0), float(x1)
        want = None
        for t in (F(1, 3), F(2, 3)):
            mid = F(lo) + (F(hi) - F(lo)) * t
            i = pick(A_FAM, a, mid)
            if b == "trivial":
                c1 = (3 * float(A_FAM[i][0].at(mid)) if i != "s" else 3 * 6.42 * (1 - float(mid)) ** .5, "3A")
                B, sc = (value(A_FAM, i), 3) if c1[0] < 3 / (1 - float(mid)) else (value(B_FAM, 0), None)
            else:
                B, sc = value(B_FAM, pick(B_FAM, b, mid)), None
            w = sup(alpha_beta(value(A_FAM, i), B, sc), lo, hi)
            want = w if want is None else max(want, w)
        ctx.step()
        if not abs(v - want) <= 1e-6 * max(1, abs(want)):
            raise Bad(f"A from {a}, B from {b}: the bound reported on [{x0}, {x1}) is {v}, the supremum is {want}")
        key.append((round(lo, 9), round(v, 9)))
    if float(prev) != 1:
        raise Bad(f"the reported intervals end at {prev}")
    ctx.state(tuple(key))
    ctx.outcome(len(rows))


def groups(tier):
    return [Group("prime gaps", cases, run)]
