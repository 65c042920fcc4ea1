"""F03: arithmetic, evaluation, extrema, roots and crossings of rational functions."""
from itertools import product
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.ratf import R, ev, exact, approx
from functions import RationalFunction, Interval

ID = "F03"
COVERAGE = (
    "every pair of a family of 26 rational functions (constants, affine, quadratic, cubic, Mobius and higher "
    "quotients, fractional, large and negative coefficients, opposite denominators, multiple roots and critical points, roots close to round numbers) through + - * / and ==, every function with every number "
    "(integers and fractions), parsing of printed expressions, evaluation at a rational grid, and maximum/minimum/"
    "roots/crossings on every pole-free interval of a menu; compared with exact rational arithmetic.  state = "
    "distinct result function/extremum, transition = one value compared, trace = one operation executed"
)
ASSUMPTIONS = ["extrema, roots and crossings are stated on intervals without poles",
               "irrational critical points are compared through a rational grid and 30-digit numerics"]

FUN = [
    R([0]), R([1]), R([F(1, 2)]), R([-3]), R([1, 0]), R([1, -1]), R([F(-2, 3), 2]), R([1, 0, -1]), R([1, -3, 2]),
    R([1, 0, -3, 0]), R([1], [1, 1]), R([1, 0], [1, 1]), R([2, -1], [1, 2]), R([3], [F(1, 2), 3]), R([1, 0], [1, 0, 2]),
    R([-1, 0, 1], [1, 4]), R([1, -2], [2, -4]),
    R([2], [-1, -1]), R([1, 0, 0, 0, 0]), R([1, -3, 3, -1]), R([1, -4, 6, -4, 2]), R([-1, 3, -3, 2], [3]),
    R([1, 0, -F(1, 4) - F(1, 5 * 10 ** 9)]), R([F(12345, 6789), -F(98765, 4321)], [1, 4]), R([1, -2, 0, 2, -1]), R([-1, 0], [-1, -1]),
]
NUMS = [0, 1, 2, -3, F(1, 2), F(-5, 3)]
XS = [F(0), F(1), F(2), F(-1, 2), F(1, 3), F(5), F(-7, 2)]


def same(lib, want, what, ctx):
    """want: function x -> Fraction or None where undefined."""
    n = 0
    for x in XS:
        w = want(x)
        if w is None:
            continue
        v = exact(lib.at(x))
        if v != w:
            raise Bad(f"{what}: value {v} at {x}, expected {w}")
        n += 1
        ctx.step()
    if n < 3:
        raise RuntimeError("vacuous comparison")


OPS = {
    "+": (lambda a, b: a + b), "-": (lambda a, b: a - b), "*": (lambda a, b: a * b),
    "/": (lambda a, b: a / b),
}


def bin_cases(tier):
    for i, j in product(range(len(FUN)), repeat=2):
        for op in OPS:
            if op == "/" and j == 0:
                continue
            yield [op, i, j]


def run_bin(case, ctx):
    op, i, j = case
    a, b = FUN[i], FUN[j]
    la, lb = a.lib(), b.lib()

    def want(x):
        u, v = a.at(x), b.at(x)
        if u is None or v is None or (op == "/" and v == 0):
            return None
        return OPS[op](u, v)
    res = OPS[op](la, lb)
    if not isinstance(res, RationalFunction):
        raise Bad(f"{op} does not give a rational function")
    same(res, want, f"#{i} {op} #{j}", ctx)
    same(la, a.at, "left operand afterwards", ctx)
    same(lb, b.at, "right operand afterwards", ctx)
    named = {"+": la.add, "-": la.subtract, "*": la.mul, "/": la.div}[op](lb)
    same(named, want, f"#{i} {op} #{j} by name", ctx)
    ctx.state((op, i, j))
    ctx.outcome(op)


def num_cases(tier):
    for i in range(len(FUN)):
        for k in range(len(NUMS)):
            for op in OPS:
                if op == "/" and NUMS[k] == 0:
                    continue
                yield [op, i, k]


def run_num(case, ctx):
    op, i, k = case
    a, c = FUN[i], NUMS[k]
    want = lambda x: None if a.at(x) is None else OPS[op](a.at(x), F(c))
    res = OPS[op](a.lib(), c)
    same(res, want, f"#{i} {op} {c}", ctx)
    ctx.state((op, i, str(c)))
    ctx.outcome(op)


def eq_cases(tier):
    for i, j in product(range(len(FUN)), repeat=2):
        yield [i, j]


def run_eq(case, ctx):
    i, j = case
    a, b = FUN[i], FUN[j]
    pts = [x for x in XS + [F(k, 7) for k in range(1, 9)] if a.at(x) is not None and b.at(x) is not None]
    want = all(a.at(x) == b.at(x) for x in pts)
    if bool(a.lib() == b.lib()) != want:
        raise Bad(f"#{i} == #{j} answered {a.lib() == b.lib()}")
    # equality is that of values: a common factor does not matter
    m = R([F(3), F(15)])
    if not (a.lib() * m.lib()) / m.lib() == a.lib():
        raise Bad(f"#{i} times a factor over the same factor is not #{i}")
    if (a.lib() == b.lib()) != (b.lib() == a.lib()):
        raise Bad("equality is not symmetric")
    ctx.state((i, j))
    ctx.step(3)
    ctx.outcome(want)


def parse_cases(tier):
    for i in range(len(FUN)):
        yield [i, "expr"]
        yield [i, "chain"]
    for k in range(len(TEXT)):
        yield [k, "text"]


TEXT = [("3/(10*x-7)", R([3], [10, -7])), ("1", R([1])), ("3/(2 - x)", R([3], [-1, 2])), ("(2*x-1)/(3-x**2)", R([2, -1], [-1, 0, 3])),
        ("2/(9*x - 6)", R([2], [9, -6])), ("0", R([0])), ("5/3", R([F(5, 3)])), ("1/x + 1", R([1, 1], [1, 0])),
        ("3/(40*x - 35)", R([3], [40, -35])), ("4*(1-x)*(x+2)", R([-4, -4, 8])), ("x*(1-x)/(2*x+1)", R([-1, 1, 0], [2, 1]))]


def run_parse(case, ctx):
    k, kind = case
    if kind == "text":
        t, r = TEXT[k]
    else:
        r = FUN[k]
        t = r.expr()
    f = RationalFunction.parse(t)
    same(f, r.at, f"parse of {t}", ctx)
    if not f == r.lib():
        raise Bad(f"parse of {t} is not equal to the function")
    if kind == "chain":  # several operations in a row
        g = (f + 1) * f - f / 2
        want = lambda x: None if r.at(x) is None else (r.at(x) + 1) * r.at(x) - r.at(x) / 2
        same(g, want, f"(f+1)*f - f/2 with f = {t}", ctx)
    if not repr(f):
        raise Bad("no printed form")
    ctx.state((k, kind))
    ctx.outcome(kind)


INTS = [(F(0), F(2), True, True), (F(1), F(3), True, True), (F(-1, 2), F(1), False, False), (F(0), F(0), True, True),
        (F(1, 3), F(5, 2), True, False), (F(2), F(4), True, True), (F(-3), F(5), True, True), (F(-1), F(1, 2), True, True)]


def poles_in(r, i):
    # by exact sampling of the (at most quadratic) denominators
    if len(r.den) == 1:
        return False
    if len(r.den) == 2:
        p = -r.den[1] / r.den[0]
        return i[0] <= p <= i[1]
    if r.den == (1, 0, 2):
        return False
    raise RuntimeError("unexpected denominator")


def ext_cases(tier):
    for i in range(len(FUN)):
        for k in range(len(INTS)):
            if not poles_in(FUN[i], INTS[k]):
                yield [i, k]


def run_ext(case, ctx):
    i, k = case
    f, (a, b, lo, up) = FUN[i], INTS[k]
    I = Interval(a, b, lo, up)
    lib = f.lib()
    grid = [a + (b - a) * F(t, 60) for t in range(61)]
    vals = [float(f.at(x)) for x in grid]
    for name, sgn in (("maximise", 1), ("minimise", -1)):
        x, v = getattr(lib, name)(I)
        xf, vf = approx(x), approx(v)
        if not float(a) - 1e-12 <= xf <= float(b) + 1e-12:
            raise Bad(f"{name} of #{i} on {I}: attained at {x}, outside")
        at = lib.at(x)
        if abs(approx(at) - vf) > 1e-12 or abs(float(f.at(F(xf))) - vf) > 1e-9:
            raise Bad(f"{name} of #{i} on {I}: the value at {x} is not {v}")
        best = max(sgn * y for y in vals)
        if sgn * vf < best - 1e-12:
            raise Bad(f"{name} of #{i} on {I}: {v} is beaten on the grid by {sgn * best}")
        ctx.step(len(grid))
    ctx.state((i, k))
    ctx.outcome(case[1])


def root_cases(tier):
    for i, j in product(range(len(FUN)), repeat=2):
        for k in range(len(INTS)):
            if not poles_in(FUN[i], INTS[k]) and not poles_in(FUN[j], INTS[k]):
                if tier == "thorough" or k in (0, 2, 6):
                    yield [i, j, k]


def poly_mul(p, q):
    out = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            out[i + j] += a * b
    return out


def poly_sub(p, q):
    n = max(len(p), len(q))
    p = [F(0)] * (n - len(p)) + list(p)
    q = [F(0)] * (n - len(q)) + list(q)
    out = [a - b for a, b in zip(p, q)]
    while len(out) > 1 and out[0] == 0:
        out.pop(0)
    return out


def deriv(p):
    n = len(p) - 1
    return [c * (n - i) for i, c in enumerate(p[:-1])] or [F(0)]


def rem(p, q):
    p = list(p)
    while len(p) >= len(q) and any(p):
        f = p[0] / q[0]
        for i in range(len(q)):
            p[i] -= f * q[i]
        p.pop(0)
    while len(p) > 1 and p[0] == 0:
        p.pop(0)
    return p or [F(0)]


def quo(p, q):
    p, out = list(p), []
    while len(p) >= len(q):
        out.append(p[0] / q[0])
        p = [c - out[-1] * d for c, d in zip(p, list(q) + [F(0)] * len(p))][1:]
    return out


def count_roots(p, a, b):
    """Distinct real roots of a non-zero polynomial in (a, b], by Sturm's theorem."""
    g, h = p, deriv(p)
    while any(h):  # remove multiple roots
        g, h = h, rem(g, h)
    p = quo(p, g)
    seq = [p, deriv(p)]
    while len(seq[-1]) > 1 or seq[-1][0] != 0:
        r = [-c for c in rem(seq[-2], seq[-1])]
        if not any(r):
            break
        seq.append(r)

    def sc(x):
        s = [v for v in (ev(q, x) for q in seq) if v != 0]
        return sum(1 for u, w in zip(s, s[1:]) if u * w < 0)
    return sc(a) - sc(b)


def run_root(case, ctx):
    i, j, k = case
    f, g = FUN[i], FUN[j]
    a, b, lo, up = INTS[k]
    I = Interval(a, b, lo, up)
    p = poly_sub(poly_mul(f.num, g.den), poly_mul(f.den, g.num))
    got = f.lib().intersections(g.lib(), I)
    if len(p) == 1:
        want = 0
    else:
        want = count_roots(p, a, b) if a < b else 0
        if up is False and ev(p, b) == 0 and a < b:
            want -= 1
        if lo and ev(p, a) == 0:
            want += 1
    d = []
    for x in got:
        xf = approx(x)
        if not I.contains(x):
            raise Bad(f"crossing {x} of #{i} and #{j} lies outside {I}")
        if abs(float(f.at(F(xf)) - g.at(F(xf)))) > 1e-11:
            raise Bad(f"#{i} and #{j} do not cross at {x}")
        if not any(abs(xf - y) < 1e-12 for y in d):
            d.append(xf)
    if len(d) != want:
        raise Bad(f"#{i} and #{j} cross {want} times in {I}, reported {got}")
    if j == 0:
        r = f.lib().roots(I)
        if len(p) > 1 and len({round(approx(x), 12) for x in r}) != want:
            raise Bad(f"#{i} has {want} roots in {I}, reported {r}")
        for x in r:
            if not I.contains(x) or abs(approx(f.lib().at(x))) > 1e-11:
                raise Bad(f"{x} is no root of #{i} in {I}")
    ctx.state((i, j, k))
    ctx.step(1 + len(d))
    ctx.outcome(want)


def groups(tier):
    return [Group("operations", bin_cases, run_bin), Group("numbers", num_cases, run_num), Group("equality", eq_cases, run_eq),
            Group("parse", parse_cases, run_parse), Group("extrema", ext_cases, run_ext), Group("crossings", root_cases, run_root)]
