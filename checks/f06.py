"""F06: polynomials form a ring, and printed polynomials denote the polynomial."""
from itertools import product
from fractions import Fraction as F
import re, copy
from mc.core import Group, Bad
from mc.ratf import ev
from polynomial import Polynomial
from functions import RationalFunction2, Interval

ID = "F06"
COVERAGE = (
    "every polynomial of degree at most 3 (thorough: 4) over small coefficient sets and sparse ones of degree up to 12 with large and small coefficients: normal form, degree, printing "
    "(parsed back independently), every pair through + - *, every quotient; every small numerator/denominator of the "
    "printed rational functions.  state = distinct result polynomial, transition = one comparison, trace = one operation"
)


def polys(maxdeg, coeffs):
    yield ()
    for d in range(maxdeg + 1):
        for c in product(coeffs, repeat=d):
            for l in coeffs:
                if l != 0:
                    yield c + (l,)


def parse(text, var):
    """Coefficients, lowest first, of a printed polynomial; independent of the library."""
    t = text.replace(" ", "")
    if t == "":
        raise Bad("empty text")
    out = {}
    pos = 0
    tok = re.compile(r"([+-]?)(\d+(?:/\d+)?)?(" + re.escape(var) + r"(?:\^(\d+))?)?")
    first = True
    while pos < len(t):
        m = tok.match(t, pos)
        if not m or m.end() == pos or (m.group(2) is None and m.group(3) is None):
            raise Bad(f"{text!r} is not a polynomial")
        if not first and m.group(1) == "":
            raise Bad(f"{text!r} is not a polynomial")
        first = False
        c = F(m.group(2)) if m.group(2) else F(1)
        if m.group(1) == "-":
            c = -c
        e = 0 if m.group(3) is None else int(m.group(4)) if m.group(4) else 1
        out[e] = out.get(e, 0) + c
        pos = m.end()
    n = max(out) + 1
    return trim([out.get(i, F(0)) for i in range(n)])


def trim(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return tuple(c)


def mul(p, q):
    if not p or not q:
        return ()
    out = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            out[i + j] += a * b
    return trim(out)


def add(p, q, s=1):
    n = max(len(p), len(q))
    g = lambda c, i: c[i] if i < len(c) else 0
    return trim([g(p, i) + s * g(q, i) for i in range(n)])


BIG = [F(10 ** 20 + 7), F(-10 ** 15), F(1, 10 ** 17), F(-123456789, 1000), F(11), F(-12)]


def sparse(tier):
    """few terms, high degrees, large and small coefficients"""
    for d in (4, 5, 7, 10, 12):
        for n, (i, lead) in enumerate(product(range(d), BIG)):
            c = [F(0)] * (d + 1)
            c[d] = lead
            if i:
                c[i] = BIG[(n + d) % len(BIG)]
            if n % 3 == 0:
                c[i // 2] = F(1)
            if n % 3 == 1:
                c[d - 1] = F(-1)
            yield tuple(c)


def one_cases(tier):
    cs = [-2, -1, 0, 1, 3] if tier == "thorough" else [-2, -1, 0, 1]
    for c in polys(4 if tier == "thorough" else 3, cs):
        yield list(c)
    for c in polys(2, [F(1, 2), F(-2, 3), 0, 1]):
        yield [str(x) for x in c]
    for c in sparse(tier):
        yield [str(x) for x in c]


def run_one(case, ctx):
    c = tuple(F(x) if isinstance(x, str) else x for x in case)
    p = Polynomial(c)
    if p.degree() != (len(c) - 1 if c else float("-inf")) or p.is_zero() != (not c):
        raise Bad(f"{c}: wrong degree or zero test")
    for var in ("x", "t"):
        if parse(p.to_str(var), var) != tuple(F(x) for x in c):
            raise Bad(f"{c} is printed as {p.to_str(var)!r}")
    if repr(p) != p.to_str("x"):
        raise Bad("the printed form differs from the string in x")
    if not (copy.copy(p) == p) or not (p == Polynomial(c)):
        raise Bad("a copy is not equal")
    try:
        Polynomial(c + (0,))
    except ValueError:
        pass
    else:
        raise Bad("a zero leading coefficient was accepted")
    ctx.state(c)
    ctx.step(6)
    ctx.outcome(len(c))


def pair_cases(tier):
    cs = [-2, -1, 0, 1] if tier == "thorough" else [-1, 0, 2]
    L = list(polys(2 if tier == "thorough" else 2, cs)) + [(1, -1, 1, -1), (0, 0, 0, 1), (F(1, 2), 1), (F(-1, 2), 0, F(3, 4))]
    for a, b in product(L, repeat=2):
        yield [[str(x) for x in a], [str(x) for x in b]]
    H = list(sparse(tier))
    for i, a in enumerate(H):
        for k in (1, 7, 30) if tier == "quick" else (1, 2, 3, 5, 7, 11, 13, 30, 61):
            b = H[(i + k) % len(H)]
            yield [[str(x) for x in a], [str(x) for x in b]]
            # the same with a cancelling leading term
            c = list(b) + [F(0)] * (len(a) - len(b))
            if len(b) <= len(a):
                c[len(a) - 1] = -a[-1]
                yield [[str(x) for x in a], [str(x) for x in c]]


def run_pair(case, ctx):
    a, b = [tuple(F(x) for x in c) for c in case]
    p, q = Polynomial(a), Polynomial(b)
    for name, got, want in (("+", p + q, add(a, b)), ("-", p - q, add(a, b, -1)), ("*", p * q, mul(a, b)),
                            ("add", p.add(q), add(a, b)), ("subtract", p.subtract(q), add(a, b, -1)),
                            ("multiply", p.multiply(q), mul(a, b))):
        if tuple(got.coefficients) != want or not (got == Polynomial(want)):
            raise Bad(f"{p} {name} {q} = {got}")
        if got.degree() != (len(want) - 1 if want else float("-inf")):
            raise Bad(f"{p} {name} {q} has degree {got.degree()}")
        ctx.state(want)
        ctx.step()
    if p.coefficients != a or q.coefficients != b:
        raise Bad("an operand changed")
    if (p == q) != (a == b):
        raise Bad("equality is wrong")
    if b:
        check_quotient(str(p.divide(q)), tuple(reversed(a)), tuple(reversed(b)), ctx)
    else:
        try:
            p.divide(q)
        except ValueError:
            pass
        else:
            raise Bad("division by the zero polynomial was accepted")
    ctx.outcome((len(a), len(b)))


def check_quotient(text, num, den, ctx):
    """text denotes num/den (coefficients, highest degree first)."""
    text = text.split(" on ")[0]
    strip = lambda s: s[1:-1] if s.startswith("(") else s
    # a bare constant fraction is a number, not a quotient of polynomials
    if "x" not in text:
        v = F(text)
        pairs = ((v,), (F(1),))
        n, d = (v,), (F(1),)
    else:
        s = text
        if s.startswith("("):
            i = s.index(")")
            a, rest = s[1:i], s[i + 1:]
        else:
            # split at a slash followed by something that is no number, or at the last slash
            a, rest = s, ""
            k = [j for j, ch in enumerate(s) if ch == "/"]
            for j in reversed(k):
                left, right = s[:j], s[j + 1:]
                if right.startswith("(") or not re.match(r"\d", right):
                    a, rest = left, s[j:]
                    break
            else:
                for j in k:
                    if try_parse(s[:j]) is not None and try_parse(s[j + 1:]) is not None:
                        if "x" in s[j + 1:] or s[:j].endswith("x") or re.search(r"\^\d+$", s[:j]):
                            a, rest = s[:j], s[j:]
        b = rest[1:] if rest else "1"
        n = tuple(reversed(parse(strip(a), "x")))
        d = tuple(reversed(parse(strip(b), "x")))
    for k in range(7):
        x = F(2 * k + 3, 5)
        dv, wv = ev(d, x), ev(den, x)
        if dv == 0 and wv != 0:
            raise Bad(f"{text!r} has the wrong denominator for {num}/{den}")
        if wv != 0 and ev(n, x) / dv != ev(num, x) / wv:
            raise Bad(f"{text!r} is not {num}/{den}")
        ctx.step()


def try_parse(s):
    try:
        return parse(s.strip("()"), "x")
    except Bad:
        return None


def rf_cases(tier):
    cs = [F(-1), F(0), F(1), F(2)]
    top = [c for n in (1, 2, 3) for c in product(cs, repeat=n) if len(c) == 1 or c[0] != 0]
    den = [(F(1),), (F(2),), (F(1), F(0)), (F(1), F(1)), (F(-1), F(2)), (F(1), F(0), F(1))]
    for n in top:
        for d in den:
            yield [[str(x) for x in n], [str(x) for x in d]]
        yield [[str(x) for x in n], None]


def run_rf(case, ctx):
    n = [F(x) for x in case[0]]
    d = [F(x) for x in case[1]] if case[1] else [F(1)]
    I = Interval(F(0), F(1))
    r = RationalFunction2((n, d), I) if case[1] else RationalFunction2(n, I)
    t = repr(r)
    if not t.endswith(" on [0,1)"):
        raise Bad(f"{t!r} does not name the domain")
    check_quotient(t, tuple(n), tuple(d), ctx)
    z = all(c == 0 for c in n)
    const = all(c == 0 for c in n[:-1]) and all(c == 0 for c in d[:-1])
    aff = all(c == 0 for c in n[:-2]) and all(c == 0 for c in d[:-1])
    if r.is_zero() != z or (not z and (r.is_constant() != const or r.is_affine() != aff)):
        raise Bad(f"{t}: wrong zero/constant/affine test")
    ctx.state((tuple(n), tuple(d)))
    ctx.step()
    ctx.outcome((z, const))


def groups(tier):
    return [Group("one", one_cases, run_one), Group("pairs", pair_cases, run_pair), Group("quotients", rf_cases, run_rf)]
