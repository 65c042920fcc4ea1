"""Exact rational functions for the reference side: pairs of coefficient tuples, highest
degree first."""
from fractions import Fraction as F
from mc.core import Bad


def ev(p, x):
    s = F(0)
    for c in p:
        s = s * x + c
    return s


class R:
    def __init__(self, num, den=(1,)):
        self.num, self.den = tuple(F(c) for c in num), tuple(F(c) for c in den)

    def at(self, x):
        d = ev(self.den, x)
        return None if d == 0 else ev(self.num, x) / d

    def lib(self):
        from functions import RationalFunction
        n, d = [F(c) for c in self.num], [F(c) for c in self.den]
        return RationalFunction(n, d)

    def expr(self):
        def poly(p):
            n = len(p) - 1
            return " + ".join(f"({c})*x**{n - i}" for i, c in enumerate(p)) or "0"
        return f"({poly(self.num)})/({poly(self.den)})"

    def key(self):
        return (self.num, self.den)


class Sqrt:
    """c sqrt(1 - x); its values are known exactly where 1 - x is a square"""

    def __init__(self, c):
        self.c = F(c)

    def at(self, x):
        from math import isqrt
        y = 1 - F(x)
        if y < 0:
            return None
        p, q = isqrt(y.numerator), isqrt(y.denominator)
        if p * p != y.numerator or q * q != y.denominator:
            raise ValueError("not a square")
        return self.c * F(p, q)

    def lib(self):
        from functions import RationalFunction
        return RationalFunction.parse(self.expr())

    def expr(self):
        return f"{float(self.c)} * (1 - x) ** (1/2)"

    def key(self):
        return ("sqrt", self.c)


def exact(v):
    """Exact rational from a value the library returned, or None when it is not one."""
    import sympy
    if v is None:
        return None
    if isinstance(v, F) or isinstance(v, int):
        return F(v)
    if isinstance(v, float):
        return F(v)
    v = sympy.simplify(v)
    if v.is_Float:
        return F(str(float(v)))
    if v.is_Rational:
        return F(int(v.p), int(v.q))
    return None


def approx(v):
    import sympy
    if isinstance(v, (F, int, float)):
        return float(v)
    return float(sympy.N(v, 30))
