"""Families of small polytopes and the bridge between the library's Polytope objects and
the exact reference masks."""
from fractions import Fraction as F
from itertools import combinations
from mc.core import Bad, HarnessError, fr
from mc.geom import Arrangement, prim, plane

from polytope import Polytope, Constraint


class Space:
    """Arrangements over a base alphabet, extended on demand with unforeseen rows."""

    def __init__(self, dim, rows, M=1000):
        self.dim = dim
        self.M = M    # half the side of a box around everything which happens
        self.base_rows = [tuple(r) for r in rows]
        self.base = Arrangement(dim, self.base_rows, M)
        self.ext = {}

    def get(self, rows):
        extra = sorted({plane(r) for r in rows if not self.base.knows(r)})
        if not extra:
            return self.base
        key = tuple(extra)
        a = self.ext.get(key)
        if a is None:
            if len(self.ext) > 400:
                self.ext.clear()
            a = Arrangement(self.dim, self.base_rows + list(extra), self.M)
            self.ext[key] = a
        return a


def rows_of(p):
    """(inequality rows, equality rows) of a Polytope, through its public interface."""
    ineq, eq = [], []
    for c in p.get_constraints():
        row = tuple(fr(x) for x in c.coefficients)
        if c.inequality_type == Constraint.GREATER_EQUALS:
            ineq.append(row)
        elif c.inequality_type == Constraint.EQUALS:
            eq.append(row)
        else:
            raise Bad("a polytope reported a strict constraint")
    return ineq, eq


def build(spec):
    """Polytope from (ineqs, eqs); equalities enter through an intersection."""
    ineqs, eqs = spec
    if not eqs:
        return Polytope([list(r) for r in ineqs])
    e = Polytope([list(r) for r in eqs], linear=True)
    if not ineqs:
        return e
    return Polytope.intersection(
        [Polytope([list(r) for r in ineqs]), e], canonicalize=False
    )


def mask_of(space, polys):
    """(arrangement knowing every row of every polytope, [masks])."""
    rs = [rows_of(p) for p in polys]
    rows = [r for (a, b) in rs for r in a + b]
    for r in rows:
        if len(r) != space.dim + 1:
            raise Bad(f"result lives in dimension {len(r) - 1}, expected {space.dim}")
    A = space.get(rows)
    return A, [A.poly(a, b) for (a, b) in rs]


def spec_mask(A, spec):
    return A.poly(spec[0], spec[1])


FAR = 10 ** 40
# x_i = (y_i - t_i) / s_i : thin, distant and huge copies of a family
WARP = [[(F(1, 10 ** 7), F(1, 3)), (F(3, 7) * 10 ** 9, F(-1, 11)), (F(1, 10 ** 13), F(10 ** 6)), (F(1), F(0))],
        [(F(10 ** 5), F(-10 ** 8, 7)), (F(1, 10 ** 9), F(1)), (F(22, 7), F(10 ** 10)), (F(1), F(0))]]


def warp(row, k):
    """the row of the k-th distorted copy"""
    w = WARP[k]
    return prim((F(row[0]) - sum(F(c) * t / s for c, (s, t) in zip(row[1:], w)),) + tuple(F(c) / s for c, (s, t) in zip(row[1:], w)))


def warp_spec(spec, k):
    return tuple(tuple(warp(r, k) for r in rows) for rows in spec)


def warp_pt(p, k):
    return tuple(F(x) * s + t for x, (s, t) in zip(p, WARP[k]))


def reach(*rowlists):
    """a box size containing everything which happens: larger for the distorted families"""
    return FAR if any(abs(x) > 10 ** 4 for rows in rowlists for r in rows for x in prim(r)) else 1000


def popcount(x):
    return bin(x).count("1")


# ------------------------------------------------------------------------- alphabets

H1 = [(0, 1), (-1, 1), (-2, 1), (0, -1), (1, -1), (2, -1)]

H2 = [
    (0, 1, 0),     # x >= 0
    (-1, 1, 0),    # x >= 1
    (1, -1, 0),    # x <= 1
    (2, -1, 0),    # x <= 2
    (0, 0, 1),     # y >= 0
    (1, 0, -1),    # y <= 1
    (2, 0, -1),    # y <= 2
    (2, -1, -1),   # x + y <= 2
    (0, 1, -1),    # x >= y
    (-1, 2, 1),    # 2x + y >= 1
]
E2 = [(-1, 1, 0), (0, 1, -1), (-1, 0, 1)]

H3 = [
    (0, 1, 0, 0), (1, -1, 0, 0), (2, -1, 0, 0), (-1, 1, 0, 0),
    (0, 0, 1, 0), (1, 0, -1, 0), (2, 0, -1, 0),
    (0, 0, 0, 1), (1, 0, 0, -1), (2, 0, 0, -1),
    (2, -1, -1, 0), (3, -1, -1, -1), (0, 0, 1, -1),
]
E3 = [(-1, 1, 0, 0), (0, 0, 1, -1)]


def family(space, hs, es, maxh, maxe, dedupe=True, bounded=None, keep=lambda m, A: True):
    """All intersections of at most maxh half-spaces and maxe hyperplanes, optionally one
    representative (the first, i.e. the shortest) per point set."""
    out, seen = [], set()
    for ne in range(maxe + 1):
        for e in combinations(es, ne):
            for nh in range(0 if ne else 1, maxh + 1):
                for h in combinations(hs, nh):
                    m = space.base.poly(h, e)
                    if not keep(m, space.base):
                        continue
                    if dedupe:
                        if m in seen:
                            continue
                        seen.add(m)
                    out.append((tuple(h), tuple(e)))
    return out


def spec_from_json(s):
    return (tuple(tuple(r) for r in s[0]), tuple(tuple(r) for r in s[1]))
