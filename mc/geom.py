"""Exact reference semantics of small polyhedra.

An Arrangement enumerates one rational witness point for every face (of every dimension)
of a finite hyperplane arrangement inside a large open box.  Every boolean combination of
half-spaces bounded by those hyperplanes is then the same thing as a bit set over the
witnesses, so equality/containment/emptiness questions are decided exactly, by finite
enumeration, with no reference to any LP or double-description code."""
from fractions import Fraction as F
from math import gcd
from mc.core import HarnessError


def prim(row):
    """Primitive integer form of a row (positive multiple of it)."""
    row = [F(x) for x in row]
    den = 1
    for x in row:
        den = den * x.denominator // gcd(den, x.denominator)
    r = [int(x * den) for x in row]
    g = 0
    for x in r:
        g = gcd(g, x)
    if g == 0:
        return tuple(r)
    return tuple(x // g for x in r)


def plane(row):
    """Canonical form of the hyperplane row.(1,x)=0, or None if it is no hyperplane."""
    r = prim(row)
    if all(x == 0 for x in r[1:]):
        return None
    lead = next(x for x in r[1:] if x != 0)
    return r if lead > 0 else tuple(-x for x in r)


def val(row, pt):
    s = row[0]
    for a, b in zip(row[1:], pt):
        if a:
            s += a * b
    return s


class Arrangement:
    def __init__(self, dim, rows, M=1000):
        self.dim = dim
        self.M = M
        planes = []
        seen = set()
        for r in rows:
            if len(r) != dim + 1:
                raise HarnessError(f"row {r} has the wrong dimension")
            p = plane(r)
            if p is not None and p not in seen:
                seen.add(p)
                planes.append(p)
        self.planes = planes
        self.known = seen
        self._build()
        self._cache = {}

    def _build(self):
        d, M = self.dim, self.M
        # constraint planes of the box are tight-set bits 0 .. 2d-1
        verts = [()]
        for i in range(d):
            verts = [v + (s,) for v in verts for s in (F(-M), F(M))]
        cell = []
        for v in verts:
            t = 0
            for i in range(d):
                t |= 1 << (2 * i + (1 if v[i] > 0 else 0))
            cell.append((v, t))
        # face: (list of (vertex, tight mask), affine dimension)
        faces = [(cell, d)]
        for k, h in enumerate(self.planes):
            bit = 1 << (2 * d + k)
            new = []
            for (gens, dim) in faces:
                vals = [val(h, v) for v, _ in gens]
                hasp = any(x > 0 for x in vals)
                hasn = any(x < 0 for x in vals)
                marked = [(v, t | bit) if x == 0 else (v, t) for (v, t), x in zip(gens, vals)]
                if not (hasp and hasn):
                    new.append((marked, dim))
                    continue
                cross = {}
                n = len(gens)
                for i in range(n):
                    if vals[i] <= 0:
                        continue
                    for j in range(n):
                        if vals[j] >= 0:
                            continue
                        com = gens[i][1] & gens[j][1]
                        if any(
                            m != i and m != j and (gens[m][1] & com) == com
                            for m in range(n)
                        ):
                            continue
                        lam = vals[i] / (vals[i] - vals[j])
                        p = tuple(
                            a + lam * (b - a) for a, b in zip(gens[i][0], gens[j][0])
                        )
                        cross[p] = com | bit
                zero = [g for g, x in zip(marked, vals) if x == 0]
                cr = list(cross.items())
                pos = [g for g, x in zip(marked, vals) if x > 0] + zero + cr
                neg = [g for g, x in zip(marked, vals) if x < 0] + zero + cr
                new.append((pos, dim))
                new.append((neg, dim))
                new.append((zero + cr, dim - 1))
            faces = new
        self.points = []
        self.full = 0  # bit set of the full dimensional cells
        for i, (gens, dim) in enumerate(faces):
            n = len(gens)
            c = tuple(sum(v[j] for v, _ in gens) / n for j in range(self.dim))
            self.points.append(c)
            if all(val(h, c) != 0 for h in self.planes):
                self.full |= 1 << i
        self.n = len(self.points)
        self.all = (1 << self.n) - 1

    def knows(self, row):
        p = plane(row)
        return p is None or p in self.known

    def mask(self, row, op=">="):
        """Bit set of the witnesses with row.(1,x) op 0."""
        key = (tuple(row), op)
        m = self._cache.get(key)
        if m is None:
            m = 0
            for i, p in enumerate(self.points):
                v = val(row, p)
                if (v >= 0) if op == ">=" else (v > 0) if op == ">" else (v == 0):
                    m |= 1 << i
            self._cache[key] = m
        return m

    def poly(self, ineqs=(), eqs=()):
        m = self.all
        for r in ineqs:
            m &= self.mask(r, ">=")
        for r in eqs:
            m &= self.mask(r, "==")
        return m

    def of(self, pred):
        m = 0
        for i, p in enumerate(self.points):
            if pred(p):
                m |= 1 << i
        return m

    def show(self, mask, k=3):
        pts = [self.points[i] for i in range(self.n) if mask >> i & 1]
        return ", ".join("(" + ",".join(str(x) for x in p) + ")" for p in pts[:k])


# ------------------------------------------------------------------ small exact helpers


def solve2(r1, r2):
    """Intersection point of two lines in the plane, or None."""
    a, b, c = r1[1], r1[2], r1[0]
    d, e, f = r2[1], r2[2], r2[0]
    det = a * e - b * d
    if det == 0:
        return None
    return (F(-c * e + b * f) / det, F(-a * f + c * d) / det)


def det(m):
    n = len(m)
    m = [[F(x) for x in r] for r in m]
    res = F(1)
    for i in range(n):
        piv = next((r for r in range(i, n) if m[r][i] != 0), None)
        if piv is None:
            return F(0)
        if piv != i:
            m[i], m[piv] = m[piv], m[i]
            res = -res
        res *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            if f:
                for c in range(i, n):
                    m[r][c] -= f * m[i][c]
    return res


def rank(m):
    m = [[F(x) for x in r] for r in m]
    rk = 0
    cols = len(m[0]) if m else 0
    for c in range(cols):
        piv = next((r for r in range(rk, len(m)) if m[r][c] != 0), None)
        if piv is None:
            continue
        m[rk], m[piv] = m[piv], m[rk]
        for r in range(rk + 1, len(m)):
            f = m[r][c] / m[rk][c]
            if f:
                for k in range(c, cols):
                    m[r][k] -= f * m[rk][k]
        rk += 1
    return rk


def solve(rows):
    """Unique solution of the d x (d+1) homogeneous-form system row.(1,x)=0, or None."""
    d = len(rows[0]) - 1
    m = [[F(x) for x in r[1:]] + [-F(r[0])] for r in rows]
    rk = 0
    for c in range(d):
        piv = next((r for r in range(rk, len(m)) if m[r][c] != 0), None)
        if piv is None:
            return None
        m[rk], m[piv] = m[piv], m[rk]
        p = m[rk][c]
        m[rk] = [x / p for x in m[rk]]
        for r in range(len(m)):
            if r != rk and m[r][c]:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[rk])]
        rk += 1
    return tuple(m[i][d] for i in range(d))


def vertices(ineqs, eqs, dim):
    """All vertices of a polyhedron, by brute force over the constraint subsets."""
    from itertools import combinations

    rows = [tuple(F(x) for x in r) for r in list(ineqs) + list(eqs)]
    out = set()
    for c in combinations(rows, dim):
        p = solve(list(c))
        if p is None:
            continue
        if all(val(r, p) >= 0 for r in ineqs) and all(val(r, p) == 0 for r in eqs):
            out.add(p)
    return out


def in_hull2(pts, p):
    """Is p in the convex hull of pts (2-D, closed)?  Caratheodory, brute force."""
    pts = list(set(pts))
    if p in pts:
        return True
    n = len(pts)
    for i in range(n):
        for j in range(i + 1, n):
            if on_segment(pts[i], pts[j], p):
                return True
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                if in_tri(pts[i], pts[j], pts[k], p):
                    return True
    return False


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(a, b, p):
    if cross(a, b, p) != 0:
        return False
    return (
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def in_tri(a, b, c, p):
    d = cross(a, b, c)
    if d == 0:
        return on_segment(a, b, p) or on_segment(b, c, p) or on_segment(a, c, p)
    s1, s2, s3 = cross(a, b, p), cross(b, c, p), cross(c, a, p)
    return (s1 >= 0 and s2 >= 0 and s3 >= 0) or (s1 <= 0 and s2 <= 0 and s3 <= 0)


def hull2(pts):
    """Extreme points of the convex hull, counterclockwise (Andrew, exact)."""
    pts = sorted(set(pts))
    if len(pts) <= 2:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out

    lo, up = half(pts), half(reversed(pts))
    return lo[:-1] + up[:-1]


def nullspace(m, n):
    """Basis of {x in Q^n : m x = 0}."""
    m = [[F(x) for x in r] for r in m]
    piv = []
    rk = 0
    for c in range(n):
        p = next((r for r in range(rk, len(m)) if m[r][c] != 0), None)
        if p is None:
            continue
        m[rk], m[p] = m[p], m[rk]
        q = m[rk][c]
        m[rk] = [x / q for x in m[rk]]
        for r in range(len(m)):
            if r != rk and m[r][c]:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[rk])]
        piv.append(c)
        rk += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [F(0)] * n
        v[c] = F(1)
        for i, pc in enumerate(piv):
            v[pc] = -m[i][c]
        out.append(v)
    return out


_HS = {}


def hull_spec(pts, dim):
    """(inequalities, equalities) of the convex hull of a non-empty point list, any
    dimension, by brute force over the subsets of the points."""
    from itertools import combinations

    pts = sorted(set(tuple(F(x) for x in p) for p in pts))
    key = (tuple(pts), dim)
    if key in _HS:
        return _HS[key]
    p0 = pts[0]
    diffs = [[a - b for a, b in zip(p, p0)] for p in pts[1:]]
    normals = nullspace(diffs, dim) if diffs else nullspace([], dim)
    eqs = tuple(
        prim([-sum(n[i] * p0[i] for i in range(dim))] + n) for n in normals
    )
    r = dim - len(normals)
    ineqs = set()
    if r >= 1:
        for c in combinations(pts, r):
            sub = [[a - b for a, b in zip(p, c[0])] for p in c[1:]]
            ns = nullspace(sub + [list(n) for n in normals], dim)
            if len(ns) != 1:
                continue
            n = ns[0]
            row = prim([-sum(n[i] * c[0][i] for i in range(dim))] + n)
            vs = [val(row, p) for p in pts]
            if all(v >= 0 for v in vs):
                ineqs.add(row)
            elif all(v <= 0 for v in vs):
                ineqs.add(tuple(-x for x in row))
    _HS[key] = (tuple(sorted(ineqs)), eqs)
    return _HS[key]


def true_edges(ineqs, eqs, dim):
    """Unordered vertex pairs joined by an edge of a bounded polytope."""
    vs = sorted(vertices(ineqs, eqs, dim))
    rows = list(ineqs)
    tight = {v: [r for r in rows if val(r, v) == 0] for v in vs}
    out = set()
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            com = [r for r in tight[a] if val(r, b) == 0]
            com = [r[1:] for r in com] + [r[1:] for r in eqs]
            if (rank(com) if com else 0) == dim - 1:
                out.add((a, b))
    return vs, out
