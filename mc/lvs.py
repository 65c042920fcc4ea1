"""Large value estimates: exact set semantics on the specification side.  A `Set3` is a predicate on
(sigma, tau, rho) together with the hyperplanes that bound it."""
from fractions import Fraction as F
from mc.geom import val, Arrangement
from mc import hyps as M

TOP = F(10) ** 6            # the conventional upper limit of tau and rho
H = F(1, 2)
BOX = [[-H, 1, 0, 0], [1, -1, 0, 0], [0, 0, 1, 0], [TOP, 0, -1, 0], [0, 0, 0, 1], [TOP, 0, 0, -1]]


class Set3:
    def __init__(self, pred, rows):
        self.pred, self.rows = pred, [tuple(r) for r in rows]

    def __and__(self, o):
        return Set3(lambda p: self.pred(p) and o.pred(p), self.rows + o.rows)

    def __or__(self, o):
        return Set3(lambda p: self.pred(p) or o.pred(p), self.rows + o.rows)

    def scale(self, k):
        """image under (sigma, tau, rho) -> (sigma, k tau, k rho)"""
        k = F(k)
        return Set3(lambda p: self.pred((p[0], p[1] / k, p[2] / k)),
                    [(r[0], r[1], F(r[2]) / k, F(r[3]) / k) for r in self.rows])


def poly(rows):
    rows = [tuple(F(x) for x in r) for r in rows]
    return Set3(lambda p: all(val(r, p) >= 0 for r in rows), rows)


def maxbound(bounds):
    """rho <= max of the bounds, inside the conventional box"""
    rows = [tuple(F(x) for x in b) + (F(-1),) for b in bounds]
    return poly(BOX) & Set3(lambda p: any(val(r, p) >= 0 for r in rows), rows)


def everything():
    return Set3(lambda p: True, [])


def arrange(sets, extra=(), M_=F(10) ** 8):
    rows = list(extra)
    for s in sets:
        rows += s.rows
    return Arrangement(3, rows, M=M_)


def lv(bounds, year=1950, name=""):
    import large_values
    return large_values.literature_bound_LV_max([[F(x) for x in b] for b in bounds], M.ref(year), name)


def zlv(bounds, year=1950, name=""):
    import zeta_large_values
    return zeta_large_values.literature_bound_ZLV_Max([[F(x) for x in b] for b in bounds], M.ref(year), name)


def contains(region, p):
    return bool(region.contains(list(p)))


def compare(A, region, spec, what, mask=None, ctx=None):
    """exact agreement on every face of the arrangement (or on the cells of `mask`)"""
    from mc.core import Bad
    got = want = 0
    for i, p in enumerate(A.points):
        if mask is not None and not mask >> i & 1:
            continue
        if spec.pred(p):
            want |= 1 << i
        if contains(region, p):
            got |= 1 << i
        if ctx is not None:
            ctx.step()
    if got & ~want:
        raise Bad(f"{what} contains the infeasible tuple {A.show(got & ~want, 1)}")
    if want & ~got:
        raise Bad(f"{what} lacks the feasible tuple {A.show(want & ~got, 1)}")
    return want


# ---- upper bounds rho <= cap(sigma, tau): exact piecewise affine caps
class Cap:
    """`funcs`: affine functions (c, m, t) of (sigma, tau) among which the cap takes its values;
    `walls`: lines (c, m, t) across which it may change; `at(p)`: its value."""

    def __init__(self, at, funcs, walls=()):
        self.at = at
        self.funcs = [tuple(F(x) for x in f) for f in funcs]
        self.walls = [tuple(F(x) for x in w) for w in walls]

    def power(self, k):
        k = F(k)
        return Cap(lambda s, t: k * self.at(s, t / k),
                   [(k * f[0], k * f[1], f[2]) for f in self.funcs],
                   [(w[0], w[1], w[2] / k) for w in self.walls])


def aff(f, s, t):
    return f[0] + f[1] * s + f[2] * t


def cap_max(bounds):
    bounds = [tuple(F(x) for x in b) for b in bounds]
    return Cap(lambda s, t: max(aff(b, s, t) for b in bounds), bounds)


def cap_mu(s0, m0):
    """rho = 0 for sigma > s0 + tau m0, rho <= tau otherwise"""
    s0, m0 = F(s0), F(m0)
    return Cap(lambda s, t: F(0) if s > s0 + m0 * t else t, [(0, 0, 0), (0, 0, 1)], [(s0, -1, m0)])


def cap_beta(bounds):
    """bounds: (m, c, a0, a1): beta(alpha) <= m alpha + c on [a0, a1]; rho = 0 for sigma > tau beta(1/tau)"""
    bounds = [tuple(F(x) for x in b) for b in bounds]

    def at(s, t):
        vals = [b[0] + b[1] * t for b in bounds if b[2] <= 1 / t <= b[3]]
        return F(0) if vals and s > min(vals) else t
    walls = [(b[0], -1, b[1]) for b in bounds]
    for b in bounds:
        for a in (b[2], b[3]):
            if a > 0:
                walls.append((-1 / a, 0, 1))
    for i, b in enumerate(bounds):
        for c in bounds[:i]:
            if b[1] != c[1]:
                walls.append((b[0] - c[0], 0, b[1] - c[1]))
    return Cap(at, [(0, 0, 0), (0, 0, 1)], walls)


def all_funcs(caps):
    return sorted({f for c in caps for f in c.funcs} | {(F(0), F(0), F(0))})


def witnesses(caps, verts, extra=()):
    """one point of every cell of the (sigma, tau) plane on which all caps are affine and ordered,
    for the cells meeting the polygon with the given vertices; extra: more lines"""
    fs = all_funcs(caps)
    lines = [tuple(F(x) for x in r) for r in extra] + [w for c in caps for w in c.walls]
    for i, f in enumerate(fs):
        for g in fs[:i]:
            lines.append(tuple(a - b for a, b in zip(f, g)))
    keep = []
    for l in lines:
        vs = [aff(l, *v) for v in verts]
        if any(x > 0 for x in vs) and any(x < 0 for x in vs) or l in [tuple(F(x) for x in r) for r in extra]:
            keep.append(l)
    A = Arrangement(2, keep, M=F(10) ** 4)
    return [p for i, p in enumerate(A.points) if A.full >> i & 1]


def rho_levels(caps, s, t, top):
    vals = sorted({aff(f, s, t) for f in all_funcs(caps)} | {F(0), F(top)})
    out = [vals[0] - 1, vals[-1] + 1] + [(a + b) / 2 for a, b in zip(vals, vals[1:])]
    return out


def sup_ratio(caps, s, lo, hi):
    """sup over the open cells of [lo, hi] on which the cap is positive of cap/tau, None when there is none;
    also the distance-free flag that no cell boundary is degenerate at this sigma is the caller's business"""
    fs = all_funcs(caps)
    crit = {lo, hi}
    for i, f in enumerate(fs):
        for g in fs[:i]:
            d = f[2] - g[2]
            if d:
                crit.add(-(f[0] - g[0] + (f[1] - g[1]) * s) / d)
    for c in caps:
        for w in c.walls:
            if w[2]:
                crit.add(-(w[0] + w[1] * s) / w[2])
    crit = sorted(x for x in crit if lo <= x <= hi)
    best = None
    for a, b in zip(crit, crit[1:]):
        mid = (a + b) / 2
        v = min(c.at(s, mid) for c in caps) if caps else TOP
        if v <= 0:
            continue
        f = next(f for f in fs if aff(f, s, mid) == v) if caps else (TOP, F(0), F(0))
        for t in (a, b):
            r = aff(f, s, t) / t
            if best is None or r > best:
                best = r
    return best
