"""Shared tools for hypothesis sets: a controlled iteration order, exact planar hulls and
an independent check of derivation trees."""
from fractions import Fraction as F
from mc.core import Bad
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from exponent_pair import Exp_pair
from bound_mu import Bound_mu

_next = [1 << 20]


def _hash(self):
    h = self.__dict__.get("_mc_rank")
    if h is None:
        _next[0] += 1
        h = self.__dict__["_mc_rank"] = _next[0]
    return h


def control_order():
    """Sets of hypotheses iterate in the order of their rank: creation order, unless the
    harness ranks the inputs itself to enumerate iteration orders."""
    Hypothesis.__hash__ = _hash


def rank(hyps):
    for i, h in enumerate(hyps):
        h.__dict__["_mc_rank"] = i
    _next[0] = 1 << 20


control_order()


def ref(year, label=None):
    if year == "conj":
        return Reference.conjectured()
    if year == "classical":
        return Reference.classical()
    if year == "unknown":
        return Reference("x", "article", {"author": "X"})
    return Reference.make(label or "Author", year)


def pair(k, l, year=1950, name=None):
    return Hypothesis(name or f"pair({k},{l})", "Exponent pair", Exp_pair(F(k), F(l)), "given", ref(year))


def mu(s, m, year=1950):
    return Hypothesis(f"mu({s})<={m}", "Upper bound on mu", Bound_mu(F(s), F(m)), "given", ref(year))


def pt(h):
    return (F(h.data.k), F(h.data.l))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(points):
    """strict vertices of the convex hull, counterclockwise from the lexicographic minimum"""
    ps = sorted(set(points))
    if len(ps) <= 2:
        return ps
    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = half(ps), half(ps[::-1])
    return lo[:-1] + up[:-1]


def in_hull(points, p):
    h = hull(points)
    if not h:
        return False
    if len(h) == 1:
        return h[0] == p
    if len(h) == 2:
        return cross(h[0], h[1], p) == 0 and min(h) <= p <= max(h)
    return all(cross(h[i], h[(i + 1) % len(h)], p) >= 0 for i in range(len(h)))


def lower(points, x):
    """value of the lower convex envelope of the points at x, None outside"""
    best = None
    for a in points:
        for b in points:
            if a[0] <= x <= b[0]:
                if a[0] == b[0]:
                    v = min(a[1], b[1])
                else:
                    v = a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])
                if best is None or v < best:
                    best = v
    return best


# ---- the published transforms, written down independently of the code
def T_A(p):
    k, l = p
    return (k / (2 * k + 2), F(1, 2) + l / (2 * k + 2))


def T_B(p):
    k, l = p
    return (l - F(1, 2), k + F(1, 2))


def T_C(p):
    k, l = p
    d = 12 * (1 + 4 * k)
    return (k / d, (11 * (1 + 4 * k) + l) / d)


TRANS = {"A": T_A, "B": T_B, "C": T_C}


def transform(which, year=1920):
    """a transform hypothesis whose derived pairs are recorded like the library's"""
    from exponent_pair import derived_exp_pair
    from transform import Transform
    name = {"A": "van der Corput A transform", "B": "van der Corput B transform", "C": "Sargos C transform"}[which]
    f = TRANS[which]
    cell = []

    def fn(h):
        k, l = f((h.data.k, h.data.l))
        return derived_exp_pair(k, l, f"{name} of {h.name}", {h, cell[0]})

    t = Hypothesis(name, "Exponent pair transform", Transform(name, fn), "given", ref(year))
    t.__dict__["_mc_tr"] = which
    cell.append(t)
    return t


def which_tr(h):
    return h.__dict__.get("_mc_tr")


def check_pair_tree(h, given, extra=None, seen=None):
    """Every derived exponent pair in the tree of h follows from its dependencies: one pair and
    one transform, or a convex combination of pairs; leaves are given hypotheses.
    `extra(h)` may justify other nodes (returns True when it did)."""
    if seen is None:
        seen = set()
    if id(h) in seen:
        return
    seen.add(id(h))
    if any(h is g for g in given):
        return
    deps = list(h.dependencies)
    if extra is not None and extra(h):
        return
    if h.hypothesis_type != "Exponent pair":
        raise Bad(f"the proof rests on {h} ({h.hypothesis_type}), which was not given")
    trs = [d for d in deps if d.hypothesis_type == "Exponent pair transform"]
    prs = [d for d in deps if d.hypothesis_type == "Exponent pair"]
    if len(trs) + len(prs) != len(deps) or not prs:
        raise Bad(f"{h.desc()} rests on {deps}")
    if trs:
        if len(trs) != 1 or len(prs) != 1 or not any(trs[0] is g for g in given):
            raise Bad(f"{h.desc()} rests on {deps}")
        w = which_tr(trs[0])
        if TRANS[w](pt(prs[0])) != pt(h):
            raise Bad(f"{h.desc()} is not the {w} transform of {prs[0].desc()}")
    elif not in_hull([pt(p) for p in prs], pt(h)):
        raise Bad(f"{h.desc()} is not a convex combination of {[p.desc() for p in prs]}")
    for p in prs:
        check_pair_tree(p, given, extra, seen)


def closure(points, words, depth):
    """all points reachable by applying at most `depth` transforms"""
    cur = set(points)
    for _ in range(depth):
        cur |= {TRANS[w](p) for p in cur for w in words}
    return cur
