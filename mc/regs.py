"""Region trees: the specification side (exact set semantics) and their construction."""
from fractions import Fraction as F
import cdd
from mc.core import Bad
from mc.geom import Arrangement, val
from mc.polys import build, rows_of

from region import Region, Region_Type
from polytope import Polytope

TYPES = {"I": Region_Type.INTERSECT, "U": Region_Type.UNION, "D": Region_Type.DISJOINT_UNION,
         "P": Region_Type.POLYTOPE, "C": Region_Type.COMPLEMENT}

# A tree is ["P", i] (i-th leaf of the alphabet), ["C", tree], or [op, tree, tree, ...]


def make(tree, leaves):
    op = tree[0]
    if op == "P":
        return Region.from_polytope(build(leaves[tree[1]]))
    if op == "C":
        return Region.complement(make(tree[1], leaves))
    kids = [make(t, leaves) for t in tree[1:]]
    if op == "U":
        return Region.union(kids)
    if op == "D":
        return Region.disjoint_union(kids)
    return Region.intersect(kids)


def spec_contains(tree, leaves, pt):
    op = tree[0]
    if op == "P":
        hs, es = leaves[tree[1]]
        return all(val(r, pt) >= 0 for r in hs) and all(val(r, pt) == 0 for r in es)
    if op == "C":
        return not spec_contains(tree[1], leaves, pt)
    f = all if op == "I" else any
    return f(spec_contains(t, leaves, pt) for t in tree[1:])


def tree_mask(tree, A, leafmasks):
    op = tree[0]
    if op == "P":
        return leafmasks[tree[1]]
    if op == "C":
        return A.all & ~tree_mask(tree[1], A, leafmasks)
    ms = [tree_mask(t, A, leafmasks) for t in tree[1:]]
    if op == "I":
        m = A.all
        for x in ms:
            m &= x
        return m
    m = 0
    for x in ms:
        m |= x
    return m


def leaves_of(tree):
    if tree[0] == "P":
        return {tree[1]}
    out = set()
    for t in tree[1:]:
        out |= leaves_of(t)
    return out


def contains_mask(A, region):
    return A.of(lambda p: bool(region.contains(list(p))))


def pieces(region):
    """Polytopes of a (disjoint) union of polytopes returned by the library."""
    if region.region_type not in (Region_Type.DISJOINT_UNION, Region_Type.UNION):
        raise Bad("the result is not a union of polytopes")
    out = []
    for r in region.child:
        if r.region_type != Region_Type.POLYTOPE:
            raise Bad("the result contains something which is not a polytope")
        out.append(r.child)
    return out


def lp(rows, obj):
    """exact maximum of a linear objective (constant first), None when infeasible"""
    m = cdd.Matrix([list(r) for r in rows], number_type="fraction")
    m.rep_type = cdd.RepType.INEQUALITY
    m.obj_type = cdd.LPObjType.MAX
    m.obj_func = tuple(obj)
    l = cdd.LinProg(m)
    l.solve()
    if l.status != cdd.LPStatusType.OPTIMAL:
        return None
    return F(l.obj_value)


def ratio(clauses, s, lo, hi, axis=3):
    """sup of rho*/tau (axis 3; rho/tau: axis 2) at this sigma over lo <= tau <= hi: (over pieces with interior, over all pieces).
    In the coordinates (1/tau, rho/tau, rho*/tau, s/tau) everything is linear."""
    if lo >= hi:
        return None, None
    cl = []
    for c in clauses:
        rows = [tuple(F(x) for x in (r[2], r[0] + r[1] * s, r[3], r[4], r[5])) for r in c]
        if rows not in cl:
            cl.append(rows)
    fixed = [c[0] for c in cl if len(c) == 1] + [(F(1), -lo, F(0), F(0), F(0)), (F(-1), hi, F(0), F(0), F(0))]
    multi = sorted((c for c in cl if len(c) > 1), key=len)
    best = [None, None]

    def go(rows, i):
        # interior: the largest slack common to all rows
        slack = lp([r + (F(-1),) for r in rows] + [(F(1), F(0), F(0), F(0), F(0), F(-1))], (0, 0, 0, 0, 0, 1))
        if slack is None or slack < 0:
            return
        top = lp(rows, tuple(int(j == axis) for j in range(5)))
        if slack > 0 and best[0] is not None and top <= best[0] or slack == 0 and best[1] is not None and top <= best[1]:
            return
        if i == len(multi):
            if slack > 0:
                best[0] = top
            if best[1] is None or top > best[1]:
                best[1] = top
            return
        for r in multi[i]:
            go(rows + [r], i + 1)
    go(fixed, 0)
    return tuple(best)
