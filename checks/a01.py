"""A01: large value energy regions: building, raising to a power, intersecting, projecting."""
from itertools import combinations, permutations
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.geom import Arrangement, solve, val
from mc.polys import build
from mc import hyps as M, lvs as V
from checks.l03 import prism
import additive_energy as ad
import large_values as lv
import zeta_large_values as zlv
from hypotheses import Hypothesis_Set
from region import Region, Region_Type
from polytope import Polytope

ID = "A01"
COVERAGE = (
    "every set of up to 2 (thorough: 3) of 5 energy regions and a lifted large value estimate with every set of powers, optionally with zeta energy regions, in the "
    "large-value and the zeta mode, on 3 (thorough: 4) domains of (sigma, tau): at 5 (thorough: 9) rational (sigma, tau) inside and outside the domain and one "
    "point of every cell of the exact arrangement of all constraints in (rho, rho*, s), the region contains the tuple exactly when the domain and "
    "every applicable region (and power) do; its projections to (sigma, tau, rho) and (sigma, tau, rho*) contain a point exactly when some tuple "
    "projects to it; sources are cited and unchanged.  Exponent pairs, lifts and powers are compared with the formula of the theorem in the "
    "same way.  state = distinct allowed cells, transition = one tuple, trace = one call"
)
ASSUMPTIONS = ["tuples on the boundary between cells are not compared: the library drops pieces without interior",
               "all regions lie in the conventional box sigma in [1/2, 1], tau, rho, rho*, s in [0, 10^6]"]

H = F(1, 2)
T = F(10) ** 6
BOX5 = [[-H, 1, 0, 0, 0, 0], [1, -1, 0, 0, 0, 0]] + [r for i in range(2, 6) for r in
        ([0] * i + [1] + [0] * (5 - i), [T] + [0] * (i - 1) + [-1] + [0] * (5 - i))]
# a region is a conjunction of clauses, a clause is a disjunction of rows (c, sigma, tau, rho, rho*, s) >= 0
ENERGY = [
    [[[1, -2, 0, 3, -1, 0], [2, -2, 0, 2, -1, 0], [-F(3, 2), 0, 1, 0, 0, 0]]],
    [[[2, -2, 0, -1, 0, 0], [F(3, 4), -1, F(1, 4), -1, F(1, 4), 0], [H, -1, F(1, 4), -1, F(1, 4), 0]]],
    [[[2, 0, 0, 1, 0, -1], [1, 0, 0, 2, 0, -1]]],
    [[[0, -2, 0, 1, -1, 1]]],
    [[[4, -4, 0, 1, -1, 0], [1, -2, F(1, 4), F(21, 8), -1, 0]], [[0, 0, 1, -1, 0, 0]]],
]
ZETA = [[[[0, 0, 0, F(5, 2), -1, 0]]], [[[3, -6, 1, -1, 0, 0], [1, 0, -1, 0, 0, 0]], [[0, 0, 2, 0, -1, 0]]]]
LVB = [[(2, -2, 0), (1, -2, 1)], [(4, -6, 1)]]
POW = [2, 3]
DOMS = [
    [[(H, F(1)), (F(1), F(1)), (F(1), F(3)), (H, F(3))]],
    [[(F(3, 5), F(6, 5)), (F(9, 10), F(9, 5)), (F(9, 10), F(18, 5)), (F(3, 5), F(12, 5))]],
    [[(H, F(2)), (F(3, 4), F(2)), (F(3, 4), F(4)), (H, F(4))], [(F(3, 4), F(1)), (F(1), F(1)), (F(1), F(2)), (F(3, 4), F(2))]],
    [[(F(2, 3), F(0)), (F(1), F(0)), (F(1), F(2)), (F(2, 3), F(2))]],
]
POINTS = [(F(13, 20), F(7, 5)), (F(17, 20), F(19, 10)), (F(7, 10), F(23, 10)), (F(19, 20), F(6, 5)), (F(11, 20), F(33, 10)),
          (F(4, 5), F(7, 10)), (F(41, 50), F(29, 10)), (F(18, 25), F(8, 5)), (F(24, 25), F(47, 10))]


def scaled(cl, k):
    return [[[r[0], r[1]] + [F(x) / k for x in r[2:]] for r in c] for c in cl]


def boxed(cl, k=1):
    """the clauses inside the conventional box, raised to the power k >= 1 (the image of the box contains the box)"""
    return ([[r] for r in BOX5] if k == 1 else []) + scaled(cl, k)


def hyp(cl, i, zeta=False, year=1950):
    """one energy region; a single clause goes through the constructor of unions of half planes, several through intersections"""
    box = ad.Large_Value_Energy_Region.default_constraints()
    parts = []
    for c in cl:
        parts.append(Region.from_union_of_halfplanes([[F(x) for x in r] for r in c], [list(r) for r in box]))
    reg = parts[0] if len(parts) == 1 else Region.intersect(parts)
    make = ad.literature_zeta_large_value_energy_region if zeta else ad.literature_large_value_energy_region
    return make(reg, M.ref(year), f" {i}")


def fiber(clauses, s, t):
    """clauses at fixed (sigma, tau) over (rho, rho*, s)"""
    return [[(F(r[0]) + r[1] * s + r[2] * t, F(r[3]), F(r[4]), F(r[5])) for r in c] for c in clauses]


def distinct(clauses):
    rows = []
    for c in clauses:
        for r in c:
            if any(r[1:]):
                lead = next(x for x in r[1:] if x)
                n = tuple(x / lead for x in r)
                if n not in rows:
                    rows.append(n)
    return rows


def sat(clauses, p):
    """True / False, None on a boundary"""
    res = True
    for c in clauses:
        v = [val(r, p) for r in c]
        if any(x > 0 for x in v):
            continue
        if any(x == 0 for x in v):
            res = None
            continue
        return False
    return res


_cells = {}


def cells(rows, big):
    key = (tuple(rows), big)
    if key not in _cells:
        if len(_cells) > 200:
            _cells.clear()
        A = Arrangement(3, list(rows), M=big)
        _cells[key] = [p for i, p in enumerate(A.points) if A.full >> i & 1]
    return _cells[key]


def levels(rows, axis):
    """midpoints of the values of one coordinate between consecutive vertices of the arrangement"""
    vs = set()
    for tr in combinations(rows, 3):
        v = solve3(tr)
        if v is not None:
            vs.add(v[axis])
    vs = sorted(v for v in vs if -100 <= v <= 2 * T)
    return [(a + b) / 2 for a, b in zip(vs, vs[1:])] + [vs[0] - 1, vs[-1] + 1]


def solve3(tr):
    (a, b, c) = tr

    def det(p, q, r):
        return p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0])
    m = [x[1:] for x in tr]
    d = det(*m)
    if not d:
        return None
    out = []
    for j in range(3):
        mm = [list(r) for r in m]
        for i in range(3):
            mm[i][j] = -tr[i][0]
        out.append(det(*mm) / d)
    return out


def compare(contains, clauses, what, ctx, key, points, three=True):
    for s, t in points:
        fc = fiber(clauses, s, t)
        rows = distinct(fc)
        for q in cells(rows, T * 10):
            want = sat(fc, q)
            if want is None:
                continue
            have = contains((s, t) + tuple(q))
            ctx.step()
            key.append(have)
            if want != have:
                raise Bad(f"{what}: (sigma, tau, rho, rho*, s) = {s}, {t}, {', '.join(map(str, q))} is {'in' if have else 'missing from'} the region")


def project_compare(contains, clauses, axis, what, ctx, key, points):
    for s, t in points:
        fc = fiber(clauses, s, t)
        rows = distinct(fc)
        # the projection of a union of cells is a union of intervals between the levels of vertices
        for x in levels(rows, axis):
            sub = [[(r[0] + r[1 + axis] * x,) + tuple(r[1 + j] for j in range(3) if j != axis) for r in c] for c in fc]
            want = feasible2(sub)
            if want is None:
                continue
            have = contains((s, t, x))
            ctx.step()
            key.append(have)
            if want != have:
                raise Bad(f"{what}: (sigma, tau, {'rho' if axis == 0 else 'rho*'}) = {s}, {t}, {x} is {'in' if have else 'missing from'} the projection")


def feasible2(clauses):
    """some open piece of the plane satisfies all clauses (None: only a boundary does); the clauses contain the box"""
    B = F(-10), 2 * T
    best = [False]
    single = sorted(clauses, key=len)

    def go(poly, i):
        if not poly:
            return
        if i == len(single):
            area = sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(poly, poly[1:] + poly[:1]))
            best[0] = True if area else (best[0] or None)
            return
        for r in single[i]:
            go(clip(poly, r), i + 1)
            if best[0]:
                return
    go([(B[0], B[0]), (B[1], B[0]), (B[1], B[1]), (B[0], B[1])], 0)
    return best[0]


def clip(poly, r):
    """the part of a convex polygon (possibly degenerate) with r >= 0"""
    out = []
    v = [r[0] + r[1] * p[0] + r[2] * p[1] for p in poly]
    n = len(poly)
    for i in range(n):
        j = (i + 1) % n
        if v[i] >= 0:
            out.append(poly[i])
        if v[i] * v[j] < 0:
            t = v[i] / (v[i] - v[j])
            out.append(tuple(a + t * (b - a) for a, b in zip(poly[i], poly[j])))
    return [p for k, p in enumerate(out) if k == 0 or p != out[k - 1]]


def dom_region(d):
    regs = [Region.from_polytope(build(([r[:3] for r in prism(p, 1)[:-2]], []))) for p in DOMS[d]]
    return regs[0] if len(regs) == 1 else Region.disjoint_union(regs)


def in_dom(d, s, t):
    return any(all(r[0] + r[1] * s + r[2] * t >= 0 for r in prism(p, 1)[:-2]) for p in DOMS[d])


NEVER = [[-1, 0, 0, 0, 0, 0]]


# ---- best region and its projections
def cases(tier):
    q = tier == "quick"
    for n in range(0, 3 if q else 4):
        for c in combinations(range(len(ENERGY)), n):
            for l in ([], [0], [1]):
                for ks in ([], [0], [1], [0, 1]):
                    if q and len(c) + len(l) == 2 and len(ks) == 1 and (sum(c) + ks[0]) % 2:
                        continue        # the other half is in the thorough tier
                    if len(c) + len(l) > 2 + (not q) or (len(c) + len(l)) * (1 + len(ks)) > (4 if q else 6):
                        continue
                    for z in ([], [0], [1]):
                        if (q and len(z) + len(c) + len(l) > 2) or (q and z and len(ks) > 1):
                            continue
                        for d in range(3 if q else 4):
                            yield [list(c), l, ks, z, d]


def run(case, ctx):
    idx, ls, ks, zs, d = case
    base = [hyp(ENERGY[i], i, year=1950 + i) for i in idx]
    src = [V.lv([list(b) for b in LVB[i]], 1960 + i, f" {i}") for i in ls]
    if src:
        base += ad.lv_to_lver(Hypothesis_Set(src))
    zh = [hyp(ZETA[i], i, True, 1970 + i) for i in zs]
    trs = [ad.get_raise_to_power_hypothesis(POW[k]) for k in ks]
    specs = [ENERGY[i] for i in idx] + [[[list(b) + [-1, 0, 0] for b in LVB[i]]] for i in ls]
    pts = POINTS[:5] if len(POINTS) and ctx_quick else POINTS
    for zeta in (False, True):
        if zs and not zeta:
            continue
        if not zs and zeta and (len(idx) + len(ls)) != 1:
            continue
        cl = [c for s in specs for k in [1] + [POW[j] for j in ks] for c in boxed(s, k)]
        if zeta:
            cl += [c for i in zs for c in boxed(ZETA[i])]
        cl += boxed([])
        seen = []
        cl = [c for c in cl if c not in seen and not seen.append(c)]
        M.rank((base + zh + trs)[::-1 if zeta else 1])
        S = Hypothesis_Set(base + zh + trs)
        n0 = len(S.list_hypotheses())
        got = ad.compute_best_lver(S, dom_region(d), zeta=zeta)
        want_t = "Zeta large value energy region" if zeta else "Large value energy region"
        if got.hypothesis_type != want_t:
            raise Bad(f"the result has type {got.hypothesis_type}")
        if len(S.list_hypotheses()) != n0:
            raise Bad("the hypothesis set was changed")
        for x in got.dependencies:
            if not any(x is g for g in base + zh) and not (len(x.dependencies) == 1 and any(next(iter(x.dependencies)) is g for g in base)):
                raise Bad(f"the region rests on {x.desc()}, which was not given")
        what = f"regions {idx} large values {ls} powers {[POW[k] for k in ks]} zeta {zs if zeta else None} domain {d}"
        key = []
        spec = {p: cl if in_dom(d, *p) else boxed([]) + [NEVER] for p in pts}
        for p in pts:
            compare(got.data.contains, spec[p], what, ctx, key, [p])
        lvh = ad.lver_to_lv(got)
        eng = ad.lver_to_energy(got)
        star = ad.compute_LV_star(S, dom_region(d), debug=False, zeta=zeta)
        for h, axis, t in ((lvh, 0, "Zeta large value estimate" if zeta else "Large value estimate"), (eng, 1, "Additive energy estimate"), (star, 1, want_t)):
            if h is None:
                raise Bad(f"{what}: no projection, but the region is not empty")
            if h.hypothesis_type != t:
                raise Bad(f"{what}: the projection has type {h.hypothesis_type}")
            if h is not star and set(h.dependencies) != {got}:
                raise Bad(f"{what}: the projection does not cite the region")
            for p in pts:
                project_compare(lambda x: V.contains(h.data.region, x), spec[p], axis, what, ctx, key, [p])
        for i, h in zip(list(idx), base):
            for p in pts[:2]:
                compare(h.data.contains, boxed(ENERGY[i]), f"{what}: the given region {i} afterwards", ctx, [], [p])
        ctx.state((zeta, d, tuple(key)))
        ctx.outcome((zeta, len(idx), len(ls), len(ks)))


# ---- single constructions
EPS = [(F(1, 6), F(2, 3)), (F(1, 2), F(1, 2)), (F(1, 14), F(11, 14)), (F(13, 84), F(55, 84)), (F(2, 7), F(4, 7)), (F(1, 30), F(26, 30)), (F(9, 56), F(37, 56))]


def ep_spec(k, l):
    first = [(1, 0, 0, 1, 0, 0), (0, 0, F(1, 3), F(5, 3), 0, 0), (0, 0, (k + l) / (1 + 2 * k + 2 * l), (2 + 3 * k + 4 * l) / (1 + 2 * k + 2 * l), 0, 0)]
    second = [(1, 0, 0, 0, 1, 0), (0, 0, 0, 4, 0, 0), (0, 0, H, 1, F(3, 4), 0)]
    base = (1, -2, 0, 0, -1, 0)
    return [[[b + H * (x + y) for b, x, y in zip(base, f, g)] for f in first for g in second]]


def single_cases(tier):
    q = tier == "quick"
    for i in range(len(EPS) if not q else 5):
        for k in (1, 2, 3, F(3, 2)):
            yield ["ep", i, str(k)]
    for i in range(len(ENERGY)):
        for k in (1, 2, 3, 5):
            yield ["power", i, k]
        yield ["expand", i, (i + 1) % len(ENERGY)]
        yield ["expand", i, i]
    for i in range(len(LVB)):
        for j in range(-1, len(LVB)):
            for z in (False, True):
                yield ["lift", [i] + ([j] if j >= 0 and j != i else []), z]


def check_power(tr, h, spec, k, what, ctx, key):
    p = tr.data.transform(h)
    if p.hypothesis_type != "Large value energy region" or set(p.dependencies) != {h}:
        raise Bad(f"{what}: the power is a {p.hypothesis_type} resting on {p.dependencies}")
    compare(p.data.contains, scaled([[r] for r in BOX5] + spec, F(k)), f"{what} raised to the power {k}", ctx, key, POINTS[:4])
    compare(h.data.contains, boxed(spec), f"{what} after raising it to a power", ctx, key, POINTS[:1])
    return p


def run_single(case, ctx):
    kind = case[0]
    key = []
    if kind == "ep":
        k, l = EPS[case[1]]
        e = M.pair(k, l)
        h = ad.ep_to_lver(e)
        if h.hypothesis_type != "Large value energy region" or set(h.dependencies) != {e}:
            raise Bad(f"({k}, {l}): the region is a {h.hypothesis_type} resting on {h.dependencies}")
        what = f"the exponent pair ({k}, {l})"
        compare(h.data.contains, boxed(ep_spec(k, l)), what, ctx, key, POINTS[:4])
        for z in ((F(2, 5), F(2), F(0), F(0), F(0)), (F(3, 5), F(2), F(-1), F(0), F(0)), (F(3, 5), F(2), F(0), F(-1), F(0)), (F(3, 5), F(2), F(0), F(0), F(-1))):
            if h.data.contains(z):
                raise Bad(f"{what}: {z} is in the region")
        if F(case[2]) != 1:
            check_power(ad.get_raise_to_power_hypothesis(F(case[2])), h, ep_spec(k, l), F(case[2]), what, ctx, key)
    elif kind == "power":
        h = hyp(ENERGY[case[1]], case[1])
        compare(h.data.contains, boxed(ENERGY[case[1]]), f"region {case[1]}", ctx, key, POINTS[:4])
        p = check_power(ad.get_raise_to_power_hypothesis(case[2]), h, ENERGY[case[1]], case[2], f"region {case[1]}", ctx, key)
        p2 = ad.get_raise_to_power_hypothesis(2).data.transform(p)
        compare(p2.data.contains, scaled([[r] for r in BOX5] + ENERGY[case[1]], F(2 * case[2])), f"the power 2 of the power {case[2]} of region {case[1]}", ctx, key, POINTS[:2])
        for b in [(H, F(0), F(0), F(0), F(0)), (F(1), F(0), F(0), F(0), F(0)), (F(3, 4), T * 2, F(0), F(0), F(0))]:
            want = all(any(val(r, b) >= 0 for r in c) for c in boxed(ENERGY[case[1]]))
            if h.data.contains(b) != want:
                raise Bad(f"region {case[1]}: {b} is {'in' if not want else 'missing from'} the region")
    elif kind == "expand":
        i, j = case[1:]
        hs = [hyp(ENERGY[x], x, year=1950 + x) for x in sorted({i, j})]
        trs = [ad.get_raise_to_power_hypothesis(k) for k in (2, 3)]
        M.rank(hs + trs)
        S = Hypothesis_Set(hs + trs)
        ad.expand_lver(S)
        regs = S.list_hypotheses(hypothesis_type="Large value energy region")
        if len(regs) != 3 * len(hs) or not all(any(h is r for r in regs) for h in hs):
            raise Bad(f"expanding {len(hs)} regions by two powers gives {len(regs)} regions")
        want = [(x, k) for x in sorted({i, j}) for k in (1, 2, 3)]

        def same(r, x, k):
            try:
                compare(r.data.contains, scaled([[b] for b in BOX5] + ENERGY[x], F(k)), "", ctx, [], POINTS[:2])
                return True
            except Bad:
                return False
        fits = [[same(r, x, k) for x, k in want] for r in regs]
        if not any(all(fits[a][b] for a, b in enumerate(p)) for p in permutations(range(len(regs)))):
            raise Bad(f"expanding regions {sorted({i, j})}: the regions are not the given ones and their powers")
    else:
        idx, zeta = case[1:]
        src = [(V.zlv if zeta else V.lv)([list(b) for b in LVB[i]], 1960 + i, f" {i}") for i in idx]
        other = (V.lv if zeta else V.zlv)([[0, 0, 1]], 1990, " other")
        got = ad.lv_to_lver(Hypothesis_Set(src + [other]), zeta=zeta)
        if len(got) != len(src):
            raise Bad(f"{len(src)} estimates give {len(got)} energy regions")
        for h in got:
            x = next((x for x in src if set(h.dependencies) == {x}), None)
            if x is None or h.hypothesis_type != ("Zeta large value energy region" if zeta else "Large value energy region"):
                raise Bad(f"the lift is a {h.hypothesis_type} resting on {h.dependencies}")
            b = LVB[idx[src.index(x)]]
            compare(h.data.contains, boxed([[list(r) + [-1, 0, 0] for r in b]]), f"lift of {b}", ctx, key, POINTS)
    ctx.state((kind, tuple(key)))
    ctx.outcome(kind)


ctx_quick = True


def groups(tier):
    global ctx_quick
    ctx_quick = tier == "quick"
    return [Group("best region and projections", cases, run, timeout=300), Group("constructions", single_cases, run_single, timeout=300)]
