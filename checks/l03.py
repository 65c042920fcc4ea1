"""L03: the large value region implied by a hypothesis set on a domain."""
from itertools import combinations, product, permutations
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc.polys import build
from mc import hyps as M, lvs as V
import large_values as lv
import zero_density_estimate as zd
from hypotheses import Hypothesis_Set
from region import Region

ID = "L03"
COVERAGE = (
    "every set of up to 3 (thorough: 4) large value estimates (and 4 or all 5 in the order of cyclic walks) out of 5 with every set of powers, optionally with zeta large value estimates, in the "
    "large-value and the zeta mode, on 4 (thorough: 6) domains (boxes, slanted sides, a union, below tau = 2): the computed region contains a tuple of a "
    "cell of the arrangement of all bounds exactly when the domain and all applicable estimates allow it; the cited dependencies alone "
    "imply the region, they are given estimates or powers of given ones, and the given regions are unchanged.  state = distinct allowed cells, transition "
    "= one tuple, trace = one call"
)
ASSUMPTIONS = ["tuples on the boundary between cells are not compared: the library drops pieces without interior"]

H = F(1, 2)
LVS = [[(2, -2, 0), (1, -2, 1)], [(4, -6, 1)], [(10, -13, 0), (F(1, 2), 0, F(1, 4))], [(0, 0, F(1, 2))], [(2, -2, 0), (4, -6, 1)]]
ZLVS = [[(0, 0, 1)], [(6, -12, 1), (2, -2, 0)]]
POWERS = [F(2), F(3, 2)]
# (polygons in (sigma, tau), rho limit)
DOMS = [
    ([[(H, F(1)), (F(1), F(1)), (F(1), F(3)), (H, F(3))]], 100),
    ([[(F(3, 5), F(6, 5)), (F(9, 10), F(9, 5)), (F(9, 10), F(18, 5)), (F(3, 5), F(12, 5))]], 100),
    ([[(H, F(2)), (F(3, 4), F(2)), (F(3, 4), F(4)), (H, F(4))], [(F(3, 4), F(1)), (F(1), F(1)), (F(1), F(2)), (F(3, 4), F(2))]], F(3, 4)),
    ([[(F(2, 3), F(0)), (F(1), F(0)), (F(1), F(2)), (F(2, 3), F(2))]], 10 ** 6),
    ([[(H, F(3, 2)), (F(1), F(3, 2)), (F(4, 5), F(5, 2)), (H, F(2))]], 2),
    ([[(H, F(1)), (F(5, 7), F(1)), (F(5, 7), F(6)), (H, F(6))]], 100),
]


def prism(poly, top):
    """rows of {(sigma, tau) in the convex polygon, 0 <= rho <= top}; vertices counterclockwise"""
    rows = []
    n = len(poly)
    for i in range(n):
        (a, b), (c, d) = poly[i], poly[(i + 1) % n]
        rows.append([(d - b) * a - (c - a) * b, -(d - b), (c - a), F(0)])   # left of the edge
    return rows + [[F(0), F(0), F(0), F(1)], [F(top), F(0), F(0), F(-1)]]


def domain(d):
    polys, top = DOMS[d]
    regs = [Region.from_polytope(build((prism(p, top), []))) for p in polys]
    return regs[0] if len(regs) == 1 else Region.disjoint_union(regs)


def cases(tier):
    nd = 4 if tier == "quick" else len(DOMS)
    for n in range(0, 4 if tier == "quick" else 5):
        for c in combinations(range(len(LVS)), n):
            for ks in ([], [0], [1], [0, 1]):
                if n * (1 + len(ks)) > (4 if tier == "quick" else 6):
                    continue
                for z in ([], [0], [1], [0, 1]):
                    for d in range(nd):
                        if tier == "quick" and len(z) + n > 3:
                            continue
                        yield [list(c), ks, z, d]
    for c in windows(len(LVS), (4, 5), (1, 2), range(0, 5, 2) if tier == "quick" else None, rev=tier != "quick"):
        for z in ([], [1]) if tier == "quick" else ([], [0], [1], [0, 1]):
            yield [c, [], z, (c[0] + len(c)) % nd]


def run(case, ctx):
    idx, ks, zs, d = case
    hs = [V.lv([list(b) for b in LVS[i]], 1950 + i, f" {i}") for i in idx]
    zh = [V.zlv([list(b) for b in ZLVS[i]], 1970 + i, f" {i}") for i in zs]
    trs = [lv.raise_to_power_hypothesis(POWERS[k]) for k in ks]
    caps = [V.cap_max(LVS[i]).power(k) for i in idx for k in [F(1)] + [POWERS[j] for j in ks]]
    zcaps = [V.cap_max(ZLVS[i]) for i in zs]
    polys, top = DOMS[d]
    for zeta in (False, True):
        if zeta and not zs and idx:
            continue
        use = caps + zcaps if zeta else caps
        M.rank((hs + zh + trs)[::-1 if zeta else 1])
        S = Hypothesis_Set(hs + zh + trs)
        before = len(S.list_hypotheses())
        dom = domain(d)
        got = zd.compute_large_value_region(S, dom, zeta=zeta)
        if got.hypothesis_type != ("Zeta large value estimate" if zeta else "Large value estimate"):
            raise Bad(f"the result has type {got.hypothesis_type}")
        if len(S.list_hypotheses()) != before:
            raise Bad("the hypothesis set was changed")
        deps = list(got.dependencies)
        known = hs + (zh if zeta else [])
        for x in deps:
            if not any(x is g for g in known) and not (x.hypothesis_type == "Large value estimate" and len(x.dependencies) == 1
                                                       and any(next(iter(x.dependencies)) is g for g in hs)):
                raise Bad(f"the region rests on {x.desc()} with dependencies {x.dependencies}, which was not given")
        key = []
        for poly in polys:
            for s, t in V.witnesses(use, poly, extra=[r[:3] for r in prism(poly, top)[:-2]]):
                ind = any(all(r[0] + r[1] * s + r[2] * t >= 0 for r in prism(p, top)[:-2]) for p in polys)
                cap = min([c.at(s, t) for c in use] + [F(top)])
                for r in V.rho_levels(use, s, t, top):
                    want = ind and 0 <= r <= cap
                    have = V.contains(got.data.region, (s, t, r))
                    ctx.step()
                    key.append(have)
                    if want != have:
                        raise Bad(f"{'zeta ' if zeta else ''}large values {LVS_of(idx)} powers {ks} zeta {zs}: (sigma, tau, rho) = ({s}, {t}, {r}) is {'in' if have else 'missing from'} the region")
                    if have != (ind and 0 <= r <= top and all(V.contains(x.data.region, (s, t, r)) for x in deps)):
                        raise Bad(f"the cited estimates {deps} alone do not imply the region at ({s}, {t}, {r})")
        for i, h in zip(idx, hs):
            check_same(h, LVS[i], polys)
        for i, h in zip(zs, zh):
            check_same(h, ZLVS[i], polys)
        ctx.state((zeta, d, tuple(key)))
        ctx.outcome((zeta, len(use), len(deps)))


def LVS_of(idx):
    return [LVS[i] for i in idx]


def check_same(h, bounds, polys):
    cap = V.cap_max(bounds)
    for poly in polys:
        s, t = (sum(v[j] for v in poly) / len(poly) for j in (0, 1))
        for r in V.rho_levels([cap], s, t, 10):
            if V.contains(h.data.region, (s, t, r)) != (0 <= r <= cap.at(s, t)):
                raise Bad(f"the given estimate {bounds} was changed")


def groups(tier):
    return [Group("regions", cases, run)]
