"""Z01: zero density estimates implied by large value estimates."""
from itertools import combinations, product
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc.ratf import exact
from mc import hyps as M, lvs as V
from mc.regs import ratio
from checks.a01 import ENERGY, ZETA, LVB, boxed, hyp
import additive_energy as ad
import large_values as lv
import zero_density_estimate as zd
from hypotheses import Hypothesis, Hypothesis_Set
from functions import Affine, Interval
from bound_beta import Bound_beta
from polytope import Polytope
from region import Region

ID = "Z01"
COVERAGE = (
    "every set of up to 2 (thorough: 3) large value estimates (and 4 or all 5 in the order of cyclic walks) out of 5 with a set of powers, up to one zeta large value estimate, mu-derived zeta "
    "estimate and bound on beta, with both methods (thresholds tau0 constant, and affine in sigma), on 3 (thorough: 5) intervals of sigma: at five "
    "rational points of every interval cut out by all bounds, thresholds and returned pieces, the bound returned is exactly "
    "max(sup LV/tau, sup LV_zeta/tau)/(1 - sigma) over the ranges of tau of the theorem; every piece cites a large value region and a zeta large value region "
    "which rest only on given hypotheses.  The same from every set of up to 2 (3) of 5 energy regions and 2 lifted large value estimates with powers and zeta energy "
    "regions, on 5 ranges, for both, only the first or only the zeta region, by exact linear programs on every combination of pieces.  state = distinct piecewise bound, transition = one value compared, trace = one call"
)
ASSUMPTIONS = ["where no positive rho is allowed anywhere, any non-positive bound is accepted", "where an energy region has pieces without interior only, the bound may or may not count them"]

H = F(1, 2)
LVS = [[(2, -2, 0), (1, -2, 1)], [(2, -2, 0), (4, -6, 1)], [(10, -13, 0), (F(1, 2), 0, F(1, 4))], [(2, -2, 0)], [(F(18, 5), -4, 0), (F(12, 5), -4, 1)]]
ZLVS = [[(6, -12, 1)], [(0, 0, 1)], [(4, -6, F(1, 2)), (2, -2, 0)]]
MU = (H, F(1, 6))
BETAS = [(H, F(1, 6), F(0), H), (F(1), F(1, 24), F(0), F(1, 4))]
IVS = [(H, F(3, 4)), (F(3, 4), F(1)), (F(3, 5), F(9, 10)), (H, F(1)), (F(11, 14), F(25, 28))]
TAUS = [F(3), F(2), F(5, 2)]
AFF = [(F(-1), F(2)), (F(3), F(-1)), (F(0), F(3, 2)), (F(1), F(2)), (F(0), F(3))]   # (m, c)


def hyp_sets(tier):
    n = 2 if tier == "quick" else 3
    for k in range(0, n + 1):
        for c in combinations(range(len(LVS)), k):
            for ks in ([], [2], [2, 3]):
                if k * (1 + len(ks)) > (3 if tier == "quick" else 6) or (k == 0 and ks):
                    continue
                for z, b in [(None, None), (0, None), (2, None), ("mu", None), (None, 0), (1, 1), ("mu", 0)]:
                    yield list(c), ks, z, b
    for c in windows(len(LVS), (4, 5), (1, 2), range(0, 5, 2) if tier == "quick" else None, rev=False):
        yield c, [], None, None
        yield c, [], 0, 0


def cases(tier):
    for i, (c, ks, z, b) in enumerate(hyp_sets(tier)):
        if tier == "quick":
            for j in range(2 if len(c) < 2 else 1):
                yield [c, ks, z, b, IVS[(i + j) % 3], "const", TAUS[(i + 2 * j) % 3]]
                yield [c, ks, z, b, IVS[(i + j + 1) % 3], "affine", AFF[(i + j) % 5]]
        else:
            for iv in IVS:
                for t in TAUS:
                    yield [c, ks, z, b, iv, "const", t]
                for a in AFF:
                    yield [c, ks, z, b, iv, "affine", a]


def frac(x):
    return x if isinstance(x, F) else F(x)


def crit_sigmas(caps, walls, iv):
    """sigma at which the ordering of bounds and limits of tau may change"""
    fs = V.all_funcs(caps)
    lines = [tuple(F(x) for x in w) for w in walls] + [w for c in caps for w in c.walls]
    for f, g in combinations(fs, 2):
        lines.append(tuple(a - b for a, b in zip(f, g)))
    out = set(iv)
    for l in lines:
        if l[2] == 0 and l[1]:
            out.add(-l[0] / l[1])
    for l, k in combinations(lines, 2):
        d = l[1] * k[2] - l[2] * k[1]
        if d:
            out.add((l[2] * k[0] - k[2] * l[0]) / d)
    return sorted(x for x in out if iv[0] <= x <= iv[1])


def run(case, ctx):
    idx, ks, z, b, iv, method, thr = case
    iv = (frac(iv[0]), frac(iv[1]))
    hs = [V.lv([list(x) for x in LVS[i]], 1950 + i, f" {i}") for i in idx]
    trs = [lv.raise_to_power_hypothesis(F(k)) for k in ks]
    caps = [V.cap_max(LVS[i]).power(k) for i in idx for k in [1] + ks]
    zcaps = list(caps)
    if z == "mu":
        import zeta_large_values as zlv
        m = M.mu(*MU)
        hs += zlv.mu_to_zlv(Hypothesis_Set([m]))
        zcaps.append(V.cap_mu(*MU))
    elif z is not None:
        hs.append(V.zlv([list(x) for x in ZLVS[z]], 1970 + z))
        zcaps.append(V.cap_max(ZLVS[z]))
    if b is not None:
        m_, c_, lo, hi = BETAS[b]
        hs.append(Hypothesis("beta", "Upper bound on beta", Bound_beta(Affine(m_, c_, Interval(lo, hi))), "given", M.ref(1985)))
        zcaps.append(V.cap_beta([BETAS[b]]))
    M.rank(hs + trs)
    S = Hypothesis_Set(hs + trs)
    I = Interval(iv[0], iv[1])
    if method == "const":
        t0 = frac(thr)
        got = zd.lv_zlv_to_zd(S, I, t0)
        lims = [(lambda s: t0), (lambda s: 2 * t0), (lambda s: F(2)), (lambda s: t0)]
        walls = [(-t0, 0, 1), (-2 * t0, 0, 1), (-2, 0, 1)]
    else:
        m, c = frac(thr[0]), frac(thr[1])
        if 4 * min(m * x + c for x in iv) / 3 < 2 and max(m * x + c for x in iv) < H:
            return
        got = zd.lv_zlv_to_zd2(S, I, Affine(m, c, I))
        lims = [(lambda s: F(2, 3) * (m * s + c)), (lambda s: m * s + c), (lambda s: F(2)), (lambda s: F(4, 3) * (m * s + c))]
        walls = [(-F(k) * c, -F(k) * m, 1) for k in (F(2, 3), F(1), F(4, 3))] + [(-2, 0, 1)]
    pieces = []
    for h in got:
        if h.hypothesis_type != "Zero density estimate":
            raise Bad(f"the result has type {h.hypothesis_type}")
        d = h.data.interval
        pieces.append((exact(d.x0), exact(d.x1), h))
        types = sorted(x.hypothesis_type for x in h.dependencies)
        if types != ["Large value estimate", "Zeta large value estimate"]:
            raise Bad(f"the zero density estimate rests on {h.dependencies}")
        for x in h.dependencies:
            leaves_given(x, hs + trs)
    ends = {x for p in pieces for x in p[:2] if x is not None}
    crit = sorted(set(crit_sigmas(caps + zcaps, walls, iv)) | {x for x in ends if iv[0] <= x <= iv[1]})
    key = []
    for lo, hi in zip(crit, crit[1:]):
        for j in range(1, 6):
            s = lo + (hi - lo) * F(j, 6)
            best = None
            for cs, a, e in ((caps, 0, 1), (zcaps, 2, 3)):
                x, y = lims[a](s), lims[e](s)
                if y > x:
                    v = V.sup_ratio(cs, s, x, y)
                    if v is not None and (best is None or v > best):
                        best = v
            here = [p for p in pieces if contains(p[2], s)]
            ctx.step()
            if len(here) != 1:
                raise Bad(f"{len(here)} zero density estimates at sigma = {s}")
            v = exact(here[0][2].data.at(s))
            if best is None:
                if v > 0:
                    raise Bad(f"at sigma = {s} no positive rho is possible, the bound is {v}")
                key.append(None)
                continue
            if v != best / (1 - s):
                raise Bad(f"A({s}) <= {v}, the large value estimates give {best / (1 - s)}")
            key.append(v)
    ctx.state((str(iv), method, tuple(key)))
    ctx.outcome((method, len(got)))


def contains(h, s):
    return h.data.interval.contains(s)


def leaves_given(h, given):
    for d in h.dependencies:
        if any(d is g for g in given):
            continue
        if not d.dependencies:
            raise Bad(f"the proof rests on {d.desc()}, which was not given")
        leaves_given(d, given)


# ---- from large value energy regions
EIV = [((H, F(3, 4)), (F(0), F(2))), ((F(3, 4), F(9, 10)), (F(0), F(3, 2))), ((H, F(1)), (F(-1), F(5, 2))), ((F(3, 5), F(4, 5)), (F(2), F(1))), ((F(3, 4), F(1)), (F(2), F(0)))]
SIGMAS = 7


def lver_cases(tier):
    q = tier == "quick"
    n = 0
    for k in range(0, 3 if q else 4):
        for c in combinations(range(len(ENERGY)), k):
            for l in ([], [0], [1]):
                for ks in ([], [2]) if q else ([], [2], [3], [2, 3]):
                    size = len(c) + len(l)
                    if not size or size > (2 if q else 3) or size * (1 + len(ks)) > (2 if q else 6):
                        continue
                    for z in ([], [0], [1]):
                        for mode in ("both", "lver", "zeta"):
                            n += 1
                            if q:
                                if mode == "both" or n % 4 == 0:
                                    yield [list(c), l, ks, z, n // 3 % len(EIV), mode]
                            else:
                                for t in range(len(EIV)):
                                    yield [list(c), l, ks, z, t, mode]


def run_lver(case, ctx):
    idx, ls, ks, zs, t, mode = case
    base = [hyp(ENERGY[i], i, year=1950 + i) for i in idx]
    src = [V.lv([list(b) for b in LVB[i]], 1960 + i, f" {i}") for i in ls]
    lifted = ad.lv_to_lver(Hypothesis_Set(src)) if src else []
    zh = [hyp(ZETA[i], i, True, 1970 + i) for i in zs]
    trs = [ad.get_raise_to_power_hypothesis(k) for k in ks]
    specs = [ENERGY[i] for i in idx] + [[[list(b) + [-1, 0, 0] for b in LVB[i]]] for i in ls]
    cl = [c for s in specs for k in [1] + ks for c in boxed(s, k)] + boxed([])
    zcl = cl + [c for i in zs for c in boxed(ZETA[i])]
    given = base + lifted + zh + trs + src
    M.rank((base + lifted + zh + trs)[::-1 if t % 2 else 1])
    S = Hypothesis_Set(base + lifted + zh + trs)
    iv, (m, c) = EIV[t]
    I = Interval(iv[0], iv[1])
    strip = [[-iv[0], 1, 0], [iv[1], -1, 0]]
    A = ad.compute_best_lver(S, Region.from_polytope(Polytope(strip + [[-c, -m, 1], [2 * c, 2 * m, -1]])), zeta=False) if mode != "zeta" else None
    B = ad.compute_best_lver(S, Region.from_polytope(Polytope(strip + [[-2, 0, 1], [c, m, -1]])), zeta=True) if mode != "lver" else None
    got = zd.lver_to_zd(A, B, I)
    what = f"regions {idx} large values {ls} powers {ks} zeta {zs} tau0 = {m} sigma + {c} ({mode})"
    pieces = []
    for h in got:
        if h.hypothesis_type != "Zero density estimate" or not isinstance(h.data, zd.Zero_Density_Estimate):
            raise Bad(f"{what}: the result is a {h.hypothesis_type}")
        if not h.dependencies:
            raise Bad(f"{what}: the estimate rests on nothing")
        leaves_given(h, given)
        d = h.data.interval
        pieces.append((exact(d.x0), exact(d.x1), h))
    ends = sorted({x for p in pieces for x in p[:2] if x is not None and iv[0] <= x <= iv[1]} | set(iv))
    pts = {a + (b - a) * F(j, 4) for a, b in zip(ends, ends[1:]) for j in (1, 2, 3)}
    pts |= {iv[0] + (iv[1] - iv[0]) * F(2 * j + 1, 2 * SIGMAS) for j in range(SIGMAS)}
    key = []
    for s in sorted(x for x in pts if x not in ends):
        t0 = m * s + c
        vals = ([ratio(cl, s, t0, 2 * t0, 2)] if A else []) + ([ratio(zcl, s, F(2), t0, 2)] if B else [])
        lo = max([v[0] for v in vals if v[0] is not None], default=None)
        hi = max([v[1] for v in vals if v[1] is not None], default=None)
        ctx.step()
        if lo is None:
            key.append(None)
            continue
        here = [p for p in pieces if p[2].data.interval.contains(s)]
        if len(here) != 1:
            raise Bad(f"{what}: {len(here)} estimates at sigma = {s}")
        v = exact(here[0][2].data.at(s))
        if not lo / (1 - s) <= v <= hi / (1 - s):
            raise Bad(f"{what}: A({s}) <= {v}, the energy regions give {lo / (1 - s)}")
        key.append(v)
    ctx.state((t, tuple(key)))
    ctx.outcome((t, mode, len(pieces)))


def groups(tier):
    global SIGMAS
    SIGMAS = 7 if tier == "quick" else 20
    return [Group("zero density estimates", cases, run), Group("from energy regions", lver_cases, run_lver, timeout=300)]
