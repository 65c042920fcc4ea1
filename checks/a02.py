"""A02: bounds on the additive energy of zeros: from energy regions, from zero density, and the best of several."""
from itertools import combinations
from fractions import Fraction as F
from mc.core import Group, Bad
from mc.ratf import exact
from mc import hyps as M, lvs as V, envel as E
from checks.a01 import ENERGY, ZETA, LVB, BOX5, hyp, boxed
from checks.z01 import leaves_given
from mc.regs import ratio
import additive_energy as ad
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from hypotheses import Hypothesis_Set
from functions import Affine, Interval

ID = "A02"
COVERAGE = (
    "bounds on A* from every set of up to 2 (thorough: 3) of 5 energy regions and 2 lifted large value estimates with a set of powers and up to one zeta "
    "energy region, for 5 thresholds tau0 affine in sigma: at three rational points of every returned piece and on a grid of sigma, the bound "
    "is exactly max(sup LV*/tau over [tau0, 2 tau0], sup LV*_zeta/tau over [2, tau0])/(1 - sigma), computed by exact linear programs on every "
    "combination of pieces; the sources are given hypotheses.  Trivial estimates from every set of up to 2 (3) of 17 zero density estimates; the best of every set of up to 3 (4; and 5 to 13 along cyclic walks) of 17 "
    "energy estimates, with its source.  state = distinct piecewise bound, transition = one value compared, trace = one call"
)
ASSUMPTIONS = ["where the region has pieces without interior only, the bound may or may not count them", "compared at interior points of ranges"]
H = F(1, 2)
TYPE = "Zero density energy estimate"
# (m, c, sigma interval)
TAU0 = [(F(0), F(2), (H, F(3, 4))), (F(0), F(3, 2), (F(3, 4), F(9, 10))), (F(-1), F(5, 2), (H, F(1))), (F(2), F(1), (F(3, 5), F(4, 5))), (F(0), F(3), (H, F(3, 4)))]


def cases(tier):
    q = tier == "quick"
    n = 0
    for k in range(0, 3 if q else 4):
        for c in combinations(range(len(ENERGY)), k):
            for l in ([], [0], [1]):
                for ks in ([], [2], [2, 3]):
                    if not c and not l or (len(c) + len(l)) > (2 if q else 3) or (len(c) + len(l)) * (1 + len(ks)) > (3 if q else 6):
                        continue
                    for z in ([], [0], [1]):
                        n += 1
                        if q:
                            yield [list(c), l, ks, z, n % len(TAU0)]
                        else:
                            for t in range(len(TAU0)):
                                yield [list(c), l, ks, z, t]


def sigma_points(pieces, iv):
    ends = sorted({x for p in pieces for x in p[:2] if x is not None and iv[0] <= x <= iv[1]} | set(iv))
    out = [a + (b - a) * F(j, 4) for a, b in zip(ends, ends[1:]) for j in (1, 2, 3)]
    n = GRID
    out += [iv[0] + (iv[1] - iv[0]) * F(2 * j + 1, 2 * n) for j in range(n)]
    return sorted(set(x for x in out if iv[0] < x < iv[1] and x not in ends))


def run(case, ctx):
    idx, ls, ks, zs, t = case
    base = [hyp(ENERGY[i], i, year=1950 + i) for i in idx]
    src = [V.lv([list(b) for b in LVB[i]], 1960 + i, f" {i}") for i in ls]
    lifted = ad.lv_to_lver(Hypothesis_Set(src)) if src else []
    zh = [hyp(ZETA[i], i, True, 1970 + i) for i in zs]
    trs = [ad.get_raise_to_power_hypothesis(k) for k in ks]
    specs = [ENERGY[i] for i in idx] + [[[list(b) + [-1, 0, 0] for b in LVB[i]]] for i in ls]
    cl = [c for s in specs for k in [1] + ks for c in boxed(s, k)] + boxed([])
    zcl = cl + [c for i in zs for c in boxed(ZETA[i])]
    M.rank((base + lifted + zh + trs)[::-1 if t % 2 else 1])
    S = Hypothesis_Set(base + lifted + zh + trs)
    m, c, iv = TAU0[t]
    got = ze.lver_to_energy_bound(S, Affine(m, c, Interval(iv[0], iv[1])))
    what = f"regions {idx} large values {ls} powers {ks} zeta {zs} tau0 = {m} sigma + {c}"
    pieces = []
    for h in got:
        if h.hypothesis_type != TYPE or not isinstance(h.data, ze.Zero_Density_Energy_Estimate):
            raise Bad(f"{what}: the result is a {h.hypothesis_type}")
        d = h.data.interval
        pieces.append((exact(d.x0), exact(d.x1), h))
        if not h.dependencies:
            raise Bad(f"{what}: the estimate rests on nothing")
        leaves_given(h, base + lifted + zh + trs + src)
    key = []
    for s in sigma_points(pieces, iv):
        t0 = m * s + c
        a = ratio(cl, s, t0, 2 * t0)
        b = ratio(zcl, s, F(2), t0)
        lo = max([x for x in (a[0], b[0]) if x is not None], default=None)
        hi = max([x for x in (a[1], b[1]) if x is not None], default=None)
        here = [p for p in pieces if p[2].data.interval.contains(s)]
        ctx.step()
        if lo is None:
            key.append(None)
            continue
        if len(here) != 1:
            raise Bad(f"{what}: {len(here)} estimates at sigma = {s}")
        v = exact(here[0][2].data.at(s))
        if not lo / (1 - s) <= v <= hi / (1 - s):
            raise Bad(f"{what}: A*({s}) <= {v}, the energy regions give {lo / (1 - s)}")
        key.append(v)
    ctx.state((t, tuple(key)))
    ctx.outcome((t, len(pieces)))


# ---- best of several estimates, trivial estimates
def make(i, form, year, k=0):
    f = E.FAM[i][0]
    if form == "text":
        return ze.literature_zero_density_energy_estimate(f.expr(), E.rng(i, k), M.ref(year), f" number {i}")
    data = ze.Zero_Density_Energy_Estimate.from_rational_func(f.lib(), E.rng(i, k))
    if form == "trivial" and i % 2:
        return ze.trivial_zero_density_energy_estimate(data)
    return ze.derived_zero_density_energy_estimate(data, f"proof {i}", {M.mu(F(i, 20), 1, year), M.pair(F(1, 6), F(2, 3), year - 1)})


def best_cases(tier):
    forms = ["text", "derived", "trivial"]
    n = 0
    for c in E.combos(tier):
        n += 1
        yield [list(c), forms[n % 3], forms[n // 3 % 3], n // 3]
        if tier != "quick" or n % 2:
            yield [list(c[::-1]), forms[(n + 1) % 3], forms[n // 3 % 2], n // 3 + 1]


def run_best(case, ctx):
    idx, f1, f2, k = case
    hs = [make(i, f1 if n == 0 else f2, 1950 + n, k >> 2 * n) for n, i in enumerate(idx)]
    M.rank(hs)
    S = Hypothesis_Set(hs + [M.mu(F(1, 2), F(1, 6)), M.pair(F(1, 6), F(2, 3))])
    got = ze.compute_best_energy_bound(S)
    E.check_best(got, hs, idx, "best energy bound", ctx, TYPE, ze.Zero_Density_Energy_Estimate)


def trivial_cases(tier):
    for k in range(0, 3 if tier == "quick" else 4):
        for c in combinations(range(len(E.FAM)), k):
            for fl in range(4 if k == 1 else 1):
                yield [list(c), sum(c) + fl]


def run_trivial(case, ctx):
    idx, fl = case
    S = Hypothesis_Set([M.mu(H, F(1, 6))])
    zhs = []
    for n, i in enumerate(idx):
        f = E.FAM[i][0]
        if n % 2:
            h = zd.derived_zero_density_estimate(zd.Zero_Density_Estimate.from_rational_func(f.lib(), E.rng(i, fl + n)), "p", set())
            S.add_hypothesis(h)
        else:
            zd.add_zero_density(S, f.expr(), E.rng(i, fl + n), M.ref(1950 + i), f" {i}")
    zhs = S.list_hypotheses(hypothesis_type="Zero density estimate")
    before = [(h, exact(h.data.at(x)), x) for h, i in [(h, None) for h in zhs] for x in [(h.data.interval.x0 + h.data.interval.x1) / 2]]
    n0 = len(S.list_hypotheses())
    ze.add_trivial_zero_density_energy_estimates(S)
    got = S.list_hypotheses(hypothesis_type=TYPE)
    if len(S.list_hypotheses()) != n0 + len(got):
        raise Bad("other hypotheses were added or removed")
    want = {i: (E.FAM[i][0], (*E.FAM[i][1], *E.ENDS[(fl + n) % 4])) for n, i in enumerate(idx)}
    if len(got) != len(idx) + 1:
        raise Bad(f"{len(idx)} zero density estimates give {len(got)} energy estimates")
    left = [(lambda x, f=f: 3 * f.at(x), r, E.points(i)) for i, (f, r) in want.items()] + [(lambda x: 3 / (1 - x), None, [H + F(j, 14) for j in range(1, 7)])]
    key = []
    for h in got:
        d = h.data.interval
        for fn, r, xs in left:
            ctx.step(len(xs))
            same = (d.x0, d.x1, d.include_lower, d.include_upper) == r if r else (d.x0, d.x1) == (H, F(1)) and d.include_lower
            if same and all(E.close(exact(h.data.at(x)), fn(x)) for x in xs):
                left.remove((fn, r, xs))
                key.append([fn(x) for x in xs])
                break
        else:
            raise Bad(f"the trivial energy estimate {h.data} is not three times a given zero density estimate, nor 3/(1-x)")
    for h, v, x in before:
        if exact(h.data.at(x)) != v:
            raise Bad(f"the given zero density estimate {h.data} was changed")
    ctx.state(tuple(map(tuple, key)))
    ctx.outcome(len(got))


GRID = 6


def groups(tier):
    global GRID
    GRID = 6 if tier == "quick" else 24
    return [Group("energy regions to A*", cases, run, timeout=300), Group("best energy bound", best_cases, run_best), Group("trivial estimates", trivial_cases, run_trivial)]
