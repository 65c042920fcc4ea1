"""L02: zeta large value estimates implied by large value estimates and by bounds on beta and mu."""
from itertools import combinations, product
from fractions import Fraction as F
from mc.core import Group, Bad, windows
from mc import hyps as M, lvs as V
import large_values as lv
import zeta_large_values as zlv
from hypotheses import Hypothesis, Hypothesis_Set
from functions import Affine, Interval
from bound_beta import Bound_beta

ID = "L02"
COVERAGE = (
    "every set of up to 2 (thorough: 3) large value estimates with every set of powers, every set of up to 3 bounds on mu and every set of "
    "up to 3 (thorough: 4) bounds on beta, and larger sets along cyclic walks (whole range, sub-intervals, gaps, crossing lines, beyond 1/2, ranges which start close to 0, nothing), in two iteration orders, and "
    "every combination of one hypothesis of each kind: every returned estimate cites given hypotheses (or powers of them), contains everything "
    "its own sources allow, and together they allow exactly the tuples which the sources allow, decided at one "
    "tuple of every cell cut out by all bounds.  state = distinct allowed cells, transition = one tuple, trace = one call"
)
ASSUMPTIONS = ["tuples on the boundary sigma = tau beta(1/tau) and sigma = sigma0 + tau mu0 themselves are not compared"]

H = F(1, 2)
T = V.TOP
LVS = [[(2, -2, 0), (1, -2, 1)], [(4, -6, 1)], [(2, -2, 0)], [(0, 0, 1), (1, 0, 0)], [(10, -13, 0), (F(1, 2), 0, F(1, 4))]]
POWERS = [2, 3]
MUS = [(H, F(1, 6)), (0, H), (F(3, 4), F(1, 16)), (H, 0), (1, 0), (F(5, 7), F(1, 14)), (F(-1), F(3, 2)), (F(-1), F(1, 10))]
# (m, c, lo, hi)
BETAS = [
    (F(1), F(0), F(0), F(1)),
    (H, F(1, 6), F(0), H),
    (F(2, 3), F(1, 12), F(1, 8), F(1, 3)),
    (F(0), F(1, 4), F(1, 4), H),
    (F(1), F(1, 24), F(0), F(1, 4)),
    (F(1, 4), F(1, 3), F(1, 3), F(3, 4)),
    (F(1), F(-1), F(3, 4), F(1)),
    (F(0), F(0), F(3, 2 * 10**6), H),
    (F(1, 8), F(1, 5), F(1, 3 * 10**6), F(1, 10**5)),
    (F(3, 4), F(1, 15), F(0), F(1, 5)),
    (F(1), F(-1, 20), F(1, 4), H),
]


def mk_lv(i):
    return V.lv(LVS[i], 1950 + i, f" L{i}")


def mk_mu(i):
    return M.mu(*MUS[i], 1960 + i)


def mk_beta(i):
    m, c, a, b = BETAS[i]
    return Hypothesis(f"b{i}", "Upper bound on beta", Bound_beta(Affine(m, c, Interval(a, b))), "given", M.ref(1970 + i))


def beta_zero(idx, s, t):
    """rho = 0 is implied at (sigma, tau)"""
    a = 1 / t
    vs = [BETAS[i][0] + BETAS[i][1] * t for i in idx if BETAS[i][2] <= a <= BETAS[i][3]]
    return bool(vs) and s > min(vs)


def mu_zero(idx, s, t):
    return any(s > MUS[i][0] + t * MUS[i][1] for i in idx)


def points(lines, taus, rhos):
    """open cells of the (sigma, tau) strip around [1/2,1] x [2,T]; lines: sigma = p + q tau; taus: extra walls;
    rhos: affine (c, m, t) levels of rho"""
    ts = {F(2), T} | set(taus)
    ls = [(F(p), F(q)) for p, q in lines] + [(H, F(0)), (F(1), F(0))]
    for (p, q), (r, u) in combinations(ls, 2):
        if q != u:
            ts.add((r - p) / (q - u))
    ts = sorted(t for t in ts if 0 < t)
    mids = [(a + b) / 2 for a, b in zip(ts, ts[1:])] + [ts[0] / 2, ts[-1] * 2]
    for t in mids:
        ss = sorted({p + q * t for p, q in ls})
        for s in [(a + b) / 2 for a, b in zip(ss, ss[1:])] + [ss[0] - 1, ss[-1] + 1]:
            lev = sorted({r[0] + r[1] * s + r[2] * t for r in rhos} | {F(0), t})
            for r in lev + [(a + b) / 2 for a, b in zip(lev, lev[1:])] + [lev[0] - 1, lev[-1] + 1]:
                yield s, t, r


def in_box(s, t):
    return H <= s <= 1 and 2 <= t <= T


def check_type(h, what):
    if h.hypothesis_type != "Zeta large value estimate":
        raise Bad(f"{what} gives a hypothesis of type {h.hypothesis_type}")


def sources(h, kinds):
    """the given hypotheses at the leaves"""
    if any(h is g for g in kinds):
        return [h]
    out = []
    for d in h.dependencies:
        out += sources(d, kinds)
    if not out:
        raise Bad(f"{h} rests on nothing given: {h.dependencies}")
    return out


# ---------------------------------------------------------------- mu
def mu_cases(tier):
    for n in range(0, 4):
        for c in combinations(range(len(MUS)), n):
            yield list(c)
    yield from windows(len(MUS), (4, 5, 7), (1, 2))


def run_mu(case, ctx):
    hs = [mk_mu(i) for i in case]
    M.rank(hs)
    S = Hypothesis_Set(hs + [mk_beta(0), mk_lv(0)])
    got = zlv.mu_to_zlv(S)
    walls = [(MUS[i][0], MUS[i][1]) for i in case]
    pts = list(points(walls, [], []))
    check_all(got, hs, case, mu_zero, pts, ctx, "bounds on mu")


def check_all(got, hs, case, zero, pts, ctx, what):
    srcs = []
    for h in got:
        check_type(h, what)
        src = sources(h, hs)
        srcs.append([c for c, g in zip(case, hs) if any(g is x for x in src)])
        if h.reference.year() != max(g.reference.year() for g in src):
            raise Bad(f"an estimate resting on {src} is dated {h.reference.year()}")
    key = []
    for s, t, r in pts:
        base = in_box(s, t) and 0 <= r <= t
        want = base and (r == 0 or not zero(case, s, t))
        ctx.step()
        all_ = True
        for h, sc in zip(got, srcs):
            c = V.contains(h.data.region, (s, t, r))
            if not c and base and (r == 0 or not zero(sc, s, t)):
                raise Bad(f"{what} {sc} allow (sigma, tau, rho) = ({s}, {t}, {r}), the estimate citing them excludes it")
            all_ = all_ and c
        if got and all_ != want:
            raise Bad(f"{what} {case}: (sigma, tau, rho) = ({s}, {t}, {r}) is {'allowed' if all_ else 'excluded'} by the estimates obtained")
        if not got and base and not want:
            raise Bad(f"{what} {case} exclude ({s}, {t}, {r}), but no estimate is obtained")
        key.append(all_)
    ctx.state((what, tuple(key)))
    ctx.outcome((what, len(case), len(got)))


# ---------------------------------------------------------------- beta
def beta_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for c in combinations(range(len(BETAS)), n):
            yield list(c)
            if n > 1:
                yield list(c[::-1])
    yield from windows(len(BETAS), (4, 5, 7, 9), (1, 2, 4), rev=tier != "quick")


def beta_points(case):
    walls = [(BETAS[i][0], BETAS[i][1]) for i in case]
    taus = [1 / e for i in case for e in BETAS[i][2:] if e > 0]
    return list(points(walls, taus, []))


def run_beta(case, ctx):
    hs = [mk_beta(i) for i in case]
    M.rank(hs)
    S = Hypothesis_Set(hs + [mk_mu(0), mk_lv(0)])
    check_all(zlv.beta_to_zlv(S), hs, case, beta_zero, beta_points(case), ctx, "bounds on beta")


# ---------------------------------------------------------------- large values
def lv_cases(tier):
    for n in range(0, 3 if tier == "quick" else 4):
        for c in combinations(range(len(LVS)), n):
            for k in range(0, 3):
                for ks in combinations(POWERS, k):
                    yield [list(c), list(ks)]
    for c in windows(len(LVS), (4, 5), (1,), rev=False):
        for ks in ([], [2], [2, 3]):
            yield [c, ks]


def lv_spec(i, k):
    return V.maxbound(LVS[i]).scale(k) & V.poly([(-2, 0, 1, 0)])


def run_lv(case, ctx):
    idx, ks = case
    hs = [mk_lv(i) for i in idx]
    trs = [lv.raise_to_power_hypothesis(k) for k in ks]
    M.rank(hs + trs)
    S = Hypothesis_Set(hs + trs + [mk_mu(0), mk_beta(0)])
    got = zlv.lv_to_zlv(S)
    specs = {(i, k): lv_spec(i, k) for i in idx for k in [1] + ks}
    arrs = {q: V.arrange([s]) for q, s in specs.items()}
    seen = set()
    for h in got:
        check_type(h, "a large value estimate")
        src = sources(h, hs)
        if len(src) != 1:
            raise Bad(f"a zeta large value estimate rests on {src}")
        i = [a for a, g in zip(idx, hs) if g is src[0]][0]
        direct = any(d is src[0] for d in h.dependencies)
        fit = []
        for k in [1] if direct else ks:
            try:
                V.compare(arrs[i, k], h.data.region, specs[i, k], "x", ctx=ctx)
                fit.append(k)
            except Bad as e:
                last = e
        if not fit:
            raise Bad(f"an estimate derived from {LVS[i]} ({'directly' if direct else 'raised to one of the powers ' + str(ks)}): {last}")
        seen |= {(i, k) for k in fit}
    if seen != set(specs):
        raise Bad(f"nothing is derived from {sorted(set(specs) - seen)} (estimate, power)")
    for i, h in zip(idx, hs):
        V.compare(arrs[i, 1], h.data.region, V.maxbound(LVS[i]), "the original estimate", mask=above(arrs[i, 1]))
    ctx.state((tuple(idx), tuple(ks)))
    ctx.outcome(("large values", len(idx), len(ks)))


def above(A):
    return sum(1 << i for i, p in enumerate(A.points) if p[1] >= 2)


# ---------------------------------------------------------------- everything
def all_cases(tier):
    for l, z, b, k in product([None, 0, 1, 4], [None, 1, 3], [[], [0], [1], [2, 5], [1, 3]], [[], [2]]):
        yield [l, z, b, k]


def run_all(case, ctx):
    l, z, b, ks = case
    hs = ([mk_lv(l)] if l is not None else []) + ([V.zlv(LVS[z], 1940)] if z is not None else [])
    bs = [mk_beta(i) for i in b]
    trs = [lv.raise_to_power_hypothesis(k) for k in ks]
    M.rank(hs + bs + trs)
    S = Hypothesis_Set(hs + bs + trs)
    n = set(S.list_hypotheses())
    got = zlv.compute_large_value_estimate(S)
    if set(S.list_hypotheses()) != n:
        raise Bad("the hypothesis set was changed")
    for h in got:
        check_type(h, "the set of all estimates")
        sources(h, hs + bs)
    if z is not None and not any(h is hs[-1] for h in got):
        raise Bad("the given zeta large value estimate is not among the estimates")
    specs = []
    if l is not None:
        specs += [lv_spec(l, k) for k in [1] + ks]
    if z is not None:
        specs.append(V.maxbound(LVS[z]))
    rhos = []
    walls, taus = [(BETAS[i][0], BETAS[i][1]) for i in b], [1 / e for i in b for e in BETAS[i][2:] if e > 0]
    for sp in specs:
        for r in sp.rows:
            if r[3]:
                rhos.append((-F(r[0]) / r[3], -F(r[1]) / r[3], -F(r[2]) / r[3]))
    for f, g in combinations(sorted(set(rhos) | {(F(0), F(0), F(0)), (F(0), F(0), F(1))}), 2):
        c, m, u = (x - y for x, y in zip(f, g))
        if m:
            walls.append((-c / m, -u / m))
        elif u:
            taus.append(-c / u)
    key = []
    for s, t, r in points(walls, taus, rhos):
        want = all(sp.pred((s, t, r)) for sp in specs) and (not b or (in_box(s, t) and 0 <= r <= t and (r == 0 or not beta_zero(b, s, t))))
        have = all(V.contains(h.data.region, (s, t, r)) for h in got)
        ctx.step()
        key.append(have)
        if have != want:
            raise Bad(f"(sigma, tau, rho) = ({s}, {t}, {r}) is {'allowed' if have else 'excluded'} by the estimates obtained")
    ctx.state(tuple(key))
    ctx.outcome(("all", len(got)))


def groups(tier):
    return [
        Group("bounds on mu", mu_cases, run_mu),
        Group("bounds on beta", beta_cases, run_beta),
        Group("large values", lv_cases, run_lv),
        Group("everything", all_cases, run_all),
    ]
