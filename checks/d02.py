"""D02: the shipped derivations prove the published exponent pairs and zero densities."""
import re
from fractions import Fraction as F
from mc.core import Group, Bad
from mc import derive as V, hyps as M

ID = "D02"
COVERAGE = (
    "every derivation of exponent pairs, mu bounds and zero density estimates shipped in derived.py, run on the recorded literature in several iteration orders of "
    "the hypothesis set, against the result as published in the blueprint: pairs and their proofs exactly, estimates at interior points of every cell cut out by the "
    "end points obtained and published; proofs of seven pairs from every subset (quick: the small and large ones) of eight recorded results, with and without simplification, "
    "each of which must follow from what it cites.  state = distinct cell or pair, transition = one comparison, trace = one (derivation, order)"
)
ASSUMPTIONS = ["the published results are those stated in the LaTeX chapters of /repo",
               "the iteration orders explored are: as recorded, reversed, alternating, by name"]

H = F(1, 2)
ORDERS = ["recorded", "reversed"]
MORE = ["alternating", "by name"]


def orders(tier):
    return ORDERS + (MORE if tier == "thorough" else [])


# ---------------------------------------------------------------- exponent pairs
def vdc_cases(tier):
    for o in orders(tier):
        for k in range(1, 13 if tier == "quick" else 41):
            yield [o, k]
        yield [o, "mu"]


def run_vdc(case, ctx):
    o, k = case
    V.ordered(o)
    if k == "mu":
        h, _ = V.run("prove_hardy_littlewood_mu_bound")
        ctx.step()
        if (F(h.data.sigma), F(h.data.mu)) != (H, F(1, 6)):
            raise Bad(f"the bound proved is mu({h.data.sigma}) <= {h.data.mu}")
        names = M_names(h)
        for n in ("van der Corput A transform", "van der Corput B transform"):
            if n not in names:
                raise Bad(f"the proof does not mention the {n}: {sorted(names)}")
        ctx.state("mu")
        return
    if k < 2:
        try:
            V.run("van_der_corput_pair", k)
        except ValueError:
            ctx.step()
            ctx.outcome("refused")
            return
        raise Bad("k = 1 accepted")
    h, _ = V.run("van_der_corput_pair", k)
    want = (F(1, 2 ** k - 2), 1 - F(k - 1, 2 ** k - 2))
    ctx.step()
    if (F(h.data.k), F(h.data.l)) != want:
        raise Bad(f"k = {k}: {h.data}, published {want}")
    # the proof applies A k - 2 times to B of the trivial pair
    seen, a, b = h, 0, 0
    while seen.dependencies:
        deps = list(seen.dependencies)
        a += any("A transform" in d.name for d in deps)
        b += any("B transform" in d.name for d in deps)
        nxt = [d for d in deps if d.hypothesis_type == "Exponent pair"]
        if len(nxt) != 1:
            raise Bad(f"k = {k}: a step of the proof uses {[d.name for d in deps]}")
        seen = nxt[0]
    if (a, b) != (k - 2, 1):
        raise Bad(f"k = {k}: the proof applies A {a} times and B {b} times")
    ctx.state(want)


def M_names(h, seen=None):
    seen = set() if seen is None else seen
    for d in h.dependencies:
        seen.add(d.name)
        M_names(d, seen)
    return seen


KNOWN = [(F(1, 6), F(2, 3)), (F(13, 31), F(16, 31)), (F(4, 11), F(6, 11)), (F(2, 7), F(4, 7)), (F(5, 24), F(15, 24)), (F(4, 18), F(11, 18)), (F(3, 40), F(31, 40))]
NEW = [(F(89, 1282), F(997, 1282)), (F(652397, 9713986), F(7599781, 9713986)), (F(10769, 351096), F(609317, 702192)), (F(89, 3478), F(15327, 17390))]


def pair_cases(tier):
    for o in orders(tier):
        for i in range(len(KNOWN)):
            yield [o, "best", i]
    for o in (["recorded"] if tier == "quick" else ORDERS):
        for i in range(len(NEW)):
            yield [o, "new", i]
    yield ["recorded", "none", 0]


def check_proof(h, ctx, depth=0):
    """no derived statement without something it is derived from"""
    for d in h.dependencies:
        ctx.step()
        if depth > 60:
            raise Bad("the proof is circular")
        check_proof(d, ctx, depth + 1)
    if not h.dependencies and h.name.startswith("Derived"):
        raise Bad(f"{h.name} is used without a proof")


def run_pair(case, ctx):
    o, kind, i = case
    V.ordered(o)
    if kind == "none":
        h, _ = V.run("best_proof_of_exponent_pair", F(1, 100), F(1, 2) + F(1, 100))
        ctx.step()
        if h is not None:
            raise Bad("a pair nobody knows was proved")
        ctx.state("none")
        return
    p = (KNOWN if kind == "best" else NEW)[i]
    h, out = V.run("best_proof_of_exponent_pair" if kind == "best" else "prove_exponent_pair", *p)
    ctx.step()
    if h is None:
        raise Bad(f"no proof of {p} is found")
    if (F(h.data.k), F(h.data.l)) != p:
        raise Bad(f"the proof of {p} proves {h.data}")
    check_proof(h, ctx)
    if kind != "best":
        # what the proof cites suffices
        d = V.derived()
        again = d["Hypothesis_Set"]()
        again.add_hypothesis(d["ep"].trivial_exp_pair)
        again.add_hypotheses(list(leaves(h, {}).values()))
        r, _ = V.run("prove_exponent_pair_with_hypotheses", again, *p)
        if r is None or (F(r.data.k), F(r.data.l)) != p:
            raise Bad(f"{p} does not follow from what its proof cites: {sorted(x.name for x in again)}")
    names = M_names(h)
    if kind == "best" and not any("transform" in n for n in names):
        raise Bad(f"the proof of {p} uses no transform: {sorted(names)}")
    ctx.outcome((kind, i, h.proof_date()))
    ctx.state(p)


# ---------------------------------------------------------------- zero densities
def q(n, d):
    return lambda x: F(n[0] * x + n[1]) / (d[0] * x + d[1])


ING = [(q((0, 3), (-1, 2)), H, F(3, 4))]
HUX = [(q((0, 3), (3, -1)), F(3, 4), F(1))]
JUT = [(q((0, 2), (0, 1)), F(11, 14), F(1))]
HBA = [(q((0, 9), (7, -1)), F(11, 14), F(1))]
HBB = [(q((0, 3), (10, -7)), F(20, 23), F(25, 28)), (q((0, 4), (4, -1)), F(25, 28), F(1))]
GM = [(q((0, 15), (5, 3)), F(7, 10), F(9, 10))]
HBX = [(q((0, 3), (10, -7)), F(20, 23), F(1))]
BOU = [(q((0, 2), (9, -6)), F(17, 22), F(38, 49)), (q((0, 9), (16, -8)), F(38, 49), F(4, 5))]

DENSITIES = {
    "prove_zero_density_ingham_1940": ING, "prove_zero_density_ingham_1940_v2": ING,
    "prove_zero_density_huxley_1972": HUX, "prove_zero_density_huxley_1972_v2": HUX,
    "prove_zero_density_jutila_1977": JUT, "prove_zero_density_jutila_1977_v2": JUT,
    "prove_zero_density_heathbrown_1979a": HBA, "prove_zero_density_heathbrown_1979a_v2": HBA,
    "prove_zero_density_heathbrown_1979b": HBB, "prove_zero_density_heathbrown_1979b_v2": HBB,
    "prove_zero_density_guth_maynard_2024": GM, "prove_zero_density_guth_maynard_2024_v2": GM,
    "prove_zero_density_heathbrown_extended": HBX, "prove_zero_density_heathbrown_extended_v2": HBX,
    "prove_zero_density_bourgain_improved": BOU,
}
SLOW = {"prove_zero_density_bourgain_improved"}


def zd_cases(tier):
    for o in orders(tier):
        for fn in sorted(DENSITIES, key=lambda f: f not in SLOW):
            if fn in SLOW and o != "recorded":
                continue
            yield [o, fn]


def run_zd(case, ctx):
    o, fn = case
    spec = DENSITIES[fn]
    V.ordered(o)
    hs, _ = V.run(fn, verbose=False)
    hs = list(V.flat(hs))
    if not hs:
        raise Bad(f"{fn} proves nothing")
    V.compare(hs, spec, ctx, fn, window=(spec[0][1], spec[-1][2]) if fn in SLOW else None)
    for h in hs:
        if not h.dependencies:
            raise Bad(f"{fn}: {h.data} has no proof")
    ctx.outcome(fn)


# the pairs which Heath-Brown's derivative tests give
def hb_cases(tier):
    for o in orders(tier):
        yield [o]


def run_hb(case, ctx):
    V.ordered(case[0])
    _, out = V.run("prove_heathbrown_exponent_pairs")
    got = {(F(a), F(b)) for a, b in re.findall(r"exponent pair \(([\d/]+), ([\d/]+)\)", out)}
    pub = {m: (F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))) for m in range(4, 9)}
    for m, p in pub.items():
        ctx.step()
        ctx.state(p)
        if p not in got:
            raise Bad(f"the pair {p} (m = {m}) is not derived: {sorted(got)}")
    for k, l in got:
        ctx.step()
        if k < 0 or k > H or l < H or l > 1:
            raise Bad(f"({k}, {l}) is no exponent pair")
        for alpha in (F(1, 1000), F(1, 30), F(1, 8), F(1, 5), F(1, 4), F(1, 3), F(2, 5), H):
            # the classical lower bound beta >= alpha / 2
            if k + (l - k) * alpha < alpha / 2:
                raise Bad(f"({k}, {l}) is too good")
    ctx.outcome(len(got))


# proofs from part of the literature, with and without leaving out what is not needed
PART = [(F(1, 6), F(2, 3)), (H, H), (F(13, 84), F(55, 84)), (F(13, 194), F(76, 97)), (F(1, 14), F(11, 14)), (F(0), F(1)), (F(1, 27), F(31, 36))]


def menu():
    lit = full()
    t = {h.name: h for h in lit.list_hypotheses(hypothesis_type="Exponent pair transform")}
    b = [h for h in lit.list_hypotheses(hypothesis_type="Upper bound on beta") if h.reference.author() == "Heath-Brown"]
    b = sorted((h for h in b), key=lambda h: (F(h.data.bound.domain.x1), F(h.data.bound.domain.x0), h.name))
    e = [h for h in lit.list_hypotheses(hypothesis_type="Exponent pair") if (h.data.k, h.data.l) == (F(13, 84), F(55, 84))]
    return [t["van der Corput A transform"], t["van der Corput B transform"], t["Sargos C transform"], e[0]] + b[-4:]


_full = []


def full():
    if not _full:
        _full.append(V.derived()["literature"])
    return _full[0]


def part_cases(tier):
    n = 8
    for m in range(2 ** n):
        if tier == "thorough" or bin(m).count("1") in (1, 2, 3, 6, 7, 8):
            yield [m]


def leaves(h, out):
    if not h.dependencies:
        out[id(h)] = h
    for d in h.dependencies:
        leaves(d, out)
    return out


def run_part(case, ctx):
    d = V.derived()
    M_ = menu()
    use = [h for i, h in enumerate(M_) if case[0] >> i & 1]
    try:
        for k, l in PART:
            got = []
            for simplify in (False, True):
                small = d["Hypothesis_Set"]()
                small.add_hypotheses(use)
                d["literature"] = small
                h, out = V.run("prove_exponent_pair", k, l, simplify_deps=simplify, verbose=simplify)
                ctx.step()
                if {id(x) for x in small} != {id(x) for x in use}:
                    raise Bad(f"the literature was changed by the proof of ({k}, {l})")
                got.append(h)
                if h is None:
                    if simplify and "Failed" not in out:
                        raise Bad("a failure is not reported")
                    continue
                if (F(h.data.k), F(h.data.l)) != (k, l):
                    raise Bad(f"asked for ({k}, {l}), proved {h.data}")
                lv = list(leaves(h, {}).values())
                for x in lv:
                    if id(x) not in {id(y) for y in use} and not x.name.lower().startswith("trivial"):
                        raise Bad(f"the proof of ({k}, {l}) uses {x.name}, which is not known")
                # what the proof cites suffices
                again = d["Hypothesis_Set"]()
                again.add_hypothesis(d["ep"].trivial_exp_pair)
                again.add_hypotheses(lv)
                r = d["prove_exponent_pair_with_hypotheses"](again, k, l)
                if r is None or (F(r.data.k), F(r.data.l)) != (k, l):
                    raise Bad(f"({k}, {l}) does not follow from what its proof cites: {sorted(x.name for x in lv)}")
                ctx.state((k, l, tuple(sorted(x.name for x in lv))))
            if got[0] is not None and got[1] is None:
                raise Bad(f"({k}, {l}) is proved, but not when the proof is simplified")
            ctx.outcome((str(k), got[0] is not None, got[1] is not None))
    finally:
        d["literature"] = full()


# the same derivation talks about its proof
def talk_cases(tier):
    for fn in ("prove_zero_density_ingham_1940", "prove_zero_density_huxley_1972_v2", "prove_zero_density_jutila_1977_v2", "prove_zero_density_guth_maynard_2024_v2"):
        yield [fn]


def run_talk(case, ctx):
    fn, = case
    V.ordered("recorded")
    quiet, o1 = V.run(fn, verbose=False)
    loud, o2 = V.run(fn, verbose=True)
    ctx.step()
    if [str(h.data) for h in V.flat(quiet)] != [str(h.data) for h in V.flat(loud)]:
        raise Bad(f"{fn}: verbose changes the result")
    if "Found proof" in o1 or "Found proof" not in o2:
        raise Bad(f"{fn}: the proof is printed {'when not' if 'Found proof' in o1 else 'not when'} asked for")
    ctx.state(fn)


# Bourgain's zero densities from exponent pairs, optimised
OPT = [((0, 11), (48, -36), F(3, 4), F(14, 15)), ((0, 391), (2493, -2014), F(14, 15), F(2841, 3016)), ((0, 22232), (163248, -134765), F(2841, 3016), F(859, 908)),
       ((0, 4406612), (33911310, -28181831), F(859, 908), F(635113, 655952)), ((0, 3918), (49189, -43490), F(635113, 655952), F(637457, 656512)),
       ((0, 2351558), (39632665, -35918731), F(637457, 656512), F(39, 40)), ((0, 1780), (35670, -32717), F(39, 40), F(59, 60)), ((0, 6), (303, -290), F(59, 60), F(1))]


def opt_cases(tier):
    for o in ORDERS + MORE:
        yield [o]


def run_opt(case, ctx):
    V.ordered(case[0])
    d = V.derived()
    import zero_density_estimate as zd
    hs = zd.bourgain_ep_to_zd()
    V.compare(hs, [(q(n, e), a, b) for n, e, a, b in OPT], ctx, "bourgain_ep_to_zd")
    for h in hs:
        ps = [x for x in h.dependencies if x.hypothesis_type == "Exponent pair"]
        ctx.step()
        if len(ps) != 1:
            raise Bad(f"{h.data}: depends on {len(ps)} exponent pairs")
        k, l = F(ps[0].data.k), F(ps[0].data.l)
        for t in (F(1, 3), F(1, 2), F(4, 5)):
            x = F(h.data.interval.x0) + (F(h.data.interval.x1) - F(h.data.interval.x0)) * t
            if V.value(h.data, x) != 4 * k / (2 * (1 + k) * x - 1 - l):
                raise Bad(f"{h.data} does not follow from the exponent pair ({k}, {l})")
    ctx.outcome(case[0])


# ---------------------------------------------------------------- Ivic's zero densities
def ivic_start(m, pairs):
    """where 3m/((3m-2) sigma + 2-m) starts to hold, with the best known exponent pair"""
    best = min((3 * m * m * (1 + 2 * k + 2 * l) - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m * m * (1 + 2 * k + 2 * l) - (6 * k + 4 * l) * m + 2 * k + 2 * l) for k, l in pairs)
    return min(F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2), max(F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2), best))


def ivic_cases(tier):
    for o in (["recorded"] if tier == "quick" else ORDERS + MORE):
        yield [o]


def run_ivic(case, ctx):
    V.ordered(case[0])
    d = V.derived()
    zd = d["zd"]
    got = []
    orig = zd.ivic_ep_to_zd

    def spy(*a, **k):
        r = orig(*a, **k)
        got.append((k["m"] if "m" in k else a[1], r))
        return r
    zd.ivic_ep_to_zd = spy
    try:
        V.run("prove_zero_density_ivic_1984")
    finally:
        zd.ivic_ep_to_zd = orig
    if not {2, 3, 4, 5, 6} <= {m for m, _ in got}:
        raise Bad(f"estimates are proved for m in {[m for m, _ in got]}")
    for m, h in got:
        # at least the range which the published vertices give, and what the pair cited gives
        ps = [(F(x.data.k), F(x.data.l)) for x in h.dependencies if x.hypothesis_type == "Exponent pair"]
        start = ivic_start(m, ps)
        V.compare([h], [(q((0, 3 * m), (3 * m - 2, 2 - m)), start, F(1))], ctx, f"Ivic's estimate for m = {m}")
        if start > ivic_start(m, known_hull()) or (m == 2 and start > F(3831, 4791)):
            raise Bad(f"Ivic's estimate for m = {m} is proved from {start} on, known from {ivic_start(m, known_hull())} on")
        check_proof(h, ctx)
    ctx.outcome(len(got))


# ---------------------------------------------------------------- mu and the hull of pairs
MU = [((-36, 31), 84, H, F(88225, 153852)), ((-251324, 220633), 620612, F(88225, 153852), F(521, 796)), ((-1508, 1333), 3825, F(521, 796), F(53141, 76066)),
      ((-454, 405), 1202, F(53141, 76066), F(3620, 5119)), ((-52938216, 49318855), 170145110, F(3620, 5119), F(52209, 69128)),
      ((-502648, 471957), 1682490, F(52209, 69128), F(1389, 1736)), ((-3016, 2841), 10316, F(1389, 1736), F(134765, 163248)),
      ((-908, 859), 3214, F(134765, 163248), F(18193, 21906)), ((-45335, 43535), 180277, F(18193, 21906), F(249, 280)), ((-30, 29), 130, F(249, 280), F(9, 10))]
TY = [(F(4742, 38463), F(35731, 51284)), (F(18, 199), F(593, 796)), (F(2779, 38033), F(58699, 76066)), (F(715, 10238), F(7955, 10238))]


def known_hull():
    """the vertices stated in Corollary H-pairs"""
    n = [(F(13, 84), F(55, 84))] + TY
    for i in range(5, 9):
        n.append(M.T_A(n[i - 4]))
    for m in range(4, 20):
        k = F(2, (m - 1) ** 2 * (m + 2))
        n.append((k, 1 - F(3 * m - 2, m * (m - 1) * (m + 2))))
    return n + [M.T_B(p) for p in n] + [(F(0), F(1)), (H, H)]


def hull_cases(tier):
    for o in orders(tier):
        for depth in ((3,) if tier == "quick" else (2, 3, 4, 5)):
            yield [o, depth]


def run_hull(case, ctx):
    o, depth = case
    V.ordered(o)
    d = V.derived()
    import exponent_pair as ep
    import bound_mu as bm
    from hypotheses import Hypothesis_Set
    from functions import Interval
    DB = d["literature"]
    hs = Hypothesis_Set()
    hs.add_hypothesis(ep.trivial_exp_pair)
    for t in ("Upper bound on mu", "Exponent pair", "Exponent pair transform"):
        hs.add_hypotheses(DB.list_hypotheses(hypothesis_type=t))
    hs.add_hypotheses(ep.compute_exp_pairs(hs, search_depth=depth, prune=True))
    pts = [(F(h.data.k), F(h.data.l)) for h in ep.compute_convex_hull(hs)]
    for p in known_hull():
        ctx.step()
        if not M.in_hull(pts, p):
            raise Bad(f"the known exponent pair {p} is not in the hull computed")
        ctx.state(p)
    cells = []
    pieces = bm.best_mu_bound_piecewise(Interval(H, F(9, 10)), hs)
    ends = sorted({x for *_, a, b in MU for x in (a, b)} | {F(x) for f in pieces for x in (f.domain.x0, f.domain.x1)})
    for a, b in zip(ends, ends[1:]):
        for t in (F(1, 7), F(1, 2), F(6, 7)):
            x = a + (b - a) * t
            w = min((c[0] * x + c[1]) / F(e) for c, e, u, v in MU if u <= x < v)
            fs = [f for f in pieces if F(f.domain.x0) <= x < F(f.domain.x1)]
            ctx.step()
            if len(fs) != 1 or F(fs[0].m) * x + F(fs[0].c) != w:
                raise Bad(f"mu({x}): {[str(f) for f in fs]}, published {w}")
            one = bm.best_mu_bound(x, hs)
            if F(one.data.mu) != w:
                raise Bad(f"mu({x}) <= {one.data.mu}, published {w}")
        ctx.state((a, b))
    ctx.outcome(depth)


# ---------------------------------------------------------------- the current records
def record_spec():
    s = [((0, 3), (-1, 2), H, F(7, 10)), ((0, 15), (5, 3), F(7, 10), F(19, 25)), ((0, 9), (8, -2), F(19, 25), F(127, 167)), ((0, 15), (13, -3), F(127, 167), F(13, 17)),
         ((0, 6), (5, -1), F(13, 17), F(17, 22)), ((0, 2), (9, -6), F(17, 22), F(41, 53)), ((0, 9), (7, -1), F(41, 53), F(7, 9)), ((0, 9), (16, -8), F(7, 9), F(1867, 2347)),
         ((0, 3), (2, 0), F(1867, 2347), F(7, 8)), ((0, 3), (10, -7), F(7, 8), F(279, 314)), ((0, 24), (30, -11), F(279, 314), F(9, 10)), ((0, 3), (10, -7), F(9, 10), F(31, 34)),
         ((0, 11), (48, -36), F(31, 34), F(14, 15)), ((0, 391), (2493, -2014), F(14, 15), F(2841, 3016)), ((0, 22232), (163248, -134765), F(2841, 3016), F(859, 908)),
         ((0, 4406612), (33911310, -28181831), F(859, 908), F(23, 24)), ((0, 3), (24, -20), F(23, 24), F(60725033, 62460603)),
         ((0, 2351558), (39632665, -35918731), F(60725033, 62460603), F(39, 40)), ((0, 2), (15, -12), F(39, 40), F(41, 42)), ((0, 3), (40, -35), F(41, 42), F(59, 60))]
    for n in range(6, 23):
        # 3 / (n (1 - 2 (n - 1)(1 - x)))
        s.append(((0, 3), (2 * n * (n - 1), n * (3 - 2 * n)), 1 - F(1, 2 * n * (n - 1)), 1 - F(1, 2 * n * (n + 1))))
    return [(q(n, e), a, b) for n, e, a, b in s]


def record_cases(tier):
    for o in (["recorded"] if tier == "thorough" else []):
        yield [o, "all"]
    yield ["recorded", "window"]


def run_record(case, ctx):
    o, what = case
    V.ordered(o)
    d = V.derived()
    import zero_density_estimate as zd
    if what == "all":
        got = []
        orig = zd.best_zero_density_estimate

        def spy(*a, **k):
            r = orig(*a, **k)
            got.extend(r)
            return r
        zd.best_zero_density_estimate = spy
        try:
            V.run("compute_best_zero_density")
        finally:
            zd.best_zero_density_estimate = orig
        V.compare(got, record_spec(), ctx, "compute_best_zero_density", window=(H, record_spec()[-1][2]))
    else:
        # the recorded and derived estimates which are best somewhere, without the rest
        from hypotheses import Hypothesis_Set
        from functions import Interval
        hs = Hypothesis_Set()
        ref = d["Reference"].make("Tao--Trudgian--Yang", 2024)
        hs.add_hypotheses([h for h in d["literature"].list_hypotheses(hypothesis_type="Zero density estimate") if useful(h.data)])
        zd.add_zero_density(hs, "2/(9*x - 6)", Interval("[17/22, 38/49]"), ref)
        zd.add_zero_density(hs, "9/(8*(2*x - 1))", Interval("[38/49, 4/5]"), ref)
        zd.add_zero_density(hs, "3/(10 * x - 7)", Interval("[701/1000, 1]"), ref)
        V.compare([h for h in zd.best_zero_density_estimate(hs)], [s for s in record_spec() if s[2] <= F(9, 10)], ctx, "best_zero_density_estimate", window=(H, F(9, 10)))
    ctx.outcome(what)


def useful(d):
    """equal to the record at some point of (1/2, 9/10)"""
    spec = [s for s in record_spec() if s[2] <= F(9, 10)]
    for f, a, b in spec:
        x = (a + b) / 2
        if F(d.interval.x0) <= x < F(d.interval.x1) and V.same(V.value(d, x), f(x)):
            return True
    return False


def groups(tier):
    return [Group("van der Corput", vdc_cases, run_vdc), Group("exponent pairs", pair_cases, run_pair, timeout=600), Group("zero densities", zd_cases, run_zd, timeout=900),
            Group("verbose", talk_cases, run_talk), Group("Heath-Brown pairs", hb_cases, run_hb), Group("part of the literature", part_cases, run_part), Group("Ivic", ivic_cases, run_ivic, timeout=300), Group("optimised", opt_cases, run_opt, timeout=300), Group("hull and mu", hull_cases, run_hull, timeout=600),
            Group("records", record_cases, run_record, timeout=1500)]
