"""D01: the recorded literature says what the theorems say."""
import re
from fractions import Fraction as F
from itertools import product
from mc.core import Group, Bad
from mc.ratf import exact
from mc import hyps as M, lvs as V
from checks.a01 import fiber, distinct, cells, sat, scaled, BOX5
import literature as L
from literature import literature as DB

ID = "D01"
COVERAGE = (
    "every theorem recorded in the literature database against its statement in the blueprint, transcribed independently: bounds on beta, zero density and energy "
    "estimates at interior points of every cell cut out by all recorded and published end points (and all crossings of affine bounds), exponent pairs, mu bounds and "
    "their years as sets, large value estimates on every face of the exact arrangement of recorded and published bounds, energy regions on every cell of the "
    "arrangement over 30 (thorough: 99) points (sigma, tau), and the transforms A, B, C, D on every recorded pair and a lattice of pairs.  state = distinct cell or pair, transition = one comparison, trace = "
    "one label, theorem or pair"
)
ASSUMPTIONS = ["the theorems as stated in the LaTeX chapters of /repo, with their evident misprints corrected (1/360 for 1/130, alpha/(2(k-1)(k-2)) for 1/(2(k-1)(k-2)))",
               "the infinite families are compared up to the truncation constants of the code",
               "historical entries whose range is not stated in the blueprint (Huxley 1972 and 1973, Ivic 1979, Jutila 1983, Montgomery, Conrey) are compared with the range the code records"]

H = F(1, 2)


# ---------------------------------------------------------------- labels
_bib = {}


def years():
    if not _bib:
        text = open("/repo/blueprint/src/references.bib", encoding="utf-8").read()
        for m in re.finditer(r"@\w+\s*\{\s*([^,\s]+)\s*,(.*?)(?=\n@|\Z)", text, re.S):
            y = re.search(r"\byear\s*=\s*[{\"]?\s*[{]*(\d{4})", m.group(2), re.I)
            _bib[m.group(1)] = int(y.group(1)) if y else None
    return _bib


def key(h):
    """the BibTeX label, or author and year for an ad hoc reference"""
    lab = str(h.reference.label)
    return lab if lab in years() else f"{h.reference.author()} {h.reference.year()}"


def recorded(kind):
    out = {}
    for h in DB.list_hypotheses(kind):
        out.setdefault(key(h), []).append(h)
    return out


def same_labels(kind, spec):
    got = recorded(kind)
    if set(got) != set(spec):
        raise Bad(f"{kind}: recorded under {sorted(set(got) - set(spec))}, missing {sorted(set(spec) - set(got))}")
    for lab, hs in got.items():
        for h in hs:
            if h.dependencies:
                raise Bad(f"{h.name} of the literature has dependencies")
            if lab in years() and years()[lab] is not None and h.reference.year() != years()[lab]:
                raise Bad(f"{h.name} is dated {h.reference.year()}, published {years()[lab]}")
    return got


# ---------------------------------------------------------------- bounds on beta: (list of (m, c)) maximum on [a, b]
def beta_spec():
    K = L.Constants.BETA_TRUNCATION
    S = {}

    def add(lab, fs, a, b):
        S.setdefault(lab, []).append(([(F(m), F(c)) for m, c in fs], F(a), F(b)))

    def lin(c, m, d):        # (c + m alpha) / d
        return (F(m, d), F(c, d))
    add("watt_exponential_1989", [(H, F(89, 560))], F(3, 7), H)
    add("huxley_exponential_1991", [lin(1, 8, 22), lin(11, 112, 158), lin(1, 17, 22)], F(2, 5), H)
    add("huxley_exponential_1993", [(F(7, 20), F(13, 60)), (F(13, 20), F(11, 120))], 0, F(49, 114))
    add("huxley_exponential_1993", [(H, F(89, 570))], F(49, 114), H)
    cuts = [F(0), F(87, 275), F(423, 1295), F(227, 601), F(12, 31), F(1)]
    for f, a, b in zip([lin(13, 94, 146), lin(11, 191, 244), lin(89, 908, 1282), lin(29, 173, 280), lin(4, 103, 128)], cuts, cuts[1:]):
        add("huxley_exponential_1993", [f], a, b)
    S_ = "sargos_points_1995"
    # alpha + 3(1-4alpha)/40, 7alpha/8, alpha/3 - (1-4alpha)/6, 0
    add(S_, [(1 - F(12, 40), F(3, 40)), (F(7, 8), 0), (F(1, 3) + F(4, 6), -F(1, 6)), (0, 0)], 0, 1)
    add(S_, [(1 - F(4, 14), F(1, 14)), (F(5, 6), 0), (F(1, 3) + F(4, 6), -F(1, 6)), (0, 0)], 0, 1)
    T1 = [(4, 39, 60, F(7, 12), F(517, 873)), (29, 42, 120, F(65, 114), F(7, 12)), (89, 285, 570, F(49, 114), F(65, 114)),
          (11, 78, 120, F(5, 12), F(49, 114)), (13, 21, 60, F(356, 873), F(5, 12)), (4, 103, 128, F(12, 31), F(356, 873)),
          (29, 173, 280, F(227, 601), F(12, 31)), (89, 908, 1282, F(423, 1295), F(227, 601)), (11, 191, 244, F(87, 275), F(423, 1295)),
          (13, 94, 146, F(1424, 4747), F(87, 275)), (4, 235, 264, F(120, 419), F(1424, 4747)), (49, 1351, 1614, F(967, 3428), F(120, 419)),
          (29, 464, 600, F(199, 716), F(967, 3428)), (89, 2243, 2706, F(19, 74), F(199, 716)), (11, 428, 492, F(161, 646), F(19, 74)),
          (13, 253, 318, F(2848, 12173), F(161, 646))]
    T2 = [(89, 285, 570, F(106822, 246639), F(139817, 246639)), (2387, 17972, 27290, F(675, 1574), F(106822, 246639)),
          (2819, 19177, 29855, F(699371, 1647930), F(675, 1574)), (11897, 88442, 134680, F(156527, 370694), F(699371, 1647930)),
          (113, 897, 1345, F(263, 638), F(156527, 370694)), (491, 3624, 5530, F(143, 349), F(263, 638)),
          (569, 1053, 2800, F(307, 761), F(143, 349)), (1273, 2484, 6410, F(68682, 171139), F(307, 761)),
          (4, 103, 128, F(12, 31), F(68682, 171139)), (29, 173, 280, F(227, 601), F(12, 31))]
    for c, m, d, a, b in T1 + T2:
        add("huxley_area_1996", [lin(c, m, d)], a, b)
    add("huxley_exponential_2001", [(F(79, 120), F(7, 80)), (F(103, 160), F(3, 32)), (F(13, 40), F(9, 40))], F(2, 5), H)
    add("robert_fourth_2002", [(1 - F(4, 13), F(1, 13)), (F(28, 13), -F(7, 13))], 0, 1)
    add("sargos_analog_2003", [(1 - F(8, 204), F(1, 204)), (F(8 * 95, 204), -F(95, 204))], 0, 1)
    add("sargos_analog_2003", [(1 - F(63, 2640), F(7, 2640)), (F(9 * 1001, 2640), -F(1001, 2640))], 0, 1)
    add("huxley_exponential_2005", [lin(37, 59, 170), lin(63, 449, 690)], F(1, 3), H)
    add("robert_fourth_2016", [(1 - F(4, 12), F(1, 12)), (F(11, 12), 0)], 0, F(3, 7))
    for k in range(4, K):
        d = 2 * (k - 1) * (k - 2)
        # alpha >= -(1 - k alpha)(k-1)/(2k-3)
        top = F(k - 1, 2 * k - 3) / (F(k * (k - 1), 2 * k - 3) - 1)
        add("robert_2016", [(1 - F(k, d), F(1, d)), (1 - F(1, d), 0)], 0, top)
    for k in range(3, K):
        d = k * (k - 1)
        add("heathbrown_new_2017", [(1 - F(k, d), F(1, d)), (1 - F(1, d), 0), (1 - F(2, d) + F(2 * k, k * d), -F(2, k * d))], 0, 1)
    add("bourgain_decoupling_2017", [(F(1, 3), F(2, 9))], F(1, 3), F(5, 12))
    add("bourgain_decoupling_2017", [(F(2, 3), F(1, 12))], F(5, 12), F(3, 7))
    add("bourgain_decoupling_2017", [(H, F(13, 84))], F(3, 7), H)
    add("trudgian-yang", [lin(13, 359, 414)], 0, F(2848, 12173))
    add("trudgian-yang", [lin(13, 139, 194)], F(1328, 4447), F(104, 343))
    add("trudgian-yang", [(F(521, 796), F(18, 199))], F(1508, 3825), F(62831, 155153))
    return S


def beta_cases(tier):
    yield ["labels"]
    for lab in beta_spec():
        yield [lab]


def run_beta(case, ctx):
    lab = case[0]
    spec = beta_spec()
    got = recorded("Upper bound on beta")
    if lab == "labels":
        same_labels("Upper bound on beta", spec)
        ctx.outcome("labels")
        return
    hs = [h.data.bound for h in got.get(lab, [])]
    want = spec[lab]
    ends = {x for fs, a, b in want for x in (a, b)}
    funcs = {f for fs, a, b in want for f in fs}
    for b in hs:
        ends |= {F(b.domain.x0), F(b.domain.x1)}
        funcs.add((F(b.m), F(b.c)))
    funcs = sorted(funcs)
    if len(funcs) < 80:
        for i, (m, c) in enumerate(funcs):
            for n, d in funcs[:i]:
                if m != n:
                    ends.add((d - c) / (m - n))
    lo, hi = min(a for _, a, b in want) - 1, max(b for _, a, b in want) + 1
    ends = sorted({x for x in ends if lo < x < hi} | {lo, hi})
    for a, b in zip(ends, ends[1:]):
        for t in (F(1, 3), F(2, 3)):
            x = a + (b - a) * t
            w = min((max(m * x + c for m, c in fs) for fs, u, v in want if u <= x <= v), default=None)
            g = min((F(f.m) * x + F(f.c) for f in hs if f.domain.contains(x)), default=None)
            ctx.step()
            if w != g:
                raise Bad(f"{lab}: the recorded bound on beta({x}) is {g}, published {w}")
            if g is not None and g < x / 2 and x < 1:
                raise Bad(f"{lab}: beta({x}) <= {g} contradicts beta(alpha) >= alpha/2")
            ctx.state((lab, x, w))
    # every published piece is there on its own
    for fs, u, v in want:
        cut = [x for x in ends if u <= x <= v]
        for a, b in zip(cut, cut[1:]):
            x = (a + b) / 2
            f = max(fs, key=lambda q: q[0] * x + q[1])
            ctx.step()
            if not any((F(g.m), F(g.c)) == f and g.domain.contains(x) for g in hs):
                raise Bad(f"{lab}: the bound {f[0]} alpha + {f[1]} near {x} is not recorded")
    ctx.outcome(lab)


# ---------------------------------------------------------------- exponent pairs
def pair_spec():
    E = L.Constants.EXP_PAIR_TRUNCATION
    S = set()
    for k, lab in [(F(9, 56), "huxley_exponential_1988"), (F(89, 560), "watt_exponential_1989"), (F(17, 108), "huxley_exponential_1991"),
                   (F(89, 570), "huxley_exponential_1993"), (F(32, 205), "huxley_exponential_2005"), (F(13, 84), "bourgain_decoupling_2017")]:
        S.add((k, k + H, lab))
    S |= {(F(2, 13), F(35, 52), "huxley_watt_exponential_1990"), (F(6299, 43860), F(29507, 43860), "huxley_area_1996"),
          (F(771, 8116), F(1499, 2029), "sargos_points_1995"), (F(21, 232), F(173, 232), "sargos_points_1995"),
          (F(1959, 21656), F(16135, 21656), "sargos_points_1995"), (F(516247, 6629696), F(5080955, 6629696), "huxley_exponential_2001"),
          (F(4742, 38463), F(35731, 51284), "trudgian-yang"), (F(18, 199), F(593, 796), "trudgian-yang"),
          (F(2779, 38033), F(58699, 76066), "trudgian-yang"), (F(715, 10238), F(7955, 10238), "trudgian-yang")}
    for k, m, lab in [(F(1, 13), 3, "robert_fourth_2002"), (F(1, 204), 7, "sargos_analog_2003"), (F(1, 360), 8, "robert_2002"),
                      (F(7, 2640), 8, "sargos_analog_2003"), (F(1, 716), 9, "sargos_analog_2003"), (F(1, 649), 9, "Robert_Sargos_2001"),
                      (F(7, 4540), 9, "robert_2002"), (F(1, 615), 9, "robert_2002b"), (F(1, 915), 10, "robert_2002b")]:
        S.add((k, 1 - m * k, lab))
    for m in range(1, E):
        k = F(169, 1424 * 2 ** m - 338)
        S.add((k, 1 - k * F(712 * m + 1577, 712), "huxley_area_1996"))
    for m in range(3, E):
        S.add((F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2)), "heathbrown_new_2017"))
    return S


def mu_spec():
    E = L.Constants.EXP_PAIR_TRUNCATION
    S = set()
    for m, lab in [(F(1, 6), "hardy_littlewood_1923"), (F(193, 988), "walfisz_1924"), (F(27, 164), "titchmarsh_van_1931"),
                   (F(229, 1392), "phillips_zeta_1933"), (F(19, 116), "titchmarsh_order_1942"), (F(15, 92), "min_on_1949"),
                   (F(6, 37), "haneke_verscharfung_1963"), (F(173, 1067), "Kolesnik 1973"), (F(35, 216), "kolesnik_order_1982"),
                   (F(139, 858), "Kolesnik 1985"), (F(9, 56), "bombieri_order_1986"), (F(89, 560), "watt_exponential_1989"),
                   (F(17, 108), "huxley_exponential_1991"), (F(89, 570), "huxley_exponential_1993"), (F(32, 205), "huxley_exponential_2005"),
                   (F(13, 84), "bourgain_decoupling_2017")]:
        S.add((H, m, lab))
    S |= {(F(1934, 3655), F(6299, 43860), "huxley_area_1996"), (F(49, 51), F(1, 204), "sargos_analog_2003"),
          (F(361, 370), F(1, 370), "sargos_analog_2003"), (F(3, 5), F(1409, 12170), "Lelechenko_linear_2014"),
          (F(4, 5), F(3, 71), "Lelechenko_linear_2014"), (F(11, 15), F(1, 15), "demeter_small_2020")}
    for n in range(4, E):
        S.add((1 - F(n, 2 ** n - 2), F(1, 2 ** n - 2), "van der Corput 1920"))
        S.add((1 - F(1, 2 ** (n - 1)), F(1, (n + 1) * 2 ** (n - 1)), "Hardy--Littlewood Unknown date"))
    return S


def point_cases(tier):
    for kind, spec in (("Exponent pair", pair_spec()), ("Upper bound on mu", mu_spec())):
        yield [kind, None]
        for lab in sorted({p[2] for p in spec}):
            yield [kind, lab]


def run_points(case, ctx):
    kind, lab = case
    spec = pair_spec() if kind == "Exponent pair" else mu_spec()
    got = same_labels(kind, {p[2]: 1 for p in spec}) if lab is None else recorded(kind)
    if lab is None:
        ctx.outcome("labels")
        return
    want = sorted(p[:2] for p in spec if p[2] == lab)
    rec = sorted(M.pt(h) if kind == "Exponent pair" else (F(h.data.sigma), F(h.data.mu)) for h in got.get(lab, []))
    ctx.step(len(want))
    if sorted(set(rec)) != want:
        raise Bad(f"{lab}: recorded {[tuple(map(str, p)) for p in rec if p not in want]} instead of {[tuple(map(str, p)) for p in want if p not in rec]}")
    for a, b in rec:
        ctx.state((kind, a, b))
        if kind == "Exponent pair" and not (0 <= a <= H <= b <= 1 and a + b <= 1 and b >= a + H):
            raise Bad(f"{lab}: ({a}, {b}) is outside the triangle or below the line of symmetry")
        if kind != "Exponent pair" and b < max(F(0), H - a):
            raise Bad(f"{lab}: mu({a}) <= {b} is impossible")
    ctx.outcome(lab)


# ---------------------------------------------------------------- transforms
def transform_cases(tier):
    pts = sorted({p[:2] for p in pair_spec()})
    n = 8 if tier == "quick" else 20
    pts += [(F(i, 2 * n), H + F(j, 2 * n)) for i in range(n + 1) for j in range(n + 1) if i + j <= n]
    for k, l in pts:
        for w in "ABCD":
            yield [w, str(k), str(l)]


NAMES = {"A": "van der Corput A transform", "B": "van der Corput B transform", "C": "Sargos C transform", "D": "Sargos D transform"}


def run_transform(case, ctx):
    w, k, l = case[0], F(case[1]), F(case[2])
    found = [h for h in DB.list_hypotheses() if h.name == NAMES[w]]
    if len(found) != 1:
        raise Bad(f"{NAMES[w]} is recorded {len(found)} times")
    t = found[0]
    src = M.pair(k, l, 1900)
    out = t.data.transform(src)
    ctx.step()
    if M.pt(src) != (k, l) or src.dependencies:
        raise Bad(f"{w} changed its argument")
    year = {"A": 1920, "B": 1920, "C": 2003, "D": 1995}[w]
    if t.reference.year() != year:
        raise Bad(f"{NAMES[w]} is dated {t.reference.year()}")
    for h in (out if w == "D" else [out]):
        if set(h.dependencies) != {src, t} or h.reference.year() != year:
            raise Bad(f"{w}({k},{l}) = {h.desc()} rests on {h.dependencies} and is dated {h.reference.year()}")
    if w != "D":
        want = M.TRANS[w]((k, l))
        if M.pt(out) != want or out.hypothesis_type != "Exponent pair":
            raise Bad(f"{w}({k},{l}) = {M.pt(out)}, published {want}")
        a, b = want
        if not (0 <= a <= H <= b <= 1 and a + b <= 1):
            raise Bad(f"{w}({k},{l}) leaves the triangle")
        ctx.state(want)
    else:
        d = 8 * (5 * k + 3 * l + 2)
        k1, l1 = (5 * k + l + 2) / d, (29 * k + 21 * l + 10) / d
        f = [(l1 - k1, k1), (F(2, 3), F(1, 12))]
        xs = [F(0), H]
        if f[0][0] != F(2, 3):
            c = (F(1, 12) - k1) / (f[0][0] - F(2, 3))
            if 0 < c < H:
                xs.insert(1, c)
        for x in sorted(set(xs) | {(a + b) / 2 for a, b in zip(xs, xs[1:])} | {F(i, 14) for i in range(8)}):
            at = [h for h in out if h.data.bound.domain.contains(x)]
            ctx.step()
            vals = {F(h.data.bound.m) * x + F(h.data.bound.c) for h in at}
            if vals != {max(m * x + c for m, c in f)}:
                raise Bad(f"D({k},{l}) bounds beta({x}) by {sorted(vals)}, published {max(m * x + c for m, c in f)}")
        if any(h.data.bound.domain.x1 > H or h.data.bound.domain.x0 < 0 or h.hypothesis_type != "Upper bound on beta" for h in out):
            raise Bad(f"D({k},{l}) claims more than [0, 1/2]")
        ctx.state((k1, l1))
    ctx.outcome(w)


# ---------------------------------------------------------------- large value estimates
T = V.TOP


def bourgain():
    """the optimised theorem: rho <= rho0 on the stated part of the (sigma, tau) plane, nothing for tau <= 1"""
    rows = [
        ((F(16, 3), -F(20, 3), F(1, 3)), [(-1, 0, 1), (10, -14, 1), (4, 4, -5), (-11, 16, -1)]),
        ((5, -7, F(3, 4)), [(8, -8, -1), (-16, 20, F(1, 3)), (-6, 10, -F(7, 6)), (-4, -4, 5)]),
        ((3, -5, 1), [(-8, 8, 1), (2, -6, 2), (-10, 14, -F(2, 3)), (6, -2, -2)]),
        ((0, -4, 2), [(-6, 2, 2), (-12, 12, 1), (1, -1, 0)]),
        ((8, -12, F(4, 3)), [(15, -21, 1), (12, -12, -1), (-F(3, 2), 0, 1), (6, -10, F(7, 6))]),
        ((2, -2, 0), [(1, -1, 0), (-10, 14, -1), (-1, 0, 1), (-2, 6, -2)]),
        ((9, -12, F(2, 3)), [(F(3, 2), 0, -1), (-H, 1, 0), (-1, 0, 1), (11, -16, 1), (16, -20, -F(1, 3))]),
    ]

    def pred(p):
        s, t, r = p
        if t <= 1:
            return True
        caps = [V.aff(f, s, t) for f, dom in rows if all(V.aff(d, s, t) >= 0 for d in dom)]
        return not caps or r <= min(caps)
    planes = [tuple(f) + (-1,) for f, d in rows] + [tuple(x) + (0,) for f, d in rows for x in d]
    return V.poly(V.BOX) & V.Set3(pred, [tuple(F(x) for x in r) for r in planes])


def lv_spec():
    K = L.Constants.LARGE_VALUES_TRUNCATION
    S = {("Large value estimate", "Huxley"): [V.maxbound([(2, -2, 0), (4, -6, 1)])],
         ("Large value estimate", "heathbrown_zero_1979"): [V.maxbound([(2, -2, 0), (10, -13, 1)])],
         ("Large value estimate", "jutila_zero_density_1977"): [V.maxbound([(2, -2, 0), (4 - F(2, k), -6 + F(2, k), 1), (6 * k, -8 * k, 1)]) for k in range(1, K)],
         ("Large value estimate", "bourgain_large_2000"): [bourgain()],
         ("Large value estimate", "guth-maynard"): [V.maxbound([(2, -2, 0), (F(18, 5), -4, 0), (F(12, 5), -4, 1)])],
         ("Zeta large value estimate", "heathbrown_twelfth_1978"): [V.maxbound([(6, -12, 2)])]}
    return S


def rows_of(region):
    """constraint rows of every polytope a region is built from"""
    if hasattr(region, "get_constraints"):
        return [tuple(F(x) for x in c.coefficients) for c in region.get_constraints()]
    kids = region.child
    return [r for c in (kids if isinstance(kids, list) else [kids]) for r in rows_of(c)]


def normal(r):
    lead = next((x for x in r if x), 1)
    return tuple(x / abs(lead) for x in r)


def lv_cases(tier):
    yield ["labels", "", 0]
    for (kind, lab), specs in lv_spec().items():
        for i in range(len(specs)):
            yield [kind, lab, i]


def run_lv(case, ctx):
    kind, lab, i = case
    spec = lv_spec()
    if kind == "labels":
        for t in ("Large value estimate", "Zeta large value estimate"):
            same_labels(t, {l: 1 for k, l in spec if k == t})
        ctx.outcome("labels")
        return
    hs = recorded(kind).get(lab, [])
    specs = spec[(kind, lab)]
    if len(hs) != len(specs):
        raise Bad(f"{lab}: {len(hs)} estimates are recorded, {len(specs)} published")
    # the i-th published estimate agrees with some recorded one, exactly, on all faces
    first = None
    order = sorted(range(len(hs)), key=lambda j: (j - i) % len(hs))
    for j in order:
        reg = hs[j].data.region
        rows = sorted({normal(r) for r in rows_of(reg)} | {normal(r) for r in specs[i].rows})
        A = V.arrange([V.Set3(lambda p: True, rows)], M_=F(10) ** 9)
        # outside the conventional range of sigma, tau and rho nothing is said
        mask = sum(1 << n for n, p in enumerate(A.points) if A.full >> n & 1 and H < p[0] < 1 and p[1] < T and p[2] < T)
        try:
            V.compare(A, reg, specs[i], f"{hs[j].name}, published under {lab} as number {i + 1},", mask=mask, ctx=ctx)
            ctx.state((lab, i))
            ctx.outcome(lab)
            return
        except Bad as e:
            first = first or e
    raise first


# ---------------------------------------------------------------- energy regions: clauses of rows (1, sigma, tau, rho, rho*, s)
def energy_spec():
    z = F(0)
    HBs = [[(F(1), 1), (z, 2), (z, F(5, 4))], None]
    S = {}

    def add(lab, *clauses):
        S.setdefault(lab, []).append([[tuple(F(x) for x in r) for r in c] for c in clauses])
    late = lambda t: [(-F(t), 0, 1, 0, 0, 0)]        # or tau >= t: nothing is claimed
    # s <= max(rho + 1, 2 rho) + 1 for tau < 1
    add("ivic", [(2, 0, 0, 1, 0, -1), (1, 0, 0, 2, 0, -1)] + late(1))
    # s <= max(rho + 1, 2 rho, 5 rho/4 + tau/2) + 1
    add("heathbrown_large_1979", [(2, 0, 0, 1, 0, -1), (1, 0, 0, 2, 0, -1), (1, 0, H, F(5, 4), 0, -1)])
    # rho* <= 1 - 2 sigma + max(rho+1, 2rho, 5rho/4+tau/2)/2 + max(rho*+1, 4rho, 3rho*/4+rho+tau/2)/2
    first = [(1, 0, 1, 0), (0, 0, 2, 0), (0, H, F(5, 4), 0)]              # const, tau, rho, rho*
    second = [(1, 0, 0, 1), (0, 0, 4, 0), (0, H, 1, F(3, 4))]
    add("heathbrown_zero_1979", [(1 + F(a[0] + b[0]) / 2, -2, F(a[1] + b[1]) / 2, F(a[2] + b[2]) / 2, F(a[3] + b[3]) / 2 - 1, 0)
                                 for a in first for b in second])
    add("heathbrown_zero_1979", [(1, -2, 0, 3, -1, 0), (4, -4, 0, 1, -1, 0), (F(3, 2), -2, 0, F(5, 2), -1, 0)] + late(F(3, 2)))
    for k in range(1, 5):
        add("heathbrown_zero_1979", [(2, -2, 0, -1, 0, 0), (F(3 * k, 4), -k, F(1, 4), -1, F(1, 4), 0), (F(k, 2), -k, F(k, 4), -1, F(1, 4), 0)])
    # rho <= max(2 - 2 sigma, 1 - 2 sigma + max(S1, S2, S3)/3), each S: const, tau, rho, rho*
    for k in range(1, 4):
        c1 = [(-10, 0, 0, 0)]
        c2 = [(2, 0, 2, 0), (1, 1, 2 - F(1, k), 0), (2, F(1, 2 * k), 2 - F(3, 4 * k), 0)]
        row = lambda s: (1 + F(s[0]) / 3, -2, F(s[1]) / 3, F(s[2]) / 3 - 1, F(s[3]) / 3, 0)
        base = [(2, -2, 0, -1, 0, 0)] + [row(s) for s in c1 + c2]
        add("guth-maynard", base + [row((0, 2, H, H))], base + [row((0, 2, F(3, 2), 0)), row((1, 1, H, H))])
    add("guth-maynard", [(1, -2, 0, 3, -1, 0), (2, -2, 0, 2, -1, 0)] + late(F(3, 2)))
    add("guth-maynard", [(4, -4, 0, 1, -1, 0), (1, -2, F(1, 4), F(21, 8), -1, 0), (1, -2, 0, 3, -1, 0)] + late(F(4, 3)) + [(1, 0, -1, 0, 0, 0)])
    return S


def energy_cases(tier):
    yield ["labels", 0, 0]
    for lab, specs in energy_spec().items():
        for i in range(len(specs)):
            yield [lab, i, 0 if tier == "quick" else 1]


def run_energy(case, ctx):
    lab, i, deep = case
    spec = energy_spec()
    kind = "Large value energy region"
    if lab == "labels":
        same_labels(kind, spec)
        ctx.outcome("labels")
        return
    hs = recorded(kind).get(lab, [])
    specs = spec[lab]
    if len(hs) != len(specs):
        raise Bad(f"{lab}: {len(hs)} energy regions are recorded, {len(specs)} published")
    ss = [F(11, 20), F(13, 20), F(37, 50), F(41, 50), F(23, 25)] if not deep else [F(51, 100) + F(i, 21) for i in range(9)] + [F(60, 61)]
    ts = [F(2, 5), F(9, 10), F(6, 5), F(13, 9), F(7, 4), F(3)] if not deep else [F(1, 5), F(3, 5), F(19, 20), F(21, 20), F(5, 4), F(7, 5), F(31, 20), F(2), F(7, 3), F(5), F(40)]
    clauses = [[r] for r in BOX5] + specs[i]
    first = None
    for j in sorted(range(len(hs)), key=lambda j: (j - i) % len(hs)):
        reg = hs[j].data.region
        rec = sorted({normal(r) for r in rows_of(reg)})
        try:
            for s, t in product(ss, ts):
                fib = fiber(clauses, s, t)
                own = [[r] for r in fiber([rec], s, t)[0]]
                A = cells(distinct(fib + own), 10 ** 7)
                for p in A:
                    w = sat(fib, p)
                    if w is None:
                        continue
                    ctx.step()
                    if bool(reg.contains([s, t] + list(p))) != w:
                        raise Bad(f"{hs[j].name}, published under {lab} as number {i + 1}, {'lacks' if w else 'contains'} "
                                  f"(sigma, tau, rho, rho*, s) = {[str(x) for x in [s, t] + list(p)]}")
            ctx.state((lab, i))
            ctx.outcome(lab)
            return
        except Bad as e:
            first = first or e
    raise first


# ---------------------------------------------------------------- zero density estimates: function of sigma on [a, b)
def zd_spec():
    S = {}

    def add(lab, f, a, b):
        S.setdefault(lab, []).append((f, F(a), F(b)))
    root = lambda c: lambda x: c * float(1 - x) ** 0.5
    add("carlson_uber_1921", lambda x: 4 * x, H, 1)
    add("ingham_estimation_1940", lambda x: 3 / (2 - x), H, 1)
    add("Montgomery 1971", root(1600), H, 1)
    add("Huxley", lambda x: 3 / (3 * x - 1), H, 1)
    add("huxley_large_1973", lambda x: 39 / (115 * x - 75), F(55, 67), F(189, 230))
    add("huxley_large_1973", lambda x: F(2), F(189, 230), F(75, 89))
    add("huxley_large_1973", lambda x: 48 / (37 * (2 * x - 1)), F(61, 74), F(75, 89))
    add("huxley_large_1975a", lambda x: 3 / (2 * x), F(37, 42), 1)
    add("huxley_large_1975a", lambda x: 48 / (37 * (2 * x - 1)), F(61, 74), F(37, 42))
    add("huxley_large_1975a", lambda x: F(2), F("0.80119"), 1)
    add("huxley_large_1975b", lambda x: F(2), F(4, 5), 1)
    add("heathbrown_zero_1979", lambda x: 4 / (4 * x - 1), F(25, 28), 1)
    add("heathbrown_zero_1979", lambda x: 3 / (10 * x - 7), F(3, 4), F(25, 28))
    add("heathbrown_zero_1979", lambda x: 9 / (7 * x - 1), F(11, 14), 1)
    n = "ivic_note_1979"
    add(n, lambda x: 6 / (5 * x - 1), F(67, 87), 1)
    add(n, lambda x: 3 / (34 * x - 25), F(28, 37), F(74, 95))
    add(n, lambda x: 9 / (7 * x - 1), F(74, 95), 1)
    add(n, lambda x: 3 / (2 * x), F(4, 5), 1)
    add(n, lambda x: 68 / (98 * x - 47), F(115, 166), 1)
    n = "Ivic 1980"
    add(n, lambda x: 3 / (2 * x), F(3831, 4791), 1)
    add(n, lambda x: F(2), F(11, 14), 1)
    add(n, lambda x: 9 / (7 * x - 1), F(41, 53), 1)
    add(n, lambda x: 6 / (5 * x - 1), F(13, 17), 1)
    add(n, lambda x: 4 / (2 * x + 1), F(17, 18), 1)
    add(n, lambda x: 24 / (30 * x - 11), F(155, 174), F(17, 18))
    add("jutila_zeroes_1983", lambda x: (F(3, 2) - x) / (1 - x), F(155, 174), 1)
    add("ivic_zero_1984", lambda x: 3 / (7 * x - 4), F(3, 4), F(10, 13))
    add("ivic_zero_1984", lambda x: 9 / (8 * x - 2), F(10, 13), 1)
    add("Ivic 1984", lambda x: 15 / (22 * x - 10), F(10, 13), F(5, 6))
    starts = {3: F(41, 53), 4: F(13, 17), 5: F(127, 167), 6: F(47, 62)}
    for m in range(3, 100):
        a = starts.get(m) or F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2)
        add("ivic", lambda x, m=m: 3 * m / ((3 * m - 2) * x + 2 - m), a, 1)
    add("conrey_at_1989", lambda x: (1 + (1 - 2 * x) * F(4, 7)) / (1 - x), H, 1)
    add("bourgain_remarks_1995", lambda x: 4 / (30 * x - 25), F(15, 16), 1)
    add("bourgain_remarks_1995", lambda x: 2 / (7 * x - 5), F(17, 19), F(15, 16))
    add("bourgain_large_2000", lambda x: F(2), F(25, 32), 1)
    add("FordZeta", root(58.05), H, 1)
    add("Bourgain 2002", lambda x: 3 / (2 * x), F(3734, 4694), 1)
    add("heathbrown_new_2017", root(6.42), F(9, 10), 1)
    n = "pintz_density_2023"

    # max(3/(l(1-2(l-1)eta)), 4/(k(1-(k-1)eta))) for 1/(k(k+1)) <= eta < 1/(k(k-1)), 1/(2l(l+1)) <= eta < 1/(2l(l-1))
    def pintz(x):
        eta = 1 - x
        k = next(k for k in range(2, 10 ** 6) if k * (k + 1) * eta >= 1)
        l = next(l for l in range(2, 10 ** 6) if 2 * l * (l + 1) * eta >= 1)
        return max(F(3) / (l * (1 - 2 * (l - 1) * eta)), F(4) / (k * (1 - (k - 1) * eta)))
    add(n, pintz, F(23, 24), None or F("0.9989"))
    add("chen_debruyne_vindas_density_2024", lambda x: 24 / (30 * x - 11), F(279, 314), F(17, 18))
    add("guth-maynard", lambda x: 15 / (3 + 5 * x), H, 1)
    return S


def zde_spec():
    lab = "heath_brown_consecutive_II"
    return {lab: [(lambda x: (10 - 11 * x) / ((2 - x) * (1 - x)), H, F(2, 3)),
                  (lambda x: (18 - 19 * x) / ((4 - 2 * x) * (1 - x)), F(2, 3), F(3, 4)),
                  (lambda x: 12 / (4 * x - 1), F(3, 4), F(1))]}


KINDS = {"zd": ("Zero density estimate", zd_spec), "ze": ("Zero density energy estimate", zde_spec)}


def zd_cases(tier):
    for kind in KINDS:
        yield [kind, "labels"]
        for lab in KINDS[kind][1]():
            yield [kind, lab]


def run_zd(case, ctx):
    kind, lab = case
    name, specf = KINDS[kind]
    spec = specf()
    if lab == "labels":
        same_labels(name, spec)
        ctx.outcome("labels")
        return
    hs = [h.data for h in recorded(name).get(lab, [])]
    want = spec[lab]
    ends = {x for _, a, b in want for x in (a, b)} | {F(x) for d in hs for x in (d.interval.x0, d.interval.x1)} | {F(2, 5), F(11, 10)}
    top = F("0.9989") if lab.startswith("pintz") else F(11, 10)
    if lab.startswith("pintz"):
        ends |= {1 - F(1, 2 * l * (l + 1)) for l in range(3, 40)} | {1 - F(1, k * (k + 1)) for k in range(3, 60)} | {top}
    ends = sorted(x for x in ends if x <= top)
    for a, b in zip(ends, ends[1:]):
        for t in (F(1, 7), F(2, 5), F(1, 2), F(5, 7), F(10, 11)):
            x = a + (b - a) * t
            w = min((f(x) for f, u, v in want if u <= x < v), default=None)
            g = None
            for d in hs:
                if F(d.interval.x0) <= x < F(d.interval.x1):
                    v = d.at(x)
                    v = exact(v) if exact(v) is not None else float(v)
                    g = v if g is None else min(g, v)
            ctx.step()
            if (w is None) != (g is None) or (w is not None and w != g and not abs(float(w) - float(g)) <= 1e-9 * abs(float(w))):
                raise Bad(f"{lab}: the recorded value at {x} is {g}, published {w}")
            if isinstance(w, F) and isinstance(g, F) and w != g:
                raise Bad(f"{lab}: the recorded value at {x} is {g}, published {w}")
        ctx.state((lab, a, b))
    ctx.outcome(lab)


def year_cases(tier):
    for k in ("Exponent pair", "Upper bound on mu", "Upper bound on beta", "Zero density estimate", "Large value estimate", "Zero density energy estimate",
              "Large value energy region", "Zeta large value estimate"):
        for y in range(1918, 2027, 4 if tier == "quick" else 1):
            yield [k, y]


def run_year(case, ctx):
    """what was known up to a year"""
    kind, y = case
    got = DB.list_hypotheses(kind, y)
    want = [h for h in DB.list_hypotheses() if h.hypothesis_type == kind and isinstance(h.reference.year(), int) and h.reference.year() <= y]
    unknown = [h for h in DB.list_hypotheses() if h.hypothesis_type == kind and not isinstance(h.reference.year(), int)]
    ctx.step(len(want))
    if not {id(h) for h in want} <= {id(h) for h in got} or not {id(h) for h in got} <= {id(h) for h in want + unknown}:
        raise Bad(f"{kind} up to {y}: {len(got)} listed, {len(want)} recorded")
    from hypotheses import Hypothesis_Set
    fill = {"Exponent pair": ("add_exp_pairs_up_to", "add_exp_pairs_all"), "Upper bound on mu": ("add_bounds_mu_as_of", "add_bounds_mu_all")}.get(kind)
    if fill:
        every = {id(h) for h in DB.list_hypotheses() if h.hypothesis_type == kind}
        triv = [L.trivial_exp_pair] if kind == "Exponent pair" else []
        for name, arg, lot in ((fill[0], (y,), {id(h) for h in got}), (fill[1], (), every)):
            hs = Hypothesis_Set()
            getattr(L, name)(hs, *arg)
            have = {id(h) for h in hs}
            if have != lot | {id(h) for h in triv}:
                raise Bad(f"{name}{arg} fills a set with {len(have)} hypotheses, {len(lot)} are recorded")
            if any(h.reference.label == "Conjectured" for h in hs):
                raise Bad(f"{name} adds a conjecture")
    ctx.state((kind, len(got)))
    ctx.outcome(kind)


def groups(tier):
    return [Group("beta", beta_cases, run_beta), Group("points", point_cases, run_points), Group("transforms", transform_cases, run_transform),
            Group("large values", lv_cases, run_lv), Group("energy regions", energy_cases, run_energy, timeout=600),
            Group("zero densities", zd_cases, run_zd), Group("years", year_cases, run_year)]
