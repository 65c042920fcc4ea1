"""V01: the plots and tables show the set, function or bound they are asked to show."""
import ast
import contextlib
import io
import math
import sys
import types
import warnings
from fractions import Fraction as F
from itertools import combinations, product
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from mc.core import Group, Bad
from mc.geom import val, vertices
from mc.polys import build
from mc.regs import make, spec_contains
from mc.ratf import R
from mc import hyps as M, derive as V
from checks import f05
from polytope import Polytope
from functions import Affine, Affine2, Interval, Piecewise
import bound_beta as bb
import zero_density_estimate as zd
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference

ID = "V01"
COVERAGE = (
    "what is drawn on the figure: every polygon cut out of a square by up to two of 12 lines at several resolutions, every region tree of depth two over four "
    "sets in several windows, the domains of every pair of affine pieces over six partitions, every list of up to three bounds on beta, every set of up to two (three) zero density "
    "estimates with a pole, gaps and equal bounds (computed and literature curves, and the same result as without plotting), one derivation with plotting, and every curve of "
    "visualizations.py; each drawn point against exact evaluation, each grid point inside the set against the points drawn.  state = distinct figure, transition = one "
    "point compared, trace = one plot"
)
ASSUMPTIONS = ["grid points within 1e-9 of a boundary which are not exactly representable are not compared",
               "the decimal end points 0.7255 and 0.758233 ... in zero_density_energy_plot are rounded: the curve may be better than the published bounds by 0.002 there"]
H = F(1, 2)
EPS = 1e-9


@contextlib.contextmanager
def drawing():
    plt.close("all")
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        yield out


def lines():
    return [(l.get_label(), [float(x) for x in l.get_xdata()], [math.nan if y is None else float(y) for y in l.get_ydata()])
            for n in plt.get_fignums() for a in plt.figure(n).axes for l in a.lines]


def load(name):
    """a script of the library, without the calls it makes when it is imported"""
    if name not in _mods:
        src = f"/repo/blueprint/src/python/{name}.py"
        tree = ast.parse(open(src, encoding="utf-8").read())
        tree.body = [n for n in tree.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
        if "derived" not in sys.modules:
            m = types.ModuleType("derived")
            m.__dict__.update({k: v for k, v in V.derived().items() if k not in ("__name__", "__builtins__")})
            sys.modules["derived"] = m
        env = {"__name__": name, "__file__": src}
        with contextlib.redirect_stdout(io.StringIO()):
            exec(compile(tree, src, "exec"), env)
        _mods[name] = env
    return _mods[name]


_mods = {}


def grid_check(got, xs, ys, inside, what, ctx):
    """got: (xs, ys) drawn; xs, ys: the exact grid; inside(x, y) -> True/False/None (not decided)"""
    where = {}
    fx, fy = [float(x) for x in xs], [float(y) for y in ys]
    for u, v in zip(*got):
        i = min(range(len(fx)), key=lambda k: abs(fx[k] - u))
        j = min(range(len(fy)), key=lambda k: abs(fy[k] - v))
        if abs(fx[i] - u) > EPS or abs(fy[j] - v) > EPS:
            raise Bad(f"{what}: ({u}, {v}) is drawn, which is not on the grid")
        where[fx[i], fy[j]] = True
    for x in xs:
        for y in ys:
            w = inside(x, y)
            if w is not None and ((float(x), float(y)) in where) != w:
                raise Bad(f"{what}: ({x}, {y}) is {'not drawn, but belongs' if w else 'drawn, but does not belong'} to the set")
            ctx.step()
    return len(where)


def decided(rows, x, y):
    for r in rows:
        s = val(r, (x, y))
        if abs(s) < F(1, 10 ** 9) and not (s == 0 and F(float(x)) == x and F(float(y)) == y):
            return False
    return True


def steps(a, b, n):
    return [a + (b - a) * F(k, n - 1) for k in range(n)]


# ------------------------------------------------------------------------ polytopes
SQ = [(0, 1, 0), (4, -1, 0), (0, 0, 1), (4, 0, -1)]
CUT = [(0, 1, -1), (0, -1, 1), (-4, 1, 1), (6, -1, -1), (-1, 1, 0), (3, 0, -1), (2, 1, -2), (-2, 2, -1), (1, 0, -3), (5, 1, -2), (-1, 0, 3), (2, -3, 1)]


def poly_cases(tier):
    for k in range(3):
        for c in combinations(range(len(CUT)), k):
            for n in ((5, 8) if tier == "quick" else (2, 5, 8, 17, 33)):
                yield [list(c), n]


def run_poly(case, ctx):
    c, n = case
    rows = SQ + [CUT[i] for i in c]
    vs = vertices(rows, [], 2)
    if len(vs) < 3:
        ctx.outcome("too small")
        return
    p = Polytope([[F(x) for x in r] for r in rows])
    before = sorted(map(str, rows))
    with drawing():
        p.plot(resolution=n)
    ls = lines()
    if len(ls) != 1:
        raise Bad(f"{len(ls)} curves drawn for one polytope")
    lo = [min(v[i] for v in vs) for i in (0, 1)]
    hi = [max(v[i] for v in vs) for i in (0, 1)]
    k = grid_check(ls[0][1:], steps(lo[0], hi[0], n), steps(lo[1], hi[1], n),
                   lambda x, y: all(val(r, (x, y)) >= 0 for r in rows) if decided(rows, x, y) else None, f"plot of {rows}", ctx)
    ctx.state((tuple(c), n))
    ctx.outcome((n, k > 2))


# ------------------------------------------------------------------------ regions
LEAVES = [(SQ, []), ([(-1, 1, 0), (3, -1, 0), (-1, 0, 1), (3, 0, -1)], []), ([(0, 1, -1)], []), ([(-2, 1, 0), (2, -1, 0)], [])]
WIN = [((0, 4), (0, 4), 5), ((-1, 5), (-2, 6), 9), ((1, 2), (0, 4), 6)]


def trees():
    P = [["P", i] for i in range(len(LEAVES))]
    yield from P
    for p in P:
        yield ["C", p]
    for op in "IUD":
        for p, q in product(P, repeat=2):
            if op != "D":
                yield [op, p, q]
    for op, op2 in product("IU", repeat=2):
        for a, b, c in product(range(4), repeat=3):
            if a < b:
                yield [op, ["C", P[a]], [op2, P[b], P[c]]]
    yield ["D", ["I", P[1], P[2]], ["I", P[3], ["C", P[1]]]]
    yield ["D", P[3], ["I", P[1], ["C", P[3]]]]


def region_cases(tier):
    T = list(trees())
    for k, t in enumerate(T):
        for w in range(3):
            if tier == "thorough" or k < 44 or (k + w) % 3 == 0:
                yield [t, w]


def run_region(case, ctx):
    t, w = case
    xl, yl, n = WIN[w]
    r = make(t, [([tuple(x) for x in a], [tuple(x) for x in b]) for a, b in LEAVES])
    with drawing():
        r.plot2d(xl, yl, resolution=n)
    ls = lines()
    if len(ls) != 1:
        raise Bad(f"{len(ls)} curves drawn for one region")
    allrows = [x for a, b in LEAVES for x in a + b]
    k = grid_check(ls[0][1:], steps(F(xl[0]), F(xl[1]), n), steps(F(yl[0]), F(yl[1]), n),
                   lambda x, y: spec_contains(t, LEAVES, (x, y)) if decided(allrows, x, y) else None, f"plot of {t}", ctx)
    ctx.state((str(t), w))
    ctx.outcome(k > 0)


# ------------------------------------------------------------------------ piecewise functions
def pw_cases(tier):
    S = list(f05.specs(tier))
    for s in S:
        yield [s, 0]
        if tier == "thorough":
            yield [s, 1]


PWIN = [((0, 3), (0, 2), 12), ((F(-1, 2), F(5, 2)), (F(1, 4), F(9, 4)), 16)]


def label_value(label, x, y):
    import sympy
    t = label.replace("x", "*x").replace("y", "*y").replace(" *", " 1*")
    return F(str(sympy.sympify(t, rational=True).subs({"x": sympy.Rational(x.numerator, x.denominator), "y": sympy.Rational(y.numerator, y.denominator)})))


def run_pw(case, ctx):
    spec, w = case
    f = f05.pw(spec, None)
    (x0, x1), (y0, y1), n = PWIN[w]
    with drawing():
        f.plot_domain((x0, x1), (y0, y1), resolution=n, title="T", xlabel="X", ylabel="Y")
    fig = plt.gcf().axes[0]
    if (fig.get_title(), fig.get_xlabel(), fig.get_ylabel()) != ("T", "X", "Y"):
        raise Bad("the title or the axes are not the ones given")
    part, fs = spec
    rows = f05.PARTS[part]
    want = {}
    for r, k in zip(rows, fs):
        want.setdefault(tuple(f05.FUN[k]), []).append(r)
    xs = [F(x0) + F(x1 - x0) * F(i, n) for i in range(n)]
    ys = [F(y0) + F(y1 - y0) * F(i, n) for i in range(n)]
    seen = set()
    for label, u, v in lines():
        vals = tuple(label_value(label, *p) for p in ((F(0), F(0)), (F(1), F(0)), (F(0), F(1))))
        a = (vals[0], vals[1] - vals[0], vals[2] - vals[0])
        if a not in want or a in seen:
            raise Bad(f"a series is labelled {label}, which is not a piece (or drawn twice)")
        seen.add(a)
        grid_check((u, v), xs, ys, lambda x, y: None if not all(decided(r, x, y) for r in want[a]) else any(all(val(q, (x, y)) >= 0 for q in r) for r in want[a]),
                   f"domain of {label}", ctx)
    for a, rs in want.items():
        if a not in seen and any(all(val(q, (x, y)) > 0 for q in r) for r in rs for x in xs for y in ys):
            raise Bad(f"the domain of {a} is not drawn")
    # check(): one value everywhere on the window, or not
    for other in (None, [0, [0]], [4, [1]]):
        g = f if other is None else Piecewise(f.pieces + f05.pw(other, None).pieces)
        allr = rows + ([] if other is None else f05.PARTS[other[0]])
        overlap = any(vertices2(a + b) for a, b in combinations(allr, 2))
        holes = any(not any(all(val(q, p) >= 0 for q in r) for r in allr) for p in product((F(1, 50), F(53, 50), F(97, 50)), repeat=2))
        with drawing():
            ok = g.check((F(0), F(2)), (F(0), F(2)))
        ctx.step()
        if ok != (not overlap and not holes):
            raise Bad(f"check answers {ok}: the pieces {'overlap' if overlap else 'do not overlap'} and {'leave holes' if holes else 'cover the window'}")
    ctx.state((part, tuple(fs), w))
    ctx.outcome(len(seen))


def vertices2(rows):
    vs = vertices(rows, [], 2)
    if len(vs) < 3:
        return False
    c = [sum(v[i] for v in vs) / len(vs) for i in (0, 1)]
    return all(val(r, c) > 0 for r in rows)


# ------------------------------------------------------------------------ bounds on beta
BETA = [(F(1, 2), F(0), F(0), H), (F(1), F(-1, 6), F(1, 3), H), (F(0), F(1, 4), F(1, 4), F(1, 4)), (F(2, 3), F(1, 40), F(0), F(1, 7)), (F(-1), F(1), F(2, 5), H), (F(0), F(0), F(0), F(1, 9))]


def beta_cases(tier):
    for k in range(1, 4 if tier == "quick" else 5):
        for c in combinations(range(len(BETA)), k):
            yield list(c)
            yield list(c)[::-1]


def run_beta(case, ctx):
    hs = []
    for i in case:
        m, c, a, b = BETA[i]
        hs.append(Hypothesis(f"name{i}", "Upper bound on beta", bb.Bound_beta(Affine(m, c, Interval(a, b, True, i % 2 == 0))), "", Reference.make(f"A{i}", 1950 + i)))
    with drawing() as out:
        bb.display_beta_bounds(hs)
    ls = lines()
    if len(ls) != len(case):
        raise Bad(f"{len(ls)} curves drawn for {len(case)} bounds")
    left = [tuple(BETA[i]) for i in case]
    for _, xs, ys in ls:
        m = [q for q in left if sorted({round(x, 9) for x in xs}) == sorted({round(float(q[2]), 9), round(float(q[3]), 9)})
             and all(abs(float(q[0]) * x + float(q[1]) - y) < EPS for x, y in zip(xs, ys))]
        if not m:
            raise Bad(f"the curve {xs} -> {ys} is none of the bounds")
        left.remove(m[0])
        ctx.step()
    text = out.getvalue()
    for i in case:
        if not any(f"name{i}" in l and str(hs[case.index(i)].data.bound) in l for l in text.split("\n")):
            raise Bad(f"bound {i} is not listed: {text}")
    ctx.state(tuple(case))
    ctx.outcome(len(case))


# ------------------------------------------------------------------------ zero density estimates
ZD = [(R([3], [-1, 2]), H, F(1)), (R([3], [3, -1]), F(3, 4), F(1)), (R([2], [1, 0]), F(11, 14), F(1)), (R([3], [10, -7]), F(7, 10), F(1)), (R([F(12, 5)]), H, F(1)),
      (R([1], [10, F(-9, 2)]), F(1, 2), F(9, 10)), (R([9], [7, -1]), F(11, 14), F(13, 14)), (R([3], [-1, 2]), F(3, 5), F(4, 5)), (R([2]), F(9, 10), F(19, 20))]


def est(i):
    r, a, b = ZD[i]
    h = Hypothesis(f"name{i}", "Zero density estimate", zd.Zero_Density_Estimate(r.expr(), Interval(a, b)), "", Reference.make(f"A{i}", 1950 + i))
    h.__dict__["_mc_rank"] = i
    return h


def at(i, x):
    r, a, b = ZD[i]
    return r.at(x) if a <= x < b else None


def zd_cases(tier):
    for k in range(0, 3 if tier == "quick" else 4):
        for c in combinations(range(len(ZD)), k):
            if 3 in c and not {0, 4} & set(c):
                continue  # unbounded at 7/10
            yield ["best", list(c), []]
    for k, (c, l) in enumerate(product(range(len(ZD)), combinations(range(1, len(ZD)), 2))):
        if (tier == "thorough" or k % 6 == 0) and 3 not in (c, (c + 4) % len(ZD), *l):
            yield ["examples", [c, (c + 4) % len(ZD)], [0] + list(l)]


def run_zd(case, ctx):
    kind, c, l = case
    hs = [est(i) for i in c]
    if kind == "best":
        M.rank(hs)
        S = Hypothesis_Set()
        S.add_hypotheses(hs)
        plain = zd.best_zero_density_estimate(S)
        with drawing() as out:
            best = zd.best_zero_density_estimate(S, verbose=True)
        if [(str(b.data), b.name, str(b.reference)) for b in best] != [(str(b.data), b.name, str(b.reference)) for b in plain]:
            raise Bad("the result depends on whether it is displayed")
        for b in best:
            if b.data.interval.x0 < F(9, 10) and str(b.data) not in out.getvalue():
                raise Bad(f"{b.data} is not listed")
        lit = c
        none = 10 ** 6
        want = lambda x: min([v for v in (at(i, x) for i in c) if v is not None], default=F(10 ** 6))
    else:
        ex = load("examples")
        with drawing() as out:
            ex["plot"](hs, [est(i) for i in l], "a title")
        if plt.gcf().axes[0].get_title() != "a title":
            raise Bad("the title is not shown")
        lit = l
        want = lambda x: next((at(i, x) for i in c if ZD[i][1] <= x < ZD[i][2]), F(0))
    ls = {n: (xs, ys) for n, xs, ys in lines()}
    if len(ls) != 2:
        raise Bad(f"{len(ls)} curves drawn")
    comp = next((v for n, v in ls.items() if "omputed" in n), None)
    lits = next((v for n, v in ls.items() if "iterature" in n), None)
    if comp is None or lits is None:
        raise Bad(f"the curves are labelled {list(ls)}")
    grid = [H + H * F(k, 500) for k in range(500)]
    key = []
    for xs, ys, f, what in [(*comp, want, "computed"), (*lits, lambda x: min([v for v in (at(i, x) for i in lit) if v is not None], default=F(10 ** 6)), "literature")]:
        if len(xs) != 500 or any(abs(x - float(g)) > EPS for x, g in zip(xs, grid)):
            raise Bad(f"the {what} curve is not drawn on the whole of [1/2, 1]")
        for x, y in zip(grid, ys):
            # not next to a pole, an end point or (for the computed curve) a change of piece
            if any(abs(float(x - e)) < 1e-6 for i in range(len(ZD)) for e in ZD[i][1:]) or abs(float(x - F(7, 10))) < 1e-6 or abs(float(x - F(4, 5))) < 1e-6:
                continue
            w = f(x)
            ctx.step()
            if w is None:
                continue
            if abs(y - float(w)) > 1e-7 * max(1.0, abs(float(w))):
                raise Bad(f"the {what} curve is {y} at {x}, expected {w}")
        key.append(tuple(round(y, 6) for y in ys[::25]))
    ctx.state((kind, tuple(key)))
    ctx.outcome((kind, len(c)))


def der_cases(tier):
    yield ["prove_zero_density", 1]
    if tier == "thorough":
        yield ["prove_zero_density", 2]


def run_der(case, ctx):
    fn, method = case
    V.ordered("recorded")
    iv = Interval(H, F(3, 4))
    kw = {} if method == 1 else {"tau0": Affine(-1, 2, iv), "method": 2}
    with drawing():
        hs = V.derived()[fn]([], False, iv, "Ingham", plot=True, **kw)
    ls = lines()
    if len(ls) != 1:
        raise Bad(f"{len(ls)} curves drawn")
    if "Ingham" not in plt.gcf().axes[0].get_title():
        raise Bad("the name is not shown")
    n = 0
    for x, y in zip(*ls[0][1:]):
        if abs(x - 0.75) < 1e-6:
            continue
        if (x > 0.75) != math.isnan(y) or (x < 0.75 and abs(y - 3 / (2 - x)) > EPS):
            raise Bad(f"the curve is {y} at {x}")
        ctx.step()
        n += x < 0.75
    if n < 10:
        raise Bad("the curve does not cover the range")
    if not hs:
        raise Bad("nothing returned")
    ctx.state(tuple(case))
    ctx.outcome(n > 0)


# ------------------------------------------------------------------------ visualizations.py
def vdc(k, a):
    return max(a + (1 - k * a) / (2 ** k - 2), (1 - F(4, 2 ** k)) * a - (1 - k * a) / (2 ** k - 2))


def opt(a):
    return min([F(1)] + [vdc(k, a) for k in range(2, 30)])


def conj(a):
    return a / 2 if a <= 1 else a - 1


def vis_cases(tier):
    for k in ("zero_density_plot", "zero_density_energy_plot", "beta_bound_plot", "van_der_corput_plot", "van_der_corput_plot2", "exp_pair_plot"):
        yield [k]
    for k in range(2, 41):
        yield ["vdc", k]
    yield ["opt"]


def curve(label, xs, ys, f, ctx, tol=1e-9):
    for x, y in zip(xs, ys):
        w = f(x)
        ctx.step()
        if w is not None and abs(y - float(w)) > tol * max(1.0, abs(float(w))):
            raise Bad(f"{label}: {y} is drawn at {x}, expected {float(w)}")


def by_label(*words):
    for n, xs, ys in lines():
        if all(w in n for w in words):
            return n, xs, ys
    raise Bad(f"no curve {words} among {[n for n, _, _ in lines()]}")


def spans(xs, a, b, what):
    if abs(min(xs) - a) > 0.01 or abs(max(xs) - b) > 0.01 or len(xs) < 100 or max(y - x for x, y in zip(xs, xs[1:])) > (b - a) / 50:
        raise Bad(f"{what} is not drawn on the whole of [{a}, {b}]")


def run_vis(case, ctx):
    m = load("visualizations")
    k = case[0]
    if k == "vdc":
        for j in range(0, 121):
            a = F(j, 60)
            if abs(m["van_der_corput"](case[1], float(a)) - float(vdc(case[1], a))) > 1e-12:
                raise Bad(f"the k = {case[1]} van der Corput bound at {a} is {m['van_der_corput'](case[1], float(a))}")
            ctx.step()
    elif k == "opt":
        for j in range(0, 1201):
            a = F(j, 600)
            for f, w in ((m["optimized_van_der_corput"], opt), (m["conjectured_bound"], conj)):
                if abs(f(float(a)) - float(w(a))) > 1e-12:
                    raise Bad(f"the bound at {a} is {f(float(a))}, expected {w(a)}")
                ctx.step()
    else:
        with drawing():
            m[k]()
        VIS[k](ctx)
    ctx.state(tuple(case))
    ctx.outcome(k)


def vis_vdc(ctx):
    for k in (2, 3, 4, 5):
        n, xs, ys = by_label(f"k={k}")
        curve(n, xs, ys, lambda x: vdc(k, F(x)), ctx)
        spans(xs, 0, 1, n)
    n, xs, ys = by_label("ptimized")
    curve(n, xs, ys, lambda x: opt(F(x)), ctx)
    spans(xs, 0, 1, n)
    n, xs, ys = by_label("onjecture")
    curve(n, xs, ys, lambda x: conj(F(x)), ctx)


def vis_vdc2(ctx):
    n, xs, ys = by_label("ptimized")
    curve(n, xs, ys, lambda x: opt(F(x)), ctx)
    spans(xs, 0, 2, n)
    n, xs, ys = by_label("onjecture")
    curve(n, xs, ys, lambda x: conj(F(x)), ctx)
    n, xs, ys = by_label("rivial")
    curve(n, xs, ys, lambda x: x, ctx)


def vis_beta(ctx):
    DB = V.derived()["literature"]
    known = [h.data.bound for h in DB.list_hypotheses(hypothesis_type="Upper bound on beta")]
    n, xs, ys = by_label("omputed")
    ks = [(float(b.m), float(b.c), float(b.domain.x0), float(b.domain.x1)) for b in known]
    spans(xs, 0, 0.5, n)
    for x, y in zip(xs, ys):
        w = min([mm * x + c for mm, c, a, b in ks if a <= x <= b] + [x])
        ctx.step()
        if any(abs(x - e) < EPS for *_, a, b in ks for e in (a, b)):
            continue
        if abs(w - y) > EPS:
            raise Bad(f"{n}: {y} at {x}, the best recorded bound is {w}")
        if y < x / 2 - EPS:
            raise Bad(f"{n}: {y} at {x}, better than conjectured")
    n, xs, ys = by_label("van der Corput")
    curve(n, xs, ys, lambda x: opt(F(x)), ctx)


def vis_pairs(ctx):
    from checks import d02
    hull = d02.known_hull()
    for p in d02.NEW:
        hull += [p, M.T_B(p)]
    for m in range(20, 300):
        p = (F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2)))
        hull += [p, M.T_B(p)]
    hull = [(float(a), float(b)) for a, b in M.hull([(F(a), F(b)) for a, b in hull])]
    pts = [tuple(map(float, p)) for n in plt.get_fignums() for a in plt.figure(n).axes for c in a.collections for p in c.get_offsets()]
    poly = [tuple(map(float, p)) for n in plt.get_fignums() for a in plt.figure(n).axes for q in a.patches for p in q.get_xy()]
    if len(pts) < 20 or not poly:
        raise Bad("no pairs are drawn")
    for what, S in (("point", pts), ("corner", poly)):
        for k, l in S:
            ctx.step()
            if not any(abs(k - (q - 0.5)) < 1e-9 and abs(l - (p + 0.5)) < 1e-9 for p, q in S):
                raise Bad(f"the {what} ({k}, {l}) is drawn without its B transform")
            low = lower(hull, k)
            if l < low - 1e-9:
                raise Bad(f"the {what} ({k}, {l}) is no known exponent pair")
    for v in hull:
        if not any(abs(v[0] - p) + abs(v[1] - q) < 1e-9 for p, q in pts):
            if min(v[0], v[1] - 0.5) > 4e-4:
                raise Bad(f"the known exponent pair {v} is not drawn")


def lower(hull, k):
    best = None
    for (a, b), (c, d) in combinations(hull, 2):
        if a != c and min(a, c) - 1e-12 <= k <= max(a, c) + 1e-12:
            y = b + (d - b) * (k - a) / (c - a)
            best = y if best is None else min(best, y)
    return math.inf if best is None else best


def recorded(typ):
    DB = V.derived()["literature"]
    return DB.list_hypotheses(hypothesis_type=typ)


def best_at(hs, x):
    best = math.inf
    for h in hs:
        if h.data.interval.contains(x):
            try:
                v = complex(h.data.at(x))
            except TypeError:
                continue
            if abs(v.imag) < 1e-12 and math.isfinite(v.real):
                best = min(best, v.real)
    return best


def vis_zd(ctx):
    n, xs, ys = by_label("iterature")
    hs = recorded("Zero density estimate")
    cache = {}
    for x, y in list(zip(xs, ys))[::3]:
        cache[x] = best_at(hs, x)
        curve(n, [x], [y], lambda t: cache[t], ctx)
    spans(xs, 0.5, 1, n)
    n2, xs2, ys2 = by_label("Best")
    new = [(lambda x: 2 / (9 * x - 6), F(17, 22), F(38, 49)), (lambda x: 9 / (8 * (2 * x - 1)), F(38, 49), F(4, 5)), (lambda x: 3 / (10 * x - 7), F(701, 1000), F(1))]
    for x, y0, y in list(zip(xs2, ys, ys2)):
        w = min([y0] + [f(x) for f, a, b in new if a < x < b])
        ctx.step()
        if y > w + EPS:
            raise Bad(f"{n2}: {y} at {x}, but {w} is known")
        # nothing beats the published records
        if y < min(record(x), w) - 1e-6 and not any(abs(x - float(e)) < 1e-4 for e in REC):
            raise Bad(f"{n2}: {y} at {x}, better than the published record {record(x)}")
    n3, xs3, ys3 = by_label("Lindel")
    curve(n3, xs3, ys3, lambda x: None if abs(x - .75) < EPS else 2 if x < 0.75 else 0, ctx)


REC = []


def record(x):
    from checks import d02
    s = d02.record_spec()
    if not REC:
        REC.extend(e for p in s for e in p[1:3])
    return min((float(p[0](F(x))) for p in s if float(p[1]) <= x <= float(p[2])), default=math.inf)


def vis_energy(ctx):
    from checks import d03
    zds = recorded("Zero density estimate")
    ens = recorded("Zero density energy estimate")
    n1, xs, y1 = by_label("iterature")
    n2, xs2, y2 = by_label("rivial")
    n3, xs3, y3 = by_label("Best")
    n4, xs4, y4 = by_label("Lindel")
    if not xs == xs2 == xs3 == xs4:
        raise Bad("the curves are drawn at different points")
    spans(xs, 0.5, 1, n1)
    pub = [p for v in d03.SPEC.values() for p in v]
    for i, x in enumerate(xs):
        if i % 5 == 0:
            t = min(3 * best_at(zds, x), 3 / (1 - x))
            l = min(best_at(ens, x), t)
            curve(n2, [x], [y2[i]], lambda _: t, ctx)
            curve(n1, [x], [y1[i]], lambda _: l, ctx)
        p = min([float(f(x)) for f, a, b in pub if a <= x <= b] + [y1[i]])
        ctx.step(2)
        if y3[i] > y1[i] + EPS:
            raise Bad(f"{n3}: {y3[i]} at {x}, the literature gives {y1[i]}")
        if y3[i] < p - 0.002:
            raise Bad(f"{n3}: {y3[i]} at {x}, better than the published bounds {p}")
        if y3[i] < y4[i] - EPS:
            raise Bad(f"{n3}: {y3[i]} at {x}, better than the Lindelof hypothesis gives")
    curve(n4, xs4, y4, lambda x: None if abs(x - .75) < EPS else 8 - 4 * x if x < 0.75 else 0, ctx)


VIS = {"van_der_corput_plot": vis_vdc, "van_der_corput_plot2": vis_vdc2, "beta_bound_plot": vis_beta, "exp_pair_plot": vis_pairs,
       "zero_density_plot": vis_zd, "zero_density_energy_plot": vis_energy}


def groups(tier):
    return [Group("visualizations", vis_cases, run_vis, timeout=600, chunk=1), Group("derivation", der_cases, run_der, timeout=300), Group("polytopes", poly_cases, run_poly),
            Group("regions", region_cases, run_region), Group("piecewise functions", pw_cases, run_pw), Group("bounds on beta", beta_cases, run_beta),
            Group("zero density estimates", zd_cases, run_zd)]
