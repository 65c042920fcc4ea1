"""F05: piecewise affine functions in the plane (minimum, cropping, simplification)."""
from itertools import product, combinations
from fractions import Fraction as F
import copy
from mc.core import Group, Bad, windows
from mc.geom import Arrangement, val
from mc.polys import rows_of, Space
from functions import Affine2, Piecewise
from polytope import Polytope

ID = "F05"
COVERAGE = (
    "every pair (and chain of three, and of 4 to 6 along cyclic walks) of piecewise affine functions over six partitions of planar domains and five "
    "affine pieces, with equal, crossing, touching and ordered pieces, different domains, each piece with its own label, shared labels, only one of the functions labelled, and no labels: minimum "
    "on the common domain, cropping by several windows, simplification with every grouping limit, functions on up to 9 squares of a grid in several orders, functions of one and three variables, and pairs of functions which differ by as little as 1e-15; compared at a "
    "witness of every cell of the arrangement of all boundaries and crossing lines.  state = distinct function, "
    "transition = one cell compared, trace = one history executed"
)
ASSUMPTIONS = ["bounded domains; values on the boundaries between pieces are not compared, as the library ignores boundaries"]


def box(a, b, c, d):
    return [(-a, 1, 0), (b, -1, 0), (-c, 0, 1), (d, 0, -1)]


B = box(0, 2, 0, 2)
PARTS = [
    [B],
    [box(0, 1, 0, 2), box(1, 2, 0, 2)],
    [B + [(0, 1, -1)], B + [(0, -1, 1)]],
    [box(0, 2, 0, 1), box(0, 1, 1, 2), box(1, 2, 1, 2)],
    [box(1, 3, 0, 2)],
    [[(0, 1, 0), (0, 0, 1), (2, -1, -1)]],
]
FUN = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (-1, 1, 1), (2, -1, 0)]
WINS = [box(0, 1, 0, 1), box(1, 4, 1, 4), [(2, -1, -1)], box(5, 6, 5, 6), box(-1, 4, -1, 4)]
LINES = [tuple(x - y for x, y in zip(f, g)) for f, g in combinations(FUN, 2)]
A = Arrangement(2, [r for p in PARTS for c in p for r in c] + LINES + [r for w in WINS for r in w])
CELLS = [p for i, p in enumerate(A.points) if A.full >> i & 1]


def name(tag, i):
    """the label of piece i: none, its own, or (tag ending in !) the same for all pieces"""
    return None if tag is None else tag if tag.endswith("!") else f"{tag}{i}"


def pw(spec, tag):
    part, fs = spec
    return Piecewise([
        Affine2([F(x) for x in FUN[f]], Polytope([list(map(F, r)) for r in rows]), name(tag, i))
        for i, (rows, f) in enumerate(zip(PARTS[part], fs))])


def spec_at(spec, p, tag):
    """{label: value} of the pieces containing p."""
    part, fs = spec
    out = {}
    for i, (rows, f) in enumerate(zip(PARTS[part], fs)):
        if all(val(r, p) >= 0 for r in rows):
            out[name(tag, i)] = val(FUN[f], p)
    return out


def specs(tier, small=False):
    for k, part in enumerate(PARTS):
        n = len(part)
        fs = range(len(FUN)) if not small else [0, 2, 4]
        for c in product(fs, repeat=n):
            if n == 3 and tier == "quick" and not (c[0] <= c[1] or c[2] == 0):
                continue
            if n == 2 and small and c[0] == c[1]:
                continue
            yield [k, list(c)]


def snapshot(f):
    return [(tuple(p.a), str(rows_of(p.domain)), p.label) for p in f.pieces]


def compare(got, want, labelled, what, ctx, states=True):
    """want: point -> None | (value, set of labels which attain it)"""
    key = []
    for p in CELLS:
        w = want(p)
        x = list(p)
        hits = [q for q in got.pieces if q.domain.contains(x)]
        if w is None:
            if hits:
                raise Bad(f"{what}: defined at {show(p)}, where it should not be")
            key.append(None)
            continue
        if len(hits) != 1:
            raise Bad(f"{what}: {len(hits)} pieces at {show(p)}")
        v = hits[0].at(x)
        if v != w[0] or got.at(x) != w[0]:
            raise Bad(f"{what}: value {v} at {show(p)}, expected {w[0]}")
        if labelled and hits[0].label not in w[1]:
            raise Bad(f"{what}: at {show(p)} the piece is labelled {hits[0].label}, not one of {sorted(w[1], key=str)}")
        key.append(w[0])
        ctx.step()
    if states:
        ctx.state(tuple(key))


def show(p):
    return f"({p[0]},{p[1]})"


def min_of(specs_, tags):
    def want(p):
        vs = [spec_at(s, p, t) for s, t in zip(specs_, tags)]
        if not all(vs):
            return None
        best = min(min(v.values()) for v in vs)
        return best, {l for v in vs for l, x in v.items() if x == best}
    return want


def pair_cases(tier):
    L = list(specs(tier))
    S = list(specs(tier, small=True))
    for a in L:
        for b in (L if tier == "thorough" else S):
            yield [a, b, True]
    for a in S:
        for b in S:
            yield [a, b, False]
    for n, (a, b) in enumerate(product(S, S)):
        for m in range(len(MODES)):
            if tier == "thorough" or n % len(MODES) == m:
                yield [a, b, MODES[m]]


MODES = [["s!", "s!"], ["f", None], [None, "g"], ["f!", "f0"]]


def run_pair(case, ctx):
    a, b, labelled = case
    tags = {True: ["f", "g"], False: [None, None]}[labelled] if isinstance(labelled, bool) else labelled
    f, g = pw(a, tags[0]), pw(b, tags[1])
    sf, sg = snapshot(f), snapshot(g)
    h = f.min_with(g)
    want = min_of([a, b], tags)
    compare(h, want, True, "minimum", ctx)
    n = len(h.pieces)
    h.simplify()
    compare(h, want, True, "simplified minimum", ctx, states=False)
    if len(h.pieces) > n:
        raise Bad("simplification added pieces")
    if snapshot(f) != sf or snapshot(g) != sg:
        raise Bad("an operand was modified")
    ctx.outcome((len(h.pieces), str(labelled)))


def chain_cases(tier):
    S = [s for s in specs("quick", small=True)]
    if tier == "quick":
        S = [s for s in S if s[0] in (0, 1, 2, 4) and (len(s[1]) == 1 or s[1] in ([0, 2], [4, 2], [2, 0]))]
    for a, b, c in product(S, repeat=3):
        if tier == "quick" or (a <= c and (len(a[1]) < 3 or len(b[1]) < 3)):
            yield [a, b, c]


def long_cases(tier):
    S = [s for s in specs("quick", small=True)]
    for n, c in enumerate(windows(len(S), (4, 5, 6), (1, 2, 3, 5, 7), range(0, len(S), 12 if tier == "quick" else 2), rev=False)):
        yield [S[i] for i in c]


def run_long(case, ctx):
    tags = "fghijk"[:len(case)]
    fs = [pw(s, t) for s, t in zip(case, tags)]
    snap = [snapshot(f) for f in fs]
    r = fs[0]
    for f in fs[1:]:
        r = r.min_with(f)
        r.simplify()
    compare(r, min_of(case, tags), True, f"minimum of {len(case)}", ctx)
    if [snapshot(f) for f in fs[1:]] != snap[1:]:
        raise Bad("an operand was modified")
    ctx.outcome(len(r.pieces))


def run_chain(case, ctx):
    fs = [pw(s, t) for s, t in zip(case, "fgh")]
    r = fs[0].min_with(fs[1])
    r.simplify(max_grouping=2)
    r = r.min_with(fs[2])
    want = min_of(case, "fgh")
    compare(r, want, True, "minimum of three", ctx)
    r.simplify(max_grouping=4)
    compare(r, want, True, "simplified minimum of three", ctx, states=False)
    ctx.outcome(len(r.pieces))


def crop_cases(tier):
    for s in specs(tier):
        for w in range(len(WINS)):
            yield [s, w, True]
            yield [s, w, False]


def run_crop(case, ctx):
    s, w, simp = case
    f = pw(s, "f")
    g = copy.copy(f)
    before = snapshot(f)
    rows = WINS[w]
    g.crop(Polytope([list(map(F, r)) for r in rows]), simplify=simp)

    def want(p):
        v = spec_at(s, p, "f")
        if not v or not all(val(r, p) >= 0 for r in rows):
            return None
        return min(v.values()), set(v)
    compare(g, want, True, "cropped", ctx)
    if simp and any(q.domain.is_empty(include_boundary=False) for q in g.pieces):
        raise Bad("an empty piece was kept")
    if snapshot(f) != before:
        raise Bad("cropping a copy changed the original")
    g.simplify()
    compare(g, want, True, "cropped and simplified", ctx, states=False)
    ctx.outcome(len(g.pieces))


def misc_cases(tier):
    yield ["ok", 3]
    yield ["ok", 1]
    yield ["overlap", 0]
    yield ["gap", 5]
    for f, g in product(range(len(FUN)), repeat=2):
        yield [f, g]


def run_misc(case, ctx):
    k, j = case
    if isinstance(k, int):
        D = Polytope([list(map(F, r)) for r in B])
        f, g = Affine2(list(map(F, FUN[k])), D), Affine2(list(map(F, FUN[j])), D)
        h = f.intersection(g)
        for p in A.points:
            if bool(h.contains(list(p))) != (val(FUN[k], p) == val(FUN[j], p)):
                raise Bad(f"the crossing hyperplane of {FUN[k]} and {FUN[j]} is wrong at {show(p)}")
            if f.at(list(p)) != val(FUN[k], p):
                raise Bad("wrong value")
        try:
            f.at([F(0)])
        except ValueError:
            pass
        else:
            raise Bad("a point of the wrong dimension was accepted")
    else:
        f = pw([j, [0, 2, 4][: len(PARTS[j])]], "f")
        if k == "overlap":
            f.pieces.append(Affine2([F(1), F(0), F(0)], Polytope([list(map(F, r)) for r in box(1, 2, 1, 2)]), "x"))
        if bool(f.check((0, 2), (0, 2))) != (k == "ok"):
            raise Bad(f"the self-check of a function with {k} is wrong")
    ctx.state((k, j))
    ctx.step()
    ctx.outcome(str(k))


# pieces which differ by very little, or are very large
NEAR = [(1, 0, 0), (1 + F(1, 10**12), 0, 0), (1, F(1, 10**12), 0), (1 - F(1, 10**15), F(1, 10**13), F(-1, 10**13)), (10**9, 0, 0), (10**9 + F(1, 10**9), 0, 0)]
A_NEAR = None


def near_cases(tier):
    for a, b in product(range(len(PARTS)), repeat=2):
        for f, g in product(range(len(NEAR)), repeat=2):
            if a <= 2 or b <= 2 or tier == "thorough":
                n = len(NEAR)
                yield [[a, [(f + i) % n for i in range(len(PARTS[a]))]], [b, [(g + 2 * i) % n for i in range(len(PARTS[b]))]], True]


def run_near(case, ctx):
    global FUN, CELLS, A_NEAR
    if A_NEAR is None:
        lines = [tuple(x - y for x, y in zip(f, g)) for f, g in combinations(NEAR, 2)]
        A_NEAR = Arrangement(2, [r for p in PARTS for c in p for r in c] + [r for r in lines if any(r[1:])])
    old = FUN, CELLS
    FUN, CELLS = NEAR, [p for i, p in enumerate(A_NEAR.points) if A_NEAR.full >> i & 1]
    try:
        run_pair(case, ctx)
    finally:
        FUN, CELLS = old


# many pieces of one function (and of two) on the squares of a grid, in several orders
def grid_cases(tier):
    n = 0
    for w, h in ((2, 3), (3, 3)):
        N = w * h
        for s in range(1, 2 ** N):
            k = bin(s).count("1")
            if k < 2 or (N == 9 and k < 6):
                continue
            for o in (1, 2, 4, 5, 7, 8):
                n += 1
                if tier == "thorough" or n % (4 if N == 6 else 40) == 0:
                    yield [w, h, s, o, n % 3, 2 + n // 4 % 2]


def run_grid(case, ctx):
    w, h, s, o, mode, most = case
    at = [(i * o + o) % (w * h) if o % 3 and (w * h) % o else i for i in range(w * h)]
    if len(set(at)) < len(at):
        at = list(range(w * h))[::-1]
    sq = [i for i in at if s >> i & 1]
    FS = [(1, 0, 0), (0, 1, 0)]          # same sums and last coefficients
    which = (lambda i: 0) if mode == 0 else (lambda i: (i % w) % 2) if mode == 1 else (lambda i: (i // w) % 2)
    lab = (lambda i: None) if o % 2 else (lambda i: "ab"[(i // 3) % 2 if mode == 1 else 0])
    pieces = [Affine2([F(x) for x in FS[which(i)]], Polytope([list(map(F, r)) for r in box(i % w, i % w + 1, i // w, i // w + 1)]), lab(i)) for i in sq]
    f = Piecewise(list(pieces))
    f.simplify(max_grouping=most)
    if len(f.pieces) > len(sq):
        raise Bad("simplification added pieces")
    for i in range(w * h):
        p = [i % w + F(1, 2), i // w + F(1, 2)]
        hits = [q for q in f.pieces if q.domain.contains(p)]
        if not s >> i & 1:
            if hits or f.at(p) is not None:
                raise Bad(f"after simplification a piece contains {show(p)}")
            continue
        if len(hits) != 1:
            raise Bad(f"after simplification {len(hits)} pieces contain {show(p)}")
        v = val(FS[which(i)], p)
        if hits[0].at(p) != v or f.at(p) != v or hits[0].label != lab(i):
            raise Bad(f"after simplification the value at {show(p)} is {hits[0].at(p)} ({hits[0].label}), expected {v} ({lab(i)})")
        ctx.step()
    ctx.state(tuple(case))
    ctx.outcome(len(f.pieces))


# functions of one and of three variables
BOX3 = [(0, 1, 0, 0), (2, -1, 0, 0), (0, 0, 1, 0), (2, 0, -1, 0), (0, 0, 0, 1), (2, 0, 0, -1)]
PARTS3 = {3: [[BOX3], [BOX3 + [(-1, 1, 0, 0)], BOX3 + [(1, -1, 0, 0)]], [BOX3 + [(0, 1, -1, 0)], BOX3 + [(0, -1, 1, 0)]], [BOX3 + [(-2, 1, 1, 1)]], [BOX3 + [(0, 0, 0, 1), (1, 0, 0, -1)], BOX3 + [(-1, 0, 0, 1)]]],
          1: [[[(0, 1), (2, -1)]], [[(0, 1), (1, -1)], [(-1, 1), (2, -1)]], [[(-1, 2), (3, -1)]]]}
FUN3 = {3: [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, -1), (-1, 1, 1, 0), (2, -1, 0, -1)], 1: [(0, 0), (1, 0), (0, 1), (2, -1), (-1, 3)]}
ARR3 = {}


def dim_cases(tier):
    for d in (3, 1):
        n = 0
        S = [[k, list(c)] for k, p in enumerate(PARTS3[d]) for c in product(range(len(FUN3[d])), repeat=len(p))]
        for a, b in product(S, S):
            n += 1
            if tier == "thorough" or d == 1 or n % 83 == 0:
                yield [d, a, b, bool(n % 2)]


def run_dim(case, ctx):
    d, a, b, labelled = case
    if d not in ARR3:
        rows = [r for p in PARTS3[d] for c in p for r in c] + [tuple(x - y for x, y in zip(f, g)) for f, g in combinations(FUN3[d], 2)]
        A = Arrangement(d, sorted({r for r in rows if any(r[1:])}))
        ARR3[d] = [p for i, p in enumerate(A.points) if A.full >> i & 1]

    def mk(s, tag):
        return Piecewise([Affine2([F(x) for x in FUN3[d][k]], Polytope([list(map(F, r)) for r in rows]), f"{tag}{i}" if labelled else None)
                          for i, (rows, k) in enumerate(zip(PARTS3[d][s[0]], s[1]))])
    f, g = mk(a, "f"), mk(b, "g")
    h = f.min_with(g)
    k = copy.copy(h)
    k.simplify()
    key = []
    for p in ARR3[d]:
        vals = []
        for s, tag in ((a, "f"), (b, "g")):
            vals.append({f"{tag}{i}": val(FUN3[d][j], p) for i, (rows, j) in enumerate(zip(PARTS3[d][s[0]], s[1])) if all(val(r, p) >= 0 for r in rows)})
        want = min(v for x in vals for v in x.values()) if all(vals) else None
        for r, what in ((h, "minimum"), (k, "simplified minimum")):
            hits = [q for q in r.pieces if q.domain.contains(list(p))]
            if [q.at(list(p)) for q in hits] != ([] if want is None else [want]) or r.at(list(p)) != want:
                raise Bad(f"{what} at {p}: {[q.at(list(p)) for q in hits]}, expected {want}")
            if labelled and hits and hits[0].label not in [l for x in vals for l, v in x.items() if v == want]:
                raise Bad(f"{what} at {p} is labelled {hits[0].label}")
        ctx.step()
        key.append(want)
    ctx.state((d, tuple(key)))
    ctx.outcome((d, len(h.pieces)))


def groups(tier):
    return [Group("close functions", near_cases, run_near), Group("minimum", pair_cases, run_pair), Group("chains", chain_cases, run_chain), Group("longer chains", long_cases, run_long),
            Group("cropping", crop_cases, run_crop), Group("misc", misc_cases, run_misc), Group("grids", grid_cases, run_grid), Group("one and three variables", dim_cases, run_dim)]
