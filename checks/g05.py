"""G05: what a polytope answers depends on the set it denotes, not on what was asked before."""
import copy
from itertools import combinations, product
from fractions import Fraction as F
from mc.core import Group, Bad, fr
from mc.polys import *
from mc.geom import Arrangement, vertices, hull_spec, val, true_edges

ID = "G05"
COVERAGE = (
    "every sequence of at most 3 (thorough: 4) operations over a menu of queries and derivations, "
    "from several seed polytopes; after each sequence the current object and every object it was "
    "derived from are fully observed and compared with the exact point set.  state = (point set, "
    "last operation), transition = one operation executed, trace = one complete sequence"
)
ASSUMPTIONS = ["2-dimensional bounded polytopes; at most 4 operations"]

SEEDS = {
    "square": (((0, 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)), ()),
    "redundant": (((5, 1, 0), (0, 1, 0), (2, -1, 0), (4, -2, 0), (0, 0, 1), (2, 0, -1), (9, -1, -1)), ()),
    "triangle": (((0, 0, 1), (0, 1, -1), (4, -2, -1), (7, -1, 0)), ()),
    "segment": (((0, 1, 0), (2, -1, 0), (0, 0, 1), (2, 0, -1)), ((0, 1, -1),)),
    "implicit": (((0, 1, 0), (0, -1, 0), (0, 0, 1), (2, 0, -1)), ()),
    "point": (((0, 1, 0), (0, -1, 0), (-1, 0, 1), (1, 0, -1)), ()),
    "empty": (((0, 1, 0), (-1, -1, 0), (0, 0, 1), (2, 0, -1)), ()),
}

CUT = (3, -1, -2)


def cat(spec, rows, eqs=()):
    return (spec[0] + tuple(tuple(r) for r in rows), spec[1] + tuple(eqs))


def smap(spec, f):
    return tuple(tuple((r[0],) + tuple(F(r[i + 1]) / f[i] for i in range(2)) for r in rs) for rs in spec)


_F = {}


def facts(spec):
    key = spec
    r = _F.get(key)
    if r is None:
        vs, edges = true_edges(spec[0], spec[1], 2)
        rows = list(spec[0]) + list(spec[1])
        A = Arrangement(2, rows)
        m = A.poly(*spec)
        probes = [(A.points[i], bool(m >> i & 1)) for i in range(A.n)]
        # keep it small: all inside faces plus up to eight outside ones
        ins = [p for p in probes if p[1]]
        out = [p for p in probes if not p[1]][:8]
        r = {"vs": vs, "edges": edges, "empty": m == 0, "thin": m & A.full == 0, "probes": ins + out}
        _F[key] = r
    return r


QUERIES = {
    "empty": lambda p, f: p.is_empty(),
    "interior": lambda p, f: p.is_empty(include_boundary=False),
    "fulldim": lambda p, f: p.is_full_dim() if not f["empty"] else None,
    "vertices": lambda p, f: p.get_vertices(),
    "edges": lambda p, f: p.get_edges() if not f["empty"] else None,
    "canon": lambda p, f: p.canonicalize(),
    "subset": lambda p, f: p.is_subset_of(Polytope([[1, -1, 0]])),
    "cover": lambda p, f: p.is_covered_by([Polytope([[1, -1, 0]]), Polytope([[-1, 1, 0], [1, 0, -1]])]),
    "union": lambda p, f: Polytope.try_union([p, Polytope.rect((F(2), F(3)), (F(0), F(2)))]) if not f["thin"] else None,
}


def minus(p, f):
    parts = p.set_minus(Polytope([[-1, 1, 0]]))
    return parts[0] if len(parts) == 1 else None


DERIVE = {
    "cut": (lambda p, f: p.intersect(Polytope([list(CUT)])), lambda s: cat(s, [CUT])),
    "rawcut": (
        lambda p, f: Polytope.intersection([p, Polytope([list(CUT)])], canonicalize=False),
        lambda s: cat(s, [CUT]),
    ),
    "line": (
        lambda p, f: p.intersect(Polytope([[-1, 0, 1]], linear=True)),
        lambda s: cat(s, [], [(-1, 0, 1)]),
    ),
    "copy": (lambda p, f: copy.copy(p), lambda s: s),
    "stretch": (lambda p, f: p.scale_all([F(2), F(1, 2)]), lambda s: smap(s, (F(2), F(1, 2)))),
    "scale1": (lambda p, f: p.scale(1, F(1, 2), [[1, -1, 0]]), lambda s: cat(smap(s, (F(1, 2), F(1))), [(1, -1, 0)])),
    "liftback": (
        lambda p, f: p.lift([0, (F(0), F(1)), 1]).substitute({1: F(1, 3)}),
        lambda s: s,
    ),
    "project": (lambda p, f: None if f["empty"] else p.project({0, 1}), lambda s: s),
    "vrep": (
        lambda p, f: None if f["empty"] else Polytope.from_V_rep([list(v) for v in p.get_vertices()]),
        lambda s: s,
    ),
    "minus": (minus, lambda s: cat(s, [(1, -1, 0)])),
}


def observe(p, spec, what):
    f = facts(spec)
    for pt, want in f["probes"]:
        if bool(p.contains(list(pt))) != want:
            raise Bad(f"{what}: contains({pt}) should be {want}")
    if bool(p.is_empty()) != f["empty"]:
        raise Bad(f"{what}: emptiness should be {f['empty']}")
    if bool(p.is_empty(include_boundary=False)) != f["thin"]:
        raise Bad(f"{what}: interior emptiness should be {f['thin']}")
    got = sorted(tuple(fr(x) for x in v) for v in p.get_vertices())
    if got != f["vs"]:
        raise Bad(f"{what}: vertices {got} should be {f['vs']}")
    if not f["empty"]:
        if bool(p.is_full_dim()) == f["thin"]:
            raise Bad(f"{what}: full-dimensionality should be {not f['thin']}")
        e = set()
        for a, b in p.get_edges():
            a, b = tuple(map(fr, a)), tuple(map(fr, b))
            e.add((min(a, b), max(a, b)))
        if e != f["edges"]:
            raise Bad(f"{what}: edges {e} should be {f['edges']}")
    for pt, want in f["probes"]:
        if bool(p.contains(list(pt))) != want:
            raise Bad(f"{what}: contains({pt}) changed to {not want} after queries")


def run(case, ctx):
    seed, ops = case
    spec = spec_from_json(SEEDS[seed])
    p = build(spec)
    chain = []
    for k, op in enumerate(ops):
        f = facts(spec)
        if op in QUERIES:
            QUERIES[op](p, f)
        else:
            do, model = DERIVE[op]
            if op == "minus" and facts(model(spec))["thin"]:
                return  # nothing left: no successor state
            q = do(p, f)
            if q is None:
                if op == "minus":
                    raise Bad(f"{seed} after {ops[:k]}: removing a half-plane should leave one piece")
                return
            chain.append((p, spec, k))
            p, spec = q, model(spec)
        ctx.step()
        ctx.state((seed, spec, op))
    what = f"{seed} after {'.'.join(ops)}"
    observe(p, spec, what)
    for q, s, k in reversed(chain):
        observe(q, s, f"operand of step {k} of {what}")
    # observing twice gives the same answers
    observe(p, spec, what + " (again)")
    f = facts(spec)
    ctx.outcome((len(f["vs"]), f["empty"], f["thin"]))


def cases(tier):
    ops = list(QUERIES) + list(DERIVE)
    seeds = list(SEEDS)
    depth = 3
    for seed in seeds:
        for n in range(0, depth + 1):
            if n == 3 and tier != "thorough" and seed in ("square", "point", "implicit"):
                continue
            for seq in product(ops, repeat=n):
                yield [seed, list(seq)]
    if tier == "thorough":
        short = ["fulldim", "vertices", "edges", "canon", "interior", "union", "rawcut", "line", "copy", "project", "stretch"]
        for seed in ("redundant", "segment", "triangle"):
            for seq in product(short, repeat=4):
                yield [seed, list(seq)]


def groups(tier):
    return [Group("histories", cases, run)]
