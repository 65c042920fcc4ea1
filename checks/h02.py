"""H02: selecting hypotheses, and what a hypothesis depends on."""
from itertools import product, combinations
from fractions import Fraction as F
import copy
import io, contextlib, re
from mc.core import Group, Bad, windows
from mc import hyps as M
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference

ID = "H02"
COVERAGE = (
    "every set of up to 3 hypotheses and sets of 4 to 12 along cyclic walks over 3 types, 9 kinds of dates and 3 contents, filtered by every type and "
    "year and searched by every type/content/keyword/year query; every dependency graph on up to 5 "
    "hypotheses with every assignment of date kinds (quick: to three of the nodes), and chains, fans, ladders, trees and layered graphs on 6 to 13: closure, size, date and printed listing of the proof; every sequence of up to 4 "
    "additions in every accepted form to two sets built from each other.  state = distinct selection/graph, transition "
    "= one query compared, trace = one set, graph or sequence"
)

YEARS = ["classical", "derived", "conj", "trivial", "unknown", 1900, 1950, 2000, 2024]
TYPES = ["Exponent pair", "Upper bound on mu", "Zero density estimate"]
INF = float("inf")


def mkref(y):
    if y == "classical":
        return Reference.classical()
    if y == "derived":
        return Reference.derived(2010)
    if y == "conj":
        return Reference.conjectured()
    if y == "trivial":
        return Reference.trivial()
    if y == "unknown":
        return Reference("lab", "article", {"author": "X"})
    return Reference.make("A", y)


class D:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, D) and self.v == o.v

    def __repr__(self):
        return f"d{self.v}"


def year_of(y):
    return {"classical": -1, "derived": 2010, "conj": INF, "trivial": -1, "unknown": None}.get(y, y)


def selected(y, limit):
    if limit == "Any" or y in ("classical", "derived"):
        return True
    if y in ("conj", "unknown"):
        return False
    return year_of(y) <= limit


NAMES = ["alpha one", "beta one", "alpha two"]


def filt_cases(tier):
    kinds = list(product(range(3), range(len(YEARS))))
    for k in kinds:
        yield [list(k)]
    for c in product(kinds, repeat=2):
        yield [list(x) for x in c]
    for c in product(kinds, repeat=3):
        if c[0] <= c[1] or tier != "quick":
            yield [list(x) for x in c]
    for c in windows(len(kinds), (4, 5, 7, 12), (1, 2, 4, 5, 7, 10)):
        yield [list(kinds[i]) for i in c]
    yield []


def filt(case, ctx):
    hs = [Hypothesis(NAMES[i % 3], TYPES[t], D((t + i) % 3), "p", mkref(YEARS[y])) for i, (t, y) in enumerate(case)]
    S = Hypothesis_Set(hs)
    for typ in TYPES + ["Any", "Exponent", "Exponent pair transform"]:
        for lim in ["Any", -5, -1, 1899, 1900, 1950, 1999, 2000, 2030]:
            got = S.list_hypotheses(typ, lim)
            want = [h for h, (t, y) in zip(hs, case) if typ in ("Any", TYPES[t]) and selected(YEARS[y], lim)]
            if len(got) != len(want) or {id(h) for h in got} != {id(h) for h in want}:
                raise Bad(f"{typ} up to {lim} among {case}: {got}, expected {want}")
            ctx.step()
    for typ in TYPES[:2] + ["Any"]:
        for data in ["Any", D(0), D(2)]:
            for kw in ["Any", "alpha", "one", "alpha, one", "one,alpha", "gamma", "alpha one"]:
                for year in ["Any", 1950, -1]:
                    got = S.find_hypothesis(typ, data, kw, year)
                    want = [h for i, (h, (t, y)) in enumerate(zip(hs, case))
                            if typ in ("Any", TYPES[t]) and (data == "Any" or data.v == (t + i) % 3)
                            and (kw == "Any" or all(k.strip() in NAMES[i % 3] for k in kw.split(",")))
                            and (year == "Any" or year_of(YEARS[y]) == year)]
                    if (got is None) != (not want) or (want and not any(got is w for w in want)):
                        raise Bad(f"find {typ} {data} {kw} {year} among {case}: {got}, expected one of {want}")
                    ctx.step()
    if len(S) != len(hs) or {id(h) for h in S} != {id(h) for h in hs} or len(S.to_list()) != len(hs):
        raise Bad("members of the set")
    ctx.state(case)
    ctx.outcome(len(case))


def graph_cases(tier):
    n = 5
    ys = ["classical", "conj", "unknown", 1950, 2000]
    for k in range(1, n + 1):
        edges = list(combinations(range(k), 2))
        for mask in range(1 << len(edges)):
            es = [e for i, e in enumerate(edges) if mask >> i & 1]
            for y in product(range(len(ys)), repeat=min(k, 3 if tier == "quick" else 5)):
                yield [k, es, [ys[y[i % len(y)]] for i in range(k)]]
    # larger graphs: chains, fans, ladders and layers, each date kind at every node
    for k in range(6, 14):
        shapes = {
            "chain": [(i, i + 1) for i in range(k - 1)],
            "fan": [(0, i) for i in range(1, k)],
            "sink": [(i, k - 1) for i in range(k - 1)],
            "ladder": [(i, j) for i in range(k) for j in (i + 1, i + 2) if j < k],
            "tree": [(i, j) for i in range(k) for j in (2 * i + 1, 2 * i + 2) if j < k],
            "layers": [(i, j) for i in range(k) for j in range(3 * (i // 3 + 1), min(k, 3 * (i // 3 + 2)))],
            "two": [(i, i + 2) for i in range(k - 2)],
        }
        for es in shapes.values():
            for a, b in product(ys, repeat=2):
                for at in range(k):
                    yy = [a] * k
                    yy[at] = b
                    yield [k, es, yy]


def graph(case, ctx):
    k, es, ys = case
    hs = [Hypothesis(f"h{i}", TYPES[i % 3], D(i), "p", mkref(ys[i])) for i in range(k)]
    M.rank(hs)
    for i, j in es:
        hs[i].add_dependency(hs[j])
    before = [set(map(id, h.dependencies)) for h in hs]
    reach, tree, date = {}, {}, {}
    for i in reversed(range(k)):
        r, n, d = set(), 1, year_of(ys[i])
        d = -1 if d is None else d
        for a, b in es:
            if a == i:
                r |= {b} | reach[b]
                n += tree[b]
                d = max(d, date[b])
        reach[i], tree[i], date[i] = r, n, d
    for i, h in enumerate(hs):
        got = h.recursive_dependencies()
        if {id(x) for x in got} != {id(hs[j]) for j in reach[i]} or not isinstance(got, Hypothesis_Set):
            raise Bad(f"h{i} of {case} depends on {got}, expected {sorted(reach[i])}")
        if h.proof_complexity() != tree[i]:
            raise Bad(f"proof size of h{i} of {case}: {h.proof_complexity()}, expected {tree[i]}")
        if h.proof_date() != date[i]:
            raise Bad(f"proof date of h{i} of {case}: {h.proof_date()}, expected {date[i]}")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            h.recursively_list_proofs()
        lines = [l for l in out.getvalue().split("\n") if l.strip()]
        if len(lines) != tree[i]:
            raise Bad(f"listing the proof of h{i} of {case} prints {len(lines)} steps, expected {tree[i]}")
        path = []                        # (name, the dependencies still to be listed below it)
        for l in lines:
            depth, name = len(l) - len(l.lstrip("\t")), re.search(r"\bh\d+\b", l)
            name = name and int(name.group()[1:])
            if name is None or depth > len(path) or not depth and name != i:
                raise Bad(f"the listing of the proof of h{i} of {case} reads {l!r} at depth {depth}")
            while len(path) > depth:
                if path.pop()[1]:
                    raise Bad(f"the listing of the proof of h{i} of {case} leaves out a step before {l!r}")
            if path and name not in path[-1][1]:
                raise Bad(f"the listing of the proof of h{i} of {case} puts h{name} below h{path[-1][0]}")
            if path:
                path[-1][1].discard(name)
            path.append((name, {b for a, b in es if a == name}))
        if any(x[1] for x in path):
            raise Bad(f"the listing of the proof of h{i} of {case} leaves out a step at the end")
        ctx.step(4)
    if [set(map(id, h.dependencies)) for h in hs] != before:
        raise Bad(f"asking about {case} changed the dependencies")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Hypothesis_Set(hs).list_proofs()
    names = sorted(re.findall(r"\bh\d+\b", out.getvalue()))
    if sorted(set(names)) != sorted(h.name for h in hs):
        raise Bad(f"listing the proofs of {case} names {names}")
    refs = [mkref(y) for y in ys]
    for r in range(k + 1):
        m = Reference.max_year(tuple(refs[:r]))
        yr = [year_of(y) for y in ys[:r]]
        want = -1 if not yr else ("Unknown date" if None in yr else max(yr))
        if m != want:
            raise Bad(f"latest year of {ys[:r]}: {m}, expected {want}")
        ctx.step()
    ctx.state((k, es))
    ctx.outcome((k, len(es)))


FORMS = ["one", "list", "set", "tuple", "gen", "hset", "self", "other", "rec"]


def form_cases(tier):
    for n in (1, 2, 3):
        for c in product(range(len(FORMS)), range(2), repeat=n):
            yield [list(c[2 * i:2 * i + 2]) for i in range(n)]
    for n, c in enumerate(product(range(len(FORMS)), repeat=4)):
        for t in range(16):
            yield [[f, t >> i & 1] for i, f in enumerate(c)]


def form(case, ctx):
    hs = [Hypothesis(f"h{i}", TYPES[i % 3], D(i), "p", mkref(1950)) for i in range(12)]
    M.rank(hs)
    base = {hs[0], hs[1]}
    S = [Hypothesis_Set(base), None]
    S[1] = copy.copy(S[0])
    model = [{0, 1}, {0, 1}]
    n = 2
    for f, t in case:
        f = FORMS[f]
        a, b = n, n + 1
        n += 2
        new = {a, b}
        if f == "one":
            S[t].add_hypotheses(hs[a]); new = {a}
        elif f == "list":
            S[t].add_hypotheses([hs[a], hs[b], hs[a]])
        elif f == "set":
            s = {hs[a], hs[b]}
            S[t].add_hypotheses(s)
        elif f == "tuple":
            S[t].add_hypotheses((hs[a], hs[b]))
        elif f == "gen":
            S[t].add_hypotheses(h for h in (hs[a], hs[b]))
        elif f == "hset":
            x = Hypothesis_Set([hs[a], hs[b]])
            S[t].add_hypotheses(x)
            x.add_hypothesis(hs[11])
        elif f == "self":
            S[t] = Hypothesis_Set(S[t]); new = set()
        elif f == "other":
            S[t].add_hypotheses(S[1 - t]); new = set(model[1 - t])
        elif f == "rec":
            S[t].add_hypothesis(hs[0]); new = set()
        model[t] |= new
        for i in (0, 1):
            if {id(h) for h in S[i]} != {id(hs[j]) for j in model[i]} or len(S[i]) != len(model[i]):
                raise Bad(f"after {case}: set {i} holds {S[i].to_list()}, expected {sorted(model[i])}")
        ctx.step()
    if len(Hypothesis_Set()) != 0 or base != {hs[0], hs[1]}:
        raise Bad(f"{case} changed an unrelated set")
    ctx.state((sorted(model[0]), sorted(model[1])))
    ctx.outcome((len(model[0]), len(model[1])))


def groups(tier):
    return [Group("selection", filt_cases, filt), Group("proof-graphs", graph_cases, graph), Group("additions", form_cases, form)]
