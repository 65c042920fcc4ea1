"""The shipped derivations (derived.py), loaded without running the derivation the file
runs when it is imported."""
import ast
import contextlib
import io
import os
from fractions import Fraction as F
from mc import hyps as M
from mc.core import Bad
from mc.ratf import exact

SRC = "/repo/blueprint/src/python/derived.py"
_mod = {}


def derived():
    if not _mod:
        tree = ast.parse(open(SRC, encoding="utf-8").read())
        tree.body = [n for n in tree.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
        _mod["__name__"] = "derived"
        _mod["__file__"] = SRC
        exec(compile(tree, SRC, "exec"), _mod)
    return _mod


def ordered(order):
    """fix the order in which the literature is iterated: as recorded, or reversed"""
    db = sorted(derived()["literature"].hypotheses, key=lambda h: (h.__dict__.setdefault("_mc_first", h.__dict__.get("_mc_rank", 0))))
    if order == "reversed":
        db = db[::-1]
    elif order == "alternating":
        db = db[::2] + db[1::2][::-1]
    elif order == "by name":
        db = sorted(db, key=lambda h: (h.name, h._mc_first))
    M.rank(db)
    s = derived()["literature"].hypotheses
    everything = list(s)
    s.clear()
    for h in sorted(everything, key=lambda h: h.__dict__["_mc_rank"]):
        s.add(h)


def run(fn, *args, **kw):
    """result and what was printed"""
    d = derived()
    if fn not in d:
        raise Bad(f"derived.py has no {fn}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = d[fn](*args, **kw)
    return r, out.getvalue()


def flat(hs):
    for h in hs:
        if isinstance(h, (list, tuple)):
            yield from flat(h)
        else:
            yield h


def num(x):
    v = exact(x)
    return v if v is not None else x


def value(d, x):
    v = d.at(x)
    e = exact(v)
    return e if e is not None else float(v)


def same(a, b, tol=1e-12):
    if a is None or b is None:
        return a is b
    if isinstance(a, F) and isinstance(b, F):
        return a == b
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def compare(hs, spec, ctx, what, window=None, at_most=False):
    """hs: estimates (with .data.interval and .data.at); spec: [(function, a, b)], the
    published pieces (smallest one applies).  The value at interior points of every cell
    cut out by all end points must be the published one."""
    hs = [h.data for h in flat(hs)]
    ends = set()
    for _, a, b in spec:
        ends |= {a, b}
    for d in hs:
        ends |= {num(d.interval.x0), num(d.interval.x1)}
    ends = sorted(ends, key=float)
    if window is not None:
        ends = sorted({x for x in ends if window[0] <= x <= window[1]} | set(window), key=float)
    pts = []
    for a, b in zip(ends, ends[1:]):
        if float(b) - float(a) < 1e-11:
            continue
        A = a if isinstance(a, F) else F(float(a)).limit_denominator(10 ** 9)
        B = b if isinstance(b, F) else F(float(b)).limit_denominator(10 ** 9)
        for t in (F(1, 53), F(2, 5), F(1, 2), F(5, 7), F(52, 53)):
            pts.append((A, B, A + (B - A) * t))
    for A, B, x in pts:
        w = min((f(x) for f, a, b in spec if float(a) < float(x) < float(b)), default=None)
        g = None
        for d in hs:
            if float(d.interval.x0) <= float(x) < float(d.interval.x1):
                v = value(d, x)
                g = v if g is None else min(g, v)
        ctx.step()
        if w is None and g is None:
            continue
        if at_most and g is not None and w is not None and float(g) <= float(w):
            continue
        if not same(g, w):
            raise Bad(f"{what}: the bound proved at {x} ~ {float(x):.6f} is {g}, published {w}")
        ctx.state((what, A, B))
