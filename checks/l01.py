"""L01: large value estimates mean what their bounds say, also after raising to a power."""
from itertools import permutations, product
from fractions import Fraction as F
import re
from mc.core import Group, Bad, windows
from mc import hyps as M, lvs as V
import large_values as lv
import zeta_large_values as zlv

ID = "L01"
COVERAGE = (
    "every ordered list of up to 3 (thorough: 4) affine bounds (and of 4 to 8 along cyclic walks) out of a family (crossing, parallel, equal, constant, zero, negative; and every ordered pair and, sharing coefficients, triple from a grid of coefficients), built by every "
    "constructor of large value estimates: the feasible tuples (sigma, tau, rho) are compared with rho <= max(bounds) on the "
    "conventional box at every face of the arrangement of all bounds and box sides, the printed bounds are parsed and compared, "
    "and every chain of up to two powers maps the set exactly by (sigma, tau, rho) -> (sigma, k tau, k rho), leaves the original as it "
    "was and cites it.  state = distinct feasible set on its arrangement, transition = one tuple compared, trace = one estimate"
)
ASSUMPTIONS = []

FAM = [
    (2, -2, 0), (1, -2, 1), (4, -6, 1), (0, 0, 1), (0, 0, 0), (F(18, 5), -4, 0), (F(12, 5), -4, 1), (1, 0, 0), (-1, 0, F(1, 2)), (0, 1, 0),
    (2, -2, 0),
]
POWERS = [F(2), F(3), F(3, 2)]
GRID = [(a, b, c) for a in (1, 2) for b in (0, -2) for c in (0, 1, F(1, 2))]     # bounds sharing two of their coefficients
KINDS = ["lv", "zlv", "classical", "conjecture"]


def parse(s):
    """value of a printed affine expression in sigma and tau as coefficients"""
    s = s.replace(" ", "").replace("*", "").replace("−", "-")
    if s == "":
        raise Bad("an affine bound is printed as an empty string")
    out = [F(0), F(0), F(0)]
    pos = 0
    for m in re.finditer(r"([+-]?)(\d+(?:/\d+)?)?([στ]?)", s):
        if m.end() == m.start():
            continue
        if m.start() != pos:
            raise Bad(f"cannot read the printed bound {s!r}")
        pos = m.end()
        sign, num, var = m.groups()
        if num is None and not var:
            raise Bad(f"cannot read the printed bound {s!r}")
        c = F(num) if num else F(1)
        out[{"": 0, "σ": 1, "τ": 2}[var]] += -c if sign == "-" else c
    if pos != len(s):
        raise Bad(f"cannot read the printed bound {s!r}")
    return tuple(out)


def printed(text):
    m = re.fullmatch(r"\s*ρ\s*(?:<=|≤|\\leq)\s*(.*)", text)
    if not m:
        raise Bad(f"unexpected print {text!r}")
    body = m.group(1).strip()
    if body.startswith("max(") and body.endswith(")"):
        return [parse(x) for x in body[4:-1].split(",")]
    return [parse(body)]


def build(kind, bounds):
    b = [[F(x) for x in r] for r in bounds]
    if kind == "lv":
        return V.lv(b), "Large value estimate"
    if kind == "zlv":
        return V.zlv(b), "Zeta large value estimate"
    if kind == "classical":
        return lv.classical_LV_estimate(b), "Large value estimate"
    return lv.conjectured_LV_estimate(b, "Some conjecture"), "Large value estimate"


def lists(n):
    for k in range(1, n + 1):
        yield from permutations(range(len(FAM)), k)


def cases(tier):
    for idx in lists(3):
        if tier != "quick" or len(idx) < 3 or max(idx) < 7:
            yield list(idx)
    yield from windows(len(FAM), (4, 5, 6, 8), (1, 2, 3, 4) if tier != "quick" else (1, 3), rev=False)
    if tier != "quick":
        for idx in permutations(range(len(FAM)), 4):
            if idx[0] < idx[3]:
                yield list(idx)
    for idx in permutations(range(len(GRID)), 2):
        yield [i + 100 for i in idx]
    for i, j, k in permutations(range(len(GRID)), 3):
        if tier != "quick" or sum(x != y for x, y in zip(GRID[i], GRID[j])) == 1 and sum(x != y for x, y in zip(GRID[j], GRID[k])) == 1:
            yield [i + 100, j + 100, k + 100]


def run(case, ctx):
    bounds = [FAM[i] if i < 100 else GRID[i - 100] for i in case]
    kind = KINDS[sum(case) % 4] if len(case) > 1 else None
    spec = V.maxbound(bounds)
    A = V.arrange([spec])
    for kd in ([kind] if kind else KINDS):
        h, typ = build(kd, bounds)
        if h.hypothesis_type != typ:
            raise Bad(f"{kd} gives a hypothesis of type {h.hypothesis_type}")
        if h.dependencies:
            raise Bad(f"a literature estimate depends on {h.dependencies}")
        want = V.compare(A, h.data.region, spec, f"{kd} with bounds {bounds}", ctx=ctx)
        ctx.state((tuple(bounds), want))
        got = printed(repr(h.data))
        def top(bs, p):
            return max(b[0] + b[1] * p[0] + b[2] * p[1] for b in bs)
        for p in A.points:
            if V.H <= p[0] <= 1 and top(got, p) != top(bounds, p):
                raise Bad(f"{bounds} is printed as {h.data!r}")
        ctx.outcome((kd, len(case)))


def power_cases(tier):
    for idx in lists(2 if tier == "quick" else 3):
        yield list(idx)


def run_power(case, ctx):
    bounds = [FAM[i] for i in case]
    h, _ = build("lv", bounds)
    spec = V.maxbound(bounds)
    for ks in [(k,) for k in POWERS] + ([(F(2), F(3)), (F(3), F(2))] if len(case) < 3 else []):
        cur, s = h, spec
        for k in ks:
            prev = cur
            tr = lv.raise_to_power_hypothesis(k)
            if tr.hypothesis_type != "Large value estimate transform":
                raise Bad(f"the transform has type {tr.hypothesis_type}")
            cur = tr.data.transform(prev)
            s = s.scale(k)
            if cur.hypothesis_type != "Large value estimate" or set(cur.dependencies) != {prev}:
                raise Bad(f"the {k}-th power has type {cur.hypothesis_type} and rests on {cur.dependencies}")
        A = V.arrange([spec, s])
        V.compare(A, cur.data.region, s, f"the power {ks} of {bounds}", ctx=ctx)
        V.compare(A, h.data.region, spec, f"{bounds} after taking the power {ks}")
        ctx.outcome(("power", ks))


def named_cases(tier):
    yield "L2"
    yield "Montgomery"
    yield "trivial"


def run_named(case, ctx):
    if case == "L2":
        h, spec = lv.large_value_estimate_L2, V.maxbound([(2, -2, 0), (1, -2, 1)])
    elif case == "Montgomery":
        h, spec = lv.montgomery_conjecture, V.maxbound([(2, -2, 0)])
    else:
        h = zlv.get_trivial_zlv()
        spec = V.poly([V.BOX[0], V.BOX[1], (-2, 0, 1, 0), V.BOX[3], V.BOX[4], (0, 0, 1, -1)])
    typ = "Zeta large value estimate" if case == "trivial" else "Large value estimate"
    if h.hypothesis_type != typ:
        raise Bad(f"{case} has type {h.hypothesis_type}")
    A = V.arrange([spec], [V.BOX[2], (-2, 0, 1, 0)])
    V.compare(A, h.data.region, spec, f"the {case} estimate", ctx=ctx)
    str(h.data), h.desc()
    ctx.outcome(case)


def groups(tier):
    return [
        Group("bounds", cases, run),
        Group("powers", power_cases, run_power),
        Group("named estimates", named_cases, run_named, chunk=1),
    ]
