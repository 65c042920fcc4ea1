"""Bounded exhaustive exploration: the driver shared by every check.

A check module defines
    ID       property id
    TITLE    one line
    groups(tier) -> list of Group
Each Group enumerates a finite list of JSON-able cases (an operation sequence, an input
shape, a history ...) and runs every one of them against the real code in /repo,
comparing each step with a small reference model.  Nothing is sampled; the only use of
VERIF_SEED is to be recorded.
"""
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import contextlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/blueprint/src/python"


class Bad(Exception):
    """The implementation disagrees with the reference model."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig  # stable identification, matched against known_findings.txt


class CaseTimeout(Exception):
    pass


class HarnessError(Exception):
    """The harness itself is wrong: never a verdict on the code."""


class Group:
    """name: str; cases: callable(tier) -> iterable of JSON-able cases;
    run: callable(case, ctx) ; raises Bad on disagreement."""

    def __init__(self, name, cases, run, timeout=120, chunk=None):
        self.name = name
        self.cases = cases
        self.run = run
        self.timeout = timeout
        self.chunk = chunk


class Ctx:
    """Counters of one worker: model states seen, transitions compared, outcomes."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash_key(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        k = str(key)
        self.outcomes[k] = self.outcomes.get(k, 0) + 1


def hash_key(key):
    return int.from_bytes(
        hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"
    )


def fr(x):
    """Exact rational from whatever number type the code hands back."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x)
    try:  # numpy / sympy rationals
        import sympy

        if isinstance(x, sympy.Basic):
            if x.is_Rational:
                return Fraction(int(x.p), int(x.q))
    except ImportError:
        pass
    return Fraction(x)


@contextlib.contextmanager
def quiet():
    """The library prints progress; keep it out of the check's own output."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def _alarm(signum, frame):
    raise CaseTimeout()


class _Result:
    __slots__ = ("n", "states", "transitions", "outcomes", "violations", "samples", "errors")


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fs in reversed(tb):
        if fs.filename.startswith("/repo/"):
            where = f" at {os.path.basename(fs.filename)}:{fs.name}"
            break
    return f"{type(exc).__name__}: {exc}{where}"


def _raised_in_repo(exc):
    """True when the exception left code of /repo (or something it called).  An exception
    born in the harness itself, outside any repo frame, is an error of the harness --
    unless it is a consequence of a malformed result, which the harness reports as Bad."""
    tb = traceback.extract_tb(exc.__traceback__)
    return any(fs.filename.startswith("/repo/") for fs in tb)


def run_case(group, case, ctx):
    """Returns None, or (message, signature) when the property is violated."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(group.timeout)
    try:
        with quiet():
            group.run(case, ctx)
        return None
    except Bad as e:
        return (str(e), e.sig)
    except CaseTimeout:
        return (f"no answer within {group.timeout} s", "timeout")
    except HarnessError:
        raise
    except Exception as e:  # a supported call that crashes is a violation
        return ("the call failed: " + _describe(e), "crash")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


MAX_VIOLATIONS = 40

# once a violation is known there is no need to go on for ever: the exploration stops at the
# first violation after this many seconds (a violating tree may also be a very slow one)
STOP_AFTER = float(os.environ.get("MC_STOP_AFTER", "420"))
_T0 = time.time()
_FOUND = None


def _enough():
    return _FOUND is not None and _FOUND.value > 0 and time.time() - _T0 > STOP_AFTER


def _work(args):
    check, gname, tier, part, nparts = args
    groups = {g.name: g for g in check.groups(tier)}
    g = groups[gname]
    ctx = Ctx()
    n = 0
    violations = []
    samples = []
    for i, case in enumerate(g.cases(tier)):
        if i % nparts != part:
            continue
        if _enough():
            break
        n += 1
        if len(samples) < 2 and part == 0:
            samples.append(case)
        v = run_case(g, case, ctx)
        if v is not None:
            violations.append((i, case, v[0], v[1]))
            if _FOUND is not None and (_CHECK_ID, v[1]) not in load_known():
                _FOUND.value = 1
            if len(violations) >= MAX_VIOLATIONS:
                break
    return (gname, part, n, ctx.states, ctx.transitions, ctx.outcomes, violations, samples)


def load_known():
    """known_findings.txt: lines 'finding: property=<id> sig=<signature> <text>' and
    'fixed: property=<id> <commit> <text>'.  Only 'finding' lines suppress anything."""
    path = os.path.join(VERIF, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                sig = parts[2].split("=", 1)[1]
                text = parts[3] if len(parts) > 3 else ""
                known[(pid, sig)] = text
    return known


def run_check(check, tier, seed):
    t0 = time.time()
    pid = check.ID
    jobs = int(os.environ.get("MC_JOBS", "8"))
    groups = check.groups(tier)
    work = []
    for g in groups:
        nparts = g.chunk if g.chunk is not None else jobs
        for p in range(nparts):
            work.append((check, g.name, tier, p, nparts))

    results = []
    if jobs == 1:
        results = [_work(w) for w in work]
    else:
        import multiprocessing as mp

        ctxm = mp.get_context("fork")
        global _CHECK_WORK, _FOUND, _CHECK_ID
        _CHECK_WORK = work
        _CHECK_ID = pid
        _FOUND = ctxm.Value("i", 0, lock=False)
        with ctxm.Pool(min(jobs, len(work))) as pool:
            # indices only: modules do not pickle
            results = pool.map(_work_idx, range(len(work)), chunksize=1)

    states = set()
    transitions = 0
    traces = 0
    outcomes = {}
    violations = []
    samples = []
    per_group = {}
    for (gname, part, n, st, tr, oc, viol, samp) in results:
        states |= st
        transitions += tr
        traces += n
        pg = per_group.setdefault(gname, {"cases": 0, "outcomes": {}})
        pg["cases"] += n
        for k, v in oc.items():
            pg["outcomes"][k] = pg["outcomes"].get(k, 0) + v
        for (i, case, msg, sig) in viol:
            violations.append((gname, i, case, msg, sig))
        for s in samp:
            samples.append({"group": gname, "case": s})
    gorder = {g.name: i for i, g in enumerate(groups)}
    violations.sort(key=lambda v: (gorder[v[0]], v[1]))

    # vacuity: a group which explored nothing proves nothing
    for g in groups:
        if per_group.get(g.name, {}).get("cases", 0) == 0 and not violations:
            raise HarnessError(f"group {g.name} explored no case")

    known = load_known()
    new = []
    seen_known = {}
    for v in violations:
        key = (pid, v[4])
        if v[4] is not None and key in known:
            seen_known.setdefault(key, v)
        else:
            new.append(v)
    # every listed finding is demonstrated again on this run, or not mentioned
    for key, v in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {known[key]} [{v[4]}]")

    for pg in per_group.values():
        oc = pg["outcomes"]
        pg["distinct_outcomes"] = len(oc)
        if len(oc) > 12:
            top = sorted(oc.items(), key=lambda kv: (-kv[1], kv[0]))[:12]
            pg["outcomes"] = dict(top)

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL if hasattr(check, "LEVEL") else "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "exhaustive": not _enough(),
            "explanation": check.COVERAGE,
            "groups": per_group,
            "samples": samples[:12],
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")

    print(
        f"{pid} {tier}: states={len(states)} transitions={transitions} "
        f"traces={traces} groups={len(groups)} wall={time.time() - t0:.1f}s"
    )
    for name in sorted(per_group, key=lambda n: gorder[n]):
        pg = per_group[name]
        print(f"  {name}: cases={pg['cases']} distinct_outcomes={pg['distinct_outcomes']}")
    rp = os.path.join(VERIF, "replays", f"{pid}.json")
    if not new:
        if os.path.exists(rp):
            os.remove(rp)
        return 0

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    with open(rp, "w") as f:
        json.dump(
            {
                "property": pid,
                "how": f"bash /verif/run.sh {pid} --replay {rp}",
                "violations": [
                    {"group": g, "index": i, "case": c, "message": m, "sig": s}
                    for (g, i, c, m, s) in new[:MAX_VIOLATIONS]
                ],
            },
            f,
            indent=1,
            default=str,
        )
    for (g, i, c, m, s) in new[:5]:
        print(f"  [{g} #{i}] {json.dumps(c, default=str)[:400]}\n      {m[:600]} (sig={s})")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


_CHECK_WORK = None
_CHECK_ID = None


def _work_idx(i):
    return _work(_CHECK_WORK[i])


def replay(check, path):
    data = json.load(open(path))
    bad = 0
    for v in data["violations"]:
        for tier in ("quick", "thorough"):
            gs = {g.name: g for g in check.groups(tier)}
            if v["group"] in gs:
                break
        res = run_case(gs[v["group"]], v["case"], Ctx())
        print(v["group"], json.dumps(v["case"]), "->", "holds" if res is None else f"VIOLATED {res[0]}")
        bad += res is not None
    return 1 if bad else 0


def deep_tuple(x):
    if isinstance(x, (list, tuple)):
        return tuple(deep_tuple(y) for y in x)
    return x


def windows(n, sizes, strides=(1,), starts=None, rev=True):
    """larger selections out of n items: every cyclic walk of the given sizes and strides (coprime to n or short enough not to repeat), both ways"""
    seen = set()
    for z in sizes:
        for d in strides:
            for a in range(n) if starts is None else starts:
                c = tuple((a + d * i) % n for i in range(z))
                for w in ((c, c[::-1]) if rev else (c,)):
                    if len(set(w)) == z and w not in seen:
                        seen.add(w)
                        yield list(w)
