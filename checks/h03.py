"""H03: a bibliography file is read as it is written."""
from itertools import product
import os, tempfile, re
from mc.core import Group, Bad, windows
from reference import Reference_Manager

ID = "H03"
COVERAGE = (
    "every bibliography of one or two entries (and 3 to 9 along cyclic walks) over a grammar: entry type spelling, field order, delimiters of each "
    "field (braces, double braces, quotes, bare numbers), author lists in both name orders, titles with nested "
    "braces, commas, equal signs, @ and quotes, years with a range, missing fields, trailing commas and layouts; every "
    "label, type, author string, year and title is compared with the generating syntax tree, look-ups by author/year are "
    "complete; and the repository's own bibliography: every entry is loaded with the label and year in its text.  state = "
    "distinct reference read, transition = one field compared, trace = one file"
)

AUTHORS = [
    ("Bourgain, Jean", "Bourgain"), ("Jean Bourgain", "Bourgain"),
    ("Heath-Brown, D. R. and Ivi\\'{c}, A.", "Heath-Brown--Ivi\\'{c}"),
    ("E. Bombieri and Iwaniec, H. and M. N. Huxley", "Bombieri--Iwaniec--Huxley"),
    ("{van der Corput}, J. G.", "{van der Corput}"),
    ("K. Ford  and  Green, Ben", "Ford--Green"),
    ("Andersen, A. B. and\n Brandt, C.", "Andersen--Brandt"),
]
TITLES = ["On $\\zeta(1/2+it)$", "A, B and {C}", "f = g, {h={i}}", "The M{\\\"o}bius function", "{Nested {deep} title}", "Sum\nover lines, two", "Talks @ {Oberwolfach}"]
YEARS = [("1995", 1995), ("2010/11", 2010)]
TYPES = ["article", "ARTICLE", "InCollection"]
LAYOUTS = [("{", ",\n  ", "\n}\n"), ("{", ",", "}"), ("{", ",\n\t", ",\n}\n\n"), ("{", ", ", "}\n% see also the 5\" disk\n")]


def delim(s, d, quoted_ok=True):
    if d == "b":
        return "{" + s + "}"
    if d == "q":
        return '"' + s + '"'
    return s


def render(e, layout):
    o, sep, end = LAYOUTS[layout]
    t, label, fields, eq = e
    return f"@{t}{o}{label}{sep}" + sep.join(f"{k}{eq}{v}" for k, v in fields) + end


def entry(spec, label):
    t, a, da, ti, dt, y, dy, order, eq = spec
    author, wa = AUTHORS[a] if a is not None else (None, None)
    title = TITLES[ti] if ti is not None else None
    fields = []
    if author is not None:
        fields.append(("Author" if order % 2 else "author", delim(author, da)))
    if title is not None:
        fields.append(("title", delim(title, dt)))
    if y is not None:
        fields.append(("YEAR" if order % 2 else "year", delim(YEARS[y][0], dy)))
    fields.append(("note", "{x, y = {z}}"))
    fields = fields[order:] + fields[:order]
    want = {"type": TYPES[t].lower(), "author": wa if author is not None else "Unknown author",
            "year": YEARS[y][1] if y is not None else "Unknown date",
            "title": " ".join(l.strip() for l in title.split("\n")) if title is not None else None}
    return (TYPES[t], label, fields, [" = ", "="][eq]), want


def load(text):
    fd, p = tempfile.mkstemp(suffix=".bib")
    try:
        os.write(fd, text.encode())
        os.close(fd)
        rm = Reference_Manager(p)
        rm.load()
        return rm
    finally:
        os.remove(p)


def specs(small):
    for t, a, da, ti, dt, y, dy, order, eq in product(
            range(3) if not small else [0], list(range(len(AUTHORS))) + [None], "bq",
            (list(range(len(TITLES))) + [None]) if not small else [1, 2, 5, 6, None], "bq", [0, 1, None], "bqn",
            range(4) if not small else [0, 3], range(2) if not small else [0]):
        if (a is None and da == "q") or (ti is None and dt == "q") or (y is None and dy != "b"):
            continue
        if dy == "n" and y == 1:          # a bare field is a number
            continue
        yield [t, a, da, ti, dt, y, dy, order, eq]


def one_cases(tier):
    for s in specs(tier == "quick"):
        for l in range(len(LAYOUTS)):
            yield [[s], l]


def two_cases(tier):
    base = [s for i, s in enumerate(specs(True)) if s[7] == 0 and s[3] in (1, None) and s[4] == "b"]
    for s in base:
        for r in base:
            if tier == "quick" and r[2] != s[2]:
                continue
            yield [[s, r], 0 if tier == "quick" else (s[1] or 0) % 3]


def many_cases(tier):
    base = [s for i, s in enumerate(specs(True))]
    for n, c in enumerate(windows(len(base), (3, 4, 6, 9), (1, 7, 31, 101), range(0, len(base), 40 if tier == "quick" else 5), rev=False)):
        yield [[base[i] for i in c], n % 3]


def run(case, ctx):
    ss, l = case
    ents = [entry(s, f"lab_{i}:{1990 + i}") for i, s in enumerate(ss)]
    text = "".join(render(e, l) for e, _ in ents)
    rm = load(text)
    if set(rm.refs) != {e[1] for e, _ in ents}:
        raise Bad(f"labels {sorted(rm.refs)} read from {text!r}")
    for e, w in ents:
        r = rm.get(e[1])
        got = {"type": r.reftype.strip(), "author": r.author(), "year": r.year(), "title": r.entries.get("title")}
        if w["title"] is not None and got["title"] is not None:
            got["title"] = re.sub(r"\s+", " ", got["title"])
        if got != w or r.label != e[1]:
            raise Bad(f"{text!r} is read as {got}, expected {w}")
        if str(w["year"]) not in repr(r) or w["author"] not in repr(r):
            raise Bad(f"{w} is shown as {r!r}")
        if not r.is_literature() or r.is_derived() or r.is_conjectured() or r.is_trivial() or r.is_classical():
            raise Bad(f"{r} is not classified as literature")
        ctx.step(4)
        ctx.state(got)
    for a in ["Any", "Bourgain", "Heath", "nobody"]:
        for y in ["Any", 1995, 2010, 1]:
            got = sorted(r.label for r in rm.find_all(a, y))
            want = sorted(e[1] for e, w in ents if (a == "Any" or a in w["author"]) and y in ("Any", w["year"]))
            if got != want:
                raise Bad(f"find {a} {y} in {text!r}: {got}, expected {want}")
            ctx.step()
    try:
        rm.get("absent")
        raise Bad("a missing label was found")
    except ValueError:
        pass
    ctx.outcome(tuple(w["author"] for _, w in ents)[:1])


def own_cases(tier):
    text = open("/repo/blueprint/src/references.bib").read()
    for i, m in enumerate(re.finditer(r"^\s*@(\w+)\s*\{\s*([^,\s]+)\s*,(.*?)(?=^\s*@\w+\s*\{|\Z)", text, re.S | re.M)):
        y = re.search(r"""[\s,]year\s*=\s*[{"]*(\d{4})""", m.group(3), re.I)
        yield [m.group(1).lower(), m.group(2), int(y.group(1)) if y else None, bool(re.search(r"[\s,]author\s*=", m.group(3), re.I))]


_own = []


def own(case, ctx):
    if not _own:
        _own.append(Reference_Manager("/repo/blueprint/src/references.bib"))
        _own[0].load()
    t, label, year, author = case
    r = _own[0].get(label)
    if r.reftype.strip() != t or r.year() != (year if year is not None else "Unknown date"):
        raise Bad(f"{label} is read as {r.reftype} of {r.year()}, the file says {t} of {year}")
    if (r.author() == "Unknown author") == author:
        raise Bad(f"author of {label}: {r.author()}")
    ctx.step(3)
    ctx.state(case)
    ctx.outcome(year)


def full(cases):
    """cheap enough for every change"""
    return lambda tier: cases("thorough")


def groups(tier):
    return [Group("one-entry", full(one_cases), run), Group("two-entries", full(two_cases), run), Group("many entries", full(many_cases), run),
            Group("own", own_cases, own)]
