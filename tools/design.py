"""Writes /verif/DESIGN.md from tools/design_text.py (prose), tools/prop_texts.py, the
COVERAGE/ASSUMPTIONS of the checks and the planted bugs."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "tools/design_text.py")).read(), T)


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("COVERAGE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


out = [T["HEAD"].strip(), ""]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
bugs = {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out.append("## Per property\n")
for p in props:
    c = consts(os.path.join(V, "checks", p["id"].lower() + ".py"))
    oracle, cost = T["ORACLE"][p["id"]]
    out += [f"### {p['id']} — {p['title']}", "", p["statement"], "",
            f"*Enumerated and compared.* {c['COVERAGE']}", "",
            f"*Oracle.* {oracle}", ""]
    if c.get("ASSUMPTIONS"):
        out += ["*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
    out += [f"*Bounds and cost.* {man[p['id']]['level_note']}. {cost}", "",
            "*Beyond the tests.* " + T["BEYOND"](p) + ".", ""]
    if p["id"] in bugs:
        out += ["*Planted bugs.* " + "; ".join(f"`{i}` ({m['what_it_breaks']})" for i, m in bugs[p["id"]]) + ".", ""]
out.append(T["TAIL"].strip())
out += ["", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for pid in sorted(bugs):
    for i, m in bugs[pid]:
        out.append(f"| `{i}` | {pid} | {m['needs']} | {T['CAUGHT'].get(i, pid + ' quick')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
