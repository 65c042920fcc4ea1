"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "blueprint/src/python/"
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, state=None, observe=None,
         tech=None, note=None, na=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": tests,
        "anchors": {
            "files": [SRC + f for f in files],
            "mechanism": [{"name": n, "where": SRC + w} for n, w in mechanism],
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, tech, note, na))


exec(open(os.path.join(HERE, "tools", "prop_texts.py")).read())

ids = [p[0]["id"] for p in P]
assert len(ids) == len(set(ids))
checks, na = [], []
for d, tech, note, why in P:
    assert len(d["title"]) <= 80, d["title"]
    i = d["id"]
    if why is None and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech, "level": "model_checking", "level_note": note,
        })
    else:
        na.append({"property": i, "reason": why or "its check is not built yet"})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check explores a finite, fully enumerated space of operation sequences or inputs on the real code, "
              "comparing each step with an exact reference model. No hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
