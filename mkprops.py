"""Writes properties.jsonl and MANIFEST.json from props/*.py-literal entries (one dict per property)."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
for f in sorted(glob.glob(os.path.join(here, "props", "C*.py"))):
    p = eval(open(f).read())
    if "anchors" not in p:  # short form
        p["anchors"] = {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), x)) for x in p.get("state", [])],
                        "mechanism": [dict(zip(("name", "where"), x)) for x in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}
        p["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["quant"]}
    P.append(p)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not glob.glob(os.path.join(here, "checks", p["id"].lower() + "_*.py")):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the unmodified public API imported from /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na], "not claimed")
