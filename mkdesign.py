"""Writes DESIGN.md from DESIGN_HEAD.md, props/*.py, the checks' BOUND texts, KNOWN_FINDINGS.txt and seed_results.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(here, "DESIGN_HEAD.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
seeds = json.load(open(os.path.join(here, "seed_results.json"))) if os.path.exists(os.path.join(here, "seed_results.json")) else {}
for f in sorted(glob.glob(os.path.join(here, "props", "C*.py"))):
    p = eval(open(f).read())
    chk = glob.glob(os.path.join(here, "checks", p["id"].lower() + "_*.py"))
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    if "na" in p:
        out += ["*Not claimed:* " + p["na"], ""]
        continue
    anchors = p.get("files") or p["anchors"]["files"]
    out += [f"* **Code**: {', '.join(anchors)}", f"* **Why tests cannot settle it**: {p['why_tests_cant']}"]
    if chk:
        src = open(chk[0]).read()
        b = re.search(r'BOUND = """(.*?)"""', src, re.S)
        out += [f"* **Check**: `{os.path.basename(chk[0])}` — {p['technique']}",
                f"* **Enumerated space and oracle**: {' '.join(b.group(1).split())}"]
    out += [f"* **Strength and limits**: {p['level_note']}"]
    mine = [i for i in sorted(seeds) if seeds[i]["property"] == p["id"]]
    if mine:
        out += ["* **Planted bugs**: " + "; ".join(f"`{i}` {seeds[i]['result']}" for i in mine)]
    out += [""]
out += ["## Genuine defects", "", "Repaired in /repo (one `fix:` commit each):", ""]
kf = open(os.path.join(here, "KNOWN_FINDINGS.txt")).read().splitlines()
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append(f"* {m[1]} `{m[2]}` {m[3]}")
out += ["", "Recorded as known findings (KNOWN_FINDINGS.txt), printed by the check, not repaired:", ""]
seen = set()
for l in kf:
    if l.startswith("finding:"):
        head, _, text = l[8:].partition("#")
        h = json.loads(head)
        out.append(f"* {h['property']} `{h['family']} {json.dumps(h['params'])}`: {text.strip()}")
tail = os.path.join(here, "DESIGN_TAIL.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
