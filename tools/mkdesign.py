"""Write DESIGN.md: tools/design_head.md, one section per property from the checks' own descriptions, the planted bugs, the findings."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
rows = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}
notes = {}
cur = None
for l in open(os.path.join(HERE, "tools", "design_notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
    elif cur:
        notes[cur] = notes.get(cur, "") + l
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## The properties and how each is decided", ""]
for p in rows:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if i in na:
        out += ["*Not claimed*: %s" % na[i], ""]
        continue
    info = importlib.import_module("checks." + i.lower()).INFO
    out += ["*Technique*: %s." % info["technique"], "", "*What is analysed*: %s" % info["explanation"], "", "*Rule and bounds*: %s" % info["note"], ""]
    if info["assumptions"]:
        out += ["*Assumptions*: %s." % "; ".join(info["assumptions"]).rstrip("."), ""]
    if p.get("why_tests_cant"):
        out += ["*Why tests cannot settle it*: %s" % (p["why_tests_cant"]), ""]
    if i in notes:
        out += [notes[i].strip(), ""]
out += ["## Planted bugs", "", "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s: %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], caught.get(d, "?")))
out += ["", "## Findings", ""]
for l in open(os.path.join(HERE, "known_findings.txt")):
    if not l.startswith("#") and l.strip():
        out.append("- " + l.strip())
out += ["", notes.get("end", "").strip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
