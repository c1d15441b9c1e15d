"""Write MANIFEST.json from the check modules and the not-applicable list."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(HERE, "tools", "na.tsv")) if l.strip())
checks = []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) and i not in na:
        info = importlib.import_module("checks." + i.lower()).INFO
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": info["technique"], "level": info["level"], "level_note": info["note"]})
    elif i not in na:
        na[i] = "no check yet"
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
