#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements live)."""
import json, os, sys
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p, sort_keys=True) + "\n")
print(len(P), "properties")
