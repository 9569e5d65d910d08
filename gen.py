#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks/specs.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, NA
from checks.specs import SPECS
TECH = {"seq": "model checking: exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model",
        "sched": "model checking: exhaustive exploration of thread schedules of the real code up to a preemption bound"}
with open(V + "/properties.jsonl", "w") as f:
    for p, _ in PROPS:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p, _ in PROPS]
assert len(set(ids)) == len(ids)
na = dict(NA)
m = {"version": 1, "setup_cmd": "python3 vrun.py setup", "checks": [], "not_applicable": []}
hooks = V + "/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
for p, note in PROPS:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 vrun.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vrun.py check " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", TECH[s.get("kind", "seq")]), "level": "model_checking", "level_note": note})
    else:
        assert i in na, i
        m["not_applicable"].append({"property": i, "reason": na[i]})
for i in SPECS:
    assert i in ids, i
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
