#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and properties.conf.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/bin/properties.conf.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/bin/not_applicable.json"))
checks = []
for p in props:
    i = p["id"]
    if i not in conf:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 bin/check.py --property {i} --tier quick",
        "thorough_cmd": f"python3 bin/check.py --property {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "Quint specification (executable state machine) + model-based replay of its behaviours into the real code",
        "level": "model_checking",
        "level_note": conf[i].get("note", "Behaviours sampled from the specification's simulator (seeded), every step's observation compared with the real code; bounds in DESIGN.md. Trusts the Quint simulator, the adapter and the compiler."),
    })
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the replayer uses the public interface only", "source_commits": []},
     "checks": checks,
     "not_applicable": [x for x in na if x["property"] not in conf] +
       [{"property": p["id"], "reason": "check under construction"} for p in props
        if p["id"] not in conf and p["id"] not in {x["property"] for x in na}],
     "notes": "Specification language: Quint 0.32 (see DESIGN.md). One specification module per part of the library under spec/, adapters under harness/."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
