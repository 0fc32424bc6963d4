#!/usr/bin/env python3
"""record_fix.py: rebuilds the list of repaired defects in known-findings.json from
the "fix:" commits of /repo; FIXPROPS maps a commit subject to its property."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/bin/fix_properties.json"))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split("\t")
    if s.startswith("fix:"):
        k = [x for x in m if x["subject"] == s]
        if not k:
            print("no property for", h, s)
            continue
        out.append("fixed: property=%s %s %s" % (k[0]["property"], h, k[0]["what"]))
p = V + "/known-findings.json"
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
