#!/usr/bin/env python3
"""fixcommit.py PROPERTY "subject without fix:" "what failed": commits the working
tree of /repo as a repair (unless already committed) and records it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, subj, what = sys.argv[1:4]
subj = "fix: " + subj
if subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode:
    subprocess.run(["git", "-C", "/repo", "commit", "-qam", subj], check=True)
p = V + "/bin/fix_properties.json"
m = [x for x in json.load(open(p)) if x["subject"] != subj] + [{"property": prop, "subject": subj, "what": what}]
json.dump(m, open(p, "w"), indent=1)
subprocess.run([sys.executable, V + "/bin/record_fix.py"], check=True)
