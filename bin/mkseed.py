#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py writes seeded/<id>/ from a description:
   SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ body)]
The demo body fills `int run()` : returns 0 when the behaviour is right."""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -Iinclude -I_build/Debug/include -I/usr/include/eigen3 "$D/demo.cpp" -L_build/src -lstate-observation \\
  -Wl,-rpath,"$PWD/_build/src" -o "$T/demo" || exit 2
cd "$T" && timeout 100 ./demo
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open("/repo/" + f).read()] * 2)
        assert t[1].count(old) == 1, (s["id"], f, t[1].count(old), old)
        files[f] = [t[0], t[1].replace(old, new)]
    out = ""
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(
            a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.cpp", "w").write(ns.get("PRE", "") + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
