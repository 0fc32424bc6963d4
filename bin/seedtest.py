#!/usr/bin/env python3
"""Development aid: take one planted change through build, tests, demo and checks.
   seedtest.py ID... [--no-tests]   (applies the patch to /repo and undoes it)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", []) or [])
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json"))
    return d
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
notests = "--no-tests" in sys.argv
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    res = {}
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(i, "patch does not apply", a.stderr)
        continue
    try:
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-1500:])
        if not notests:
            t = tests()
            res["failed_tests"] = t["failed"]
            res["passed"] = len(t["passed"])
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        res["demo_bug"] = r.returncode
        c = sh(f"python3 bin/check.py --property {meta['property']}", cwd=V)
        res["check"] = c.returncode
        res["out"] = c.stdout.strip().split("\n")[0][:160]
        if c.returncode == 2:
            print(c.stderr[-800:])
    finally:
        sh("git -C /repo checkout -- .")
    ok = res["demo_clean"] == 0 and res["demo_bug"] != 0 and res["build"] == 0 and not res.get("failed_tests")
    print(i, meta["property"], "VALID" if ok else "INVALID", "CAUGHT" if res["check"] == 1 else "MISSED", res, flush=True)
sh("bash /opt/vp/build.sh")
