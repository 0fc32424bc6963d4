#!/usr/bin/env python3
"""Checks that the tools are there and that every specification typechecks."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("quint", "g++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for f in sorted(glob.glob(V + "/spec/*.qnt")):
    r = subprocess.run(["quint", "typecheck", f], capture_output=True, text=True, cwd=V + "/spec")
    if r.returncode:
        sys.exit(f + "\n" + r.stdout + r.stderr)
print("setup ok")
