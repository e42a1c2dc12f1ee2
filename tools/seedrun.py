#!/usr/bin/env python3
"""Runs checks against planted bugs:  seedrun.py [-a] ID...   (-a: every check, not the bug's own only)

Applies each patch to /repo, runs the check(s), and undoes it.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import REG  # noqa: E402
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(V, "seeded")))
git = lambda *a: subprocess.run(["git", "-C", "/repo"] + list(a), check=True)
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    git("apply", d + "/patch.diff")
    try:
        for p in (sorted(REG) if every else [meta["property"]]):
            r = subprocess.run(["python3", V + "/tools/check.py", p, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("ERROR") or l.startswith("OK ")]
            if every and r.returncode == 0:
                continue
            print("%-4s %s exit %d %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 else "missed"), " ".join(line)[:200], flush=True)
    finally:
        git("checkout", "--", ".")
