#!/usr/bin/env python3
"""Compiles the test packages once, which warms the build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import env, VERIF
from registry import REG
rc = 0
for p in sorted({p for r in REG.values() for p in r["pkgs"]}):
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", os.devnull, "./" + p], cwd=os.path.join(VERIF, "harness"), env=env())
    rc = rc or r.returncode
sys.exit(rc)
