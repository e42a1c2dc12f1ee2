#!/usr/bin/env python3
"""Confirms planted bugs:  seedcheck.py ID...   (all: no arguments)

For each: the patch applies to /repo's HEAD and only removes lines of the original commit, the result
builds and passes the stable tests, the demo passes without it and fails with it.  Works in a scratch
copy outside /repo and /verif.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    w = tempfile.mkdtemp(prefix="seedcheck-")
    r = os.path.join(w, "repo")
    bad = 0
    try:
        for i in ids:
            d = os.path.join(V, "seeded", i)
            probs = []
            meta = json.load(open(os.path.join(d, "meta.json")))
            for k in ("property", "needs", "what_it_breaks"):
                if not meta.get(k):
                    probs.append("meta lacks " + k)
            if os.path.exists(r):
                shutil.rmtree(r)
            shutil.copytree(REPO, r)
            base = sh("git rev-list --max-parents=0 HEAD", r).stdout.strip()
            demo = "bash %s/demo.sh" % d
            clean = sh(demo, r)
            if clean.returncode != 0:
                probs.append("demo fails on the clean tree:\n" + clean.stdout[-1500:])
            a = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), r)
            if a.returncode != 0:
                probs.append("does not apply: " + a.stdout)
            else:
                own = removed = 0
                cur = None
                for f in sh("git diff --name-only", r).stdout.split():
                    if f.endswith("_test.go"):
                        probs.append("touches a test")
                    bl = sh("git blame -l -s HEAD -- %s" % f, r).stdout.split("\n")
                    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- %s" % f, r).stdout, re.M):
                        n = int(m.group(2) or 1)
                        for ln in range(int(m.group(1)), int(m.group(1)) + n):
                            removed += 1
                            if not bl[ln - 1].lstrip("^").startswith(base[:39]):
                                own += 1
                if own:
                    probs.append("removes %d line(s) of ours" % own)
                if not removed:
                    probs.append("changes no existing line")
                b = sh(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | grep -c XXX; go build ./...", r)
                if b.returncode != 0:
                    probs.append("does not build: " + b.stdout)
                t = sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json" % (r, w, w, w), r)
                try:
                    passed = set(json.load(open(w + "/out.json"))["passed"])
                    missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
                    if missing:
                        probs.append("stable tests fail: %s" % sorted(missing))
                except Exception as e:  # noqa
                    probs.append("no test results: %s" % e)
                p = sh(demo, r)
                if p.returncode == 0:
                    probs.append("demo passes with the patch")
                elif "FAIL" not in p.stdout or "build failed" in p.stdout:
                    probs.append("demo fails otherwise than by its test:\n" + p.stdout[-1500:])
            print("%-4s %s %s" % (i, "BAD" if probs else "ok", "; ".join(probs)), flush=True)
            bad += bool(probs)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(1 if bad else 0)

main()
