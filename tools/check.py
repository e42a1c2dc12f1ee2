#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> [quick|thorough] [--replay FILE]

Builds the property's test package from /repo's working tree, runs every test of the property
(each in its own process, in a scratch directory), merges the case statistics into
evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import REG  # noqa: E402

REPO = "/repo"

def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off", GONOSUMDB="*")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("GODEBUG", None)
    return e

def log(*a):
    print(*a, flush=True)

def build(pkg, out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        log("ERROR: the harness does not build against /repo")
        sys.exit(2)

MOND = re.compile(r"github\.com/zhiqiangxu/(mondis|qrpc)[./@]|/repo/[a-z]")

def hanging(out):
    """-> a call from the harness into mondis has been blocked for minutes when the test timed out"""
    for g in re.split(r"\n\n", out[out.index("panic: test timed out"):]):
        m = re.match(r"\s*goroutine \d+ [^\n]*\[[^\]\n]*?(\d+) minutes", g)
        if not m or int(m.group(1)) < 3:
            continue
        inner = g.find("github.com/zhiqiangxu/mondis/")
        if 0 <= inner < g.find("verif/harness/", inner) and ".(*Server).Start(" not in g:
            return True
    return False

def classify(rc, out):
    """-> 'ok' | 'violation' | 'error', reason"""
    if rc == 0:
        return "ok", ""
    if "VERIF-INFRA:" in out or rc == 3:
        return "error", "infrastructure"
    if "VERIF-VIOLATION:" in out:
        return "violation", "reported"
    if rc < 0:
        return "error", "killed by signal %d" % -rc
    if "panic: test timed out" in out:
        if hanging(out):
            return "violation", "a call does not return"
        return "error", "timed out"
    if re.search(r"^fatal error: (runtime: )?out of memory|cannot allocate memory|too many open files|no space left on device", out, re.M):
        return "error", "resources"
    if re.search(r"^\s*--- FAIL:", out, re.M):
        return "violation", "failed"
    if "WARNING: DATA RACE" in out and MOND.search(out):
        return "violation", "data race"
    m = re.search(r"^(panic:|fatal error:|unexpected fault|SIGSEGV)", out, re.M)
    if m and MOND.search(out[m.start():]):
        return "violation", "crash"
    return "error", "exit %d" % rc

FOUND = []  # when a test first found a violation

def run_test(binp, test, seed, tier, budget, timeout, scratch, replay=None, extra_env=None):
    wd = tempfile.mkdtemp(prefix=test + "-", dir=scratch)
    sd = os.path.join(wd, "stats"); os.mkdir(sd)
    td = os.path.join(wd, "tmp"); os.mkdir(td)
    e = env()
    e.update(VERIF_TIER=tier, VERIF_STATS_DIR=sd, TMPDIR=td, VERIF_SEED=str(seed),
             VERIF_KNOWN=os.path.join(VERIF, "KNOWN_FINDINGS.txt"))
    e.update(extra_env or {})
    cmd = [binp, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout,
           "-rapid.seed", str(seed), "-rapid.shrinktime", "15s", "-test.v"]
    if replay:
        cmd += ["-rapid.failfile", replay]
    t0 = time.time()
    stopped = False
    logp = os.path.join(wd, "log")
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        rc = None
        while rc is None:
            try:
                rc = p.wait(timeout=0.5)
            except subprocess.TimeoutExpired:
                if time.time() - t0 > timeout + 30:
                    rc = -9
                elif FOUND and time.time() - FOUND[0] > 60:
                    stopped = True  # another test has found a violation: no need to go on
                    rc = -9
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(logp, "rb") as lf:
        data = lf.read()
    out = data.decode("utf-8", "replace")
    if len(out) > 400000:
        out = out[:200000] + "\n...\n" + out[-200000:]
    stats = []
    for f in glob.glob(os.path.join(sd, "*.json")):
        try:
            stats.append(json.load(open(f)))
        except ValueError:
            pass
    fails = sorted(glob.glob(os.path.join(wd, "testdata", "rapid", "**", "*.fail"), recursive=True))
    kind, why = classify(rc, out)
    if kind == "error" and why == "timed out" and fails:
        kind, why = "violation", "failed (while shrinking)"
    if stopped and kind == "error":
        kind, why = "ok", "stopped"
    if kind == "violation" and not FOUND:
        FOUND.append(time.time())
    return dict(test=test, seed=seed, rc=rc, out=out, stats=stats, fails=fails, kind=kind, why=why,
                wall=time.time() - t0, wd=wd)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        args = [a for a in args if os.path.abspath(a) != replay]
    cfg = REG[pid]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, tier, cfg, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def run(pid, tier, cfg, seed, scratch, t0, replay):
    jobs = []
    for pkg in cfg["pkgs"]:
        race = bool(cfg.get("race")) and tier == "thorough"
        binp = os.path.join(scratch, pkg.replace("/", "_") + ".test")
        build(pkg, binp, race)
        r = subprocess.run([binp, "-test.list", "^Test%s_" % pid], env=env(), cwd=scratch,
                           stdout=subprocess.PIPE, text=True)
        tests = [l for l in r.stdout.split() if l.startswith("Test" + pid + "_")]
        jobs += [(binp, t) for t in tests]
    if not jobs:
        log("ERROR: no tests for", pid)
        return 2
    base = (seed * 1000003 + int(pid[1:]) * 7919) % (1 << 31) + 1
    results = []
    timeout = int(cfg.get("timeout", 500)) if tier == "quick" else int(cfg.get("timeout_thorough", 1200))
    workers = int(cfg.get("workers", 4))
    if replay:
        name = os.path.basename(replay).split("-seed")[0]
        m = re.search(r"-seed(\d+)", os.path.basename(replay))
        s = int(m.group(1)) if m else base
        for binp, t in jobs:
            if t == name or len(jobs) == 1:
                ff = replay if replay.endswith(".fail") else None
                res = run_test(binp, t, s, tier, 0, timeout, scratch, ff)
                log(res["out"][-6000:])
                if res["kind"] == "violation":
                    log("VIOLATION property=%s replay=%s" % (pid, replay))
                    return 1
                return 0 if res["kind"] == "ok" else 2
        log("ERROR: no test for replay", replay)
        return 2
    budget = float(os.environ.get("VERIF_BUDGET", cfg.get("budget", 240)))
    rnd = 0
    while True:
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_test, b, t, (base + rnd * 104729) % (1 << 31) or 1, tier, budget, timeout, scratch)
                    for b, t in jobs]
            batch = [f.result() for f in futs]
        results += batch
        rnd += 1
        if tier == "quick" or any(r["kind"] != "ok" for r in batch) or time.time() - t0 > budget:
            break
        for r in batch:
            shutil.rmtree(r["wd"], ignore_errors=True)
    # evidence
    tests, classes, samples, rules = {}, {}, [], []
    ev = dict(evaluations=0, nontrivial=0, distinct=0, steps=0)
    known = []
    for r in results:
        for l in r["out"].splitlines():
            if "KNOWN-FINDING:" in l:
                k = l[l.index("KNOWN-FINDING:"):].strip()
                if k not in known:
                    known.append(k)
        for s in r["stats"]:
            ev["evaluations"] += s["evaluations"]
            ev["nontrivial"] += s["nontrivial"]
            ev["distinct"] += s["distinct_nontrivial"]
            ev["steps"] += s["steps"]
            d = tests.setdefault(s["test"], dict(evaluations=0, distinct_nontrivial=0, steps=0, classes={}))
            d["evaluations"] += s["evaluations"]
            d["distinct_nontrivial"] += s["distinct_nontrivial"]
            d["steps"] += s["steps"]
            for c, n in (s["classes"] or {}).items():
                d["classes"][c] = d["classes"].get(c, 0) + n
            for x in (s["samples"] or [])[:2]:
                if len([y for y in samples if y.startswith(s["test"])]) < 3:
                    samples.append(s["test"] + ": " + x)
            rl = s["test"] + ": " + s["rule"]
            if rl not in rules:
                rules.append(rl)
    viol = [r for r in results if r["kind"] == "violation"]
    errs = [r for r in results if r["kind"] == "error"]
    doc = dict(property=pid, tier=tier, seed=seed, level=cfg["level"],
               coverage=dict(evaluations=ev["evaluations"], distinct_nontrivial=ev["distinct"],
                             nontrivial=ev["nontrivial"], operations=ev["steps"], rounds=rnd,
                             rule=" || ".join(rules), samples=samples or ["(none: the run ended before a case completed)"],
                             tests=tests),
               assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2),
               violations=len(viol))
    if errs:
        doc["coverage"]["errors"] = ["%s: %s" % (r["test"], r["why"]) for r in errs]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for k in known:
        log(k)
    for r in results:
        log("%-44s seed=%-10d %-9s %5.1fs cases=%d %s" % (r["test"], r["seed"], r["kind"], r["wall"],
            sum(s["evaluations"] for s in r["stats"]), r["why"]))
    if viol:
        rd = os.path.join(VERIF, "replays", pid)
        os.makedirs(rd, exist_ok=True)
        for r in viol:
            stem = os.path.join(rd, "%s-seed%d" % (r["test"], r["seed"]))
            with open(stem + ".log", "w") as f:
                f.write(r["out"])
            path = stem + ".log"
            if r["fails"]:
                path = stem + ".fail"
                shutil.copyfile(r["fails"][-1], path)
            lines = [l for l in r["out"].splitlines()
                     if not any(n in l for n in ("zap", '"L":', '"level"', "badger 20"))]
            said = [i for i, l in enumerate(lines) if "[rapid]" in l or "Original traceback" in l]
            for i in said[:3]:
                log("\n".join(l[:2000] for l in lines[i:i + 12]))
            log("\n".join(lines[-60:])[-6000:])
            log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for r in errs:
            log(r["out"][-4000:])
            log("ERROR: %s gave no answer: %s" % (r["test"], r["why"]))
        return 2
    log("OK %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, ev["evaluations"], ev["distinct"], time.time() - t0))
    return 0

if __name__ == "__main__":
    main()
