#!/usr/bin/env python3
"""run.py ID quick|thorough     build the harness against /repo and run one property's check
run.py ID replay PATH        re-run one saved failure (.fail file) and show the result
run.py setup                 build once (warms the build cache)

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check
itself failed (build error, out of memory, out of time)."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

T0 = time.time()
GO = "/opt/veriftools/go1.24.13/bin/go"
SHARDS = 8


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1", GOTRACEBACK="all",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             PATH="/opt/veriftools/go1.24.13/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    for k in list(e):
        if k.startswith(("RAPID_", "VH_")) and k not in ("VH_SCALE", "VH_LOG"):
            del e[k]
    return e


def error(msg):
    print("CHECK-ERROR", msg, flush=True)
    sys.exit(2)


def scratch():
    for d in ("/dev/shm", "/tmp"):
        try:
            if shutil.disk_usage(d).free > (3 << 30) and os.access(d, os.W_OK):
                return tempfile.mkdtemp(prefix="vh-", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="vh-")


def build(out, race=False):
    t = time.time()
    cmd = [GO, "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        error("build failed:\n" + p.stdout[-3000:] + p.stderr[-5000:])
    return time.time() - t


def classify(rc, log):
    """-> (kind, summary); kind in ok, violation, error"""
    ended = re.search(r"^VH-EXIT rc=(\d+)", log, re.M)
    huge = re.search(r"\[running[^\n]*\]:\n(?:[^\n]+\n)*?runtime\.mallocgc\((0x[0-9a-f]+),(?:[^\n]+\n)*?[^\n]*continusec/verifiabledatastructures", log)
    if huge and int(huge.group(1), 16) > 1 << 30:
        return "violation", "process crashed: one allocation of %d bytes" % int(huge.group(1), 16)
    if re.search(r"no space left on device|cannot allocate memory|VH-HARNESS-ERROR|too many open files", log):
        return "error", "environment: " + re.search(r".*(no space left on device|cannot allocate memory|VH-HARNESS-ERROR|too many open files).*", log).group(0)[:300]
    if rc == 0 and ended and ended.group(1) == "0":
        return "ok", ""
    if "VH-HANG" in log:
        if "continusec/verifiabledatastructures" in log:
            return "violation", "hang: a call did not return"
        return "error", "hang outside the repository's code"
    if ended and ended.group(1) == "1":
        m = re.search(r"^\s*\S+\.go:\d+: \[rapid\] (failed|panic|flaky).*(?:\n.*){0,3}", log, re.M)
        return "violation", (m.group(0).strip() if m else "test failed")[:600]
    if rc == -9:
        return "error", "process was killed (out of memory?)"
    m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE)", log, re.M)
    if m:
        if "out of memory" in m.group(0):
            return "error", m.group(0)
        return "violation", "process crashed: " + m.group(0)[:300]
    if rc == 1 and not ended:
        return "violation", "process exited from inside the code under test (log.Fatal or os.Exit)"
    return "error", "unexpected exit status %d" % rc


def run(pid, tier, fail=None):
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    work = scratch()
    procs = []

    def cleanup(*_):
        for p, _l in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(work, ignore_errors=True)

    def on_term(*_):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return run_in(pid, tier, fail, c, seed, work, procs)
    finally:
        cleanup()


def run_in(pid, tier, fail, c, seed, work, procs):
    binary = os.path.join(work, "harness.test")
    race = c.get("race", 0)     # this many of the shards run a (slower) build with the race detector
    bt = build(binary)
    if race:
        bt += build(binary + "-race", True)
    if c.get("program"):        # the repository's server program, which the harness runs
        t = time.time()
        p = subprocess.run([GO, "build", "-o", os.path.join(work, "vdbserver"), "github.com/continusec/verifiabledatastructures/cmd/vdbserver"],
                           cwd=os.path.join(VERIF, "harness"), env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            error("build of the server program failed:\n" + p.stdout[-3000:] + p.stderr[-5000:])
        bt += time.time() - t
    shards = 1 if fail else c.get("shards", SHARDS)
    soft = T0 + (480 if tier == "quick" else 1500)      # no new cases after this
    hard = T0 + (840 if tier == "quick" else 2400)      # give up (no answer) after this
    tests = "^Test%s(_|$)" % pid
    if fail:
        m = re.search(r"Test%s\w*" % pid, os.path.basename(fail)) or re.search(r"Test%s\w*" % pid, open(fail, errors="replace").read())
        if m:
            tests = "^%s$" % m.group(0)
    for i in range(shards):
        d = os.path.join(work, "shard%d" % i)
        os.makedirs(os.path.join(d, "tmp"))
        rseed = 1 + (seed * 1000003 + i * 7919 + zlib.crc32(pid.encode())) % (1 << 62)
        e = env()
        e.update(VH_TIER=tier, VH_SHARDS=str(shards), VH_SHARD=str(i), VH_STATS=os.path.join(d, "stats.json"), VH_TMP=os.path.join(d, "tmp"),
                 VH_SEED=str(rseed), TMPDIR=os.path.join(d, "tmp"), VH_DEADLINE=str(int(soft)))
        if c.get("program"):
            e["VH_SERVER"] = os.path.join(work, "vdbserver")
        racy = i >= shards - race and not fail
        if racy:
            e["VH_SCALE"] = str(c["race_scale"])
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        cmd = [binary + "-race" if racy else binary, "-test.run", tests, "-test.timeout", "0", "-test.v", "-rapid.seed=%d" % rseed, "-rapid.shrinktime=15s"]
        if fail:
            cmd += ["-rapid.failfile=" + os.path.abspath(fail), "-rapid.checks=1"]
        out = open(os.path.join(d, "log"), "wb")
        lim = None if racy else (lambda: resource.setrlimit(resource.RLIMIT_DATA, (8 << 30, 8 << 30)))
        procs.append((subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=lim), d))
        out.close()

    results = []
    for p, d in procs:
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            if not any(k == "violation" for k, *_ in results):
                tail = open(os.path.join(d, "log"), errors="replace").read()[-2000:]
                error("out of time\n" + tail)
            continue
        log = open(os.path.join(d, "log"), errors="replace").read()
        kind, why = classify(p.returncode, log)
        results.append((kind, why, d, log))

    if fail:
        kind, why, d, log = results[0]
        print(log[-6000:])
        print("replay:", kind, why)
        return 1 if kind == "violation" else 0 if kind == "ok" else 2

    viol = [r for r in results if r[0] == "violation"]
    errs = [r for r in results if r[0] == "error"]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=c["rule"], samples=[], classes={}, build_s=round(bt, 1), shards=shards)
    hashes = set()
    for kind, why, d, log in results:
        try:
            st = json.load(open(os.path.join(d, "stats.json"))).get(pid)
        except (OSError, ValueError):
            st = None
        if not st:
            continue
        cov["evaluations"] += st["evaluations"]
        hashes.update(st["hashes"])
        for k, n in st["classes"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + n
        for s in st["samples"] or []:
            if len(cov["samples"]) < 4:
                cov["samples"].append(s)
    cov["distinct_nontrivial"] = len(hashes)

    known = set()
    for kind, why, d, log in results:
        known.update(re.findall(r"^VH-KNOWN (.*)$", log, re.M))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))

    rc = 0
    if viol:
        rc = 1
        kind, why, d, log = viol[0]
        rd = os.path.join(VERIF, "replays", pid)
        os.makedirs(rd, exist_ok=True)
        tag = "%s-%d-%s" % (tier, seed, time.strftime("%Y%m%d%H%M%S"))
        path = None
        for root, _dirs, files in os.walk(os.path.join(d, "testdata")):
            for f in files:
                if f.endswith(".fail"):
                    path = os.path.join(rd, tag + "-" + f)
                    shutil.copy(os.path.join(root, f), path)
        lp = os.path.join(rd, tag + ".log")
        with open(lp, "w") as f:
            f.write(log[-400000:])
        print(log[-2500:])
        print(why)
        cov["failure"] = why
    elif errs:
        print(errs[0][3][-4000:])
        error(errs[0][1])
    elif cov["evaluations"] == 0 or len([r for r in results if r[0] == "ok"]) != shards:
        error("nothing was explored")
    elif not hashes:
        error("no non-trivial case was generated")

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=c["level"], coverage=cov, assumptions=c.get("assumptions", []),
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, path or lp), flush=True)
    else:
        print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, cov["evaluations"], len(hashes), time.time() - T0))
    return rc


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        work = scratch()
        try:
            print("built in %.1fs" % build(os.path.join(work, "h")))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if len(a) >= 2 and a[0] in CHECKS:
        if a[1] in ("quick", "thorough"):
            return run(a[0], a[1])
        if a[1] == "replay" and len(a) == 3:
            return run(a[0], "quick", a[2])
    print(__doc__)
    return 3


sys.exit(main())
