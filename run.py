#!/usr/bin/env python3
"""Run the check of one property: python3 run.py ID [quick|thorough] [--replay FILE].

Builds the harness against /repo's working tree, runs its shards, merges their
statistics into evidence/ID.json and prints a VIOLATION line for a failure.
Exit: 0 held, 1 violation, 2 the check itself could not answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
CONF = json.load(open(os.path.join(ROOT, "checks.json")))


def env_for_go():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    env.setdefault("HOME", "/root")
    env["GOPATH"] = "/root/go"
    env["GOMODCACHE"] = "/root/go/pkg/mod"
    env["GOCACHE"] = "/root/.cache/go-build"
    env.pop("GOROOT", None)
    return env


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def main():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = os.path.abspath(args[i + 1])
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    conf = CONF["checks"][pid]
    t0 = time.time()
    env = env_for_go()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        code = run(pid, tier, seed, conf, env, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def build(conf, env, scratch):
    # The module files are copied so that the go command never rewrites committed ones.
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    binary = os.path.join(scratch, "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", binary]
    if conf.get("race"):
        cmd.append("-race")
    cmd.append(".")
    for attempt in (1, 2):
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0 and os.path.exists(binary):
            return binary
        if attempt == 1:
            env["GOCACHE"] = os.path.join(scratch, "gocache")
    print(p.stdout[-4000:])
    fail("the harness does not build against /repo")


def run(pid, tier, seed, conf, env, scratch, t0, replay):
    binary = build(conf, env, scratch)
    build_s = time.time() - t0
    shards = int(conf.get("shards", 8))
    checks = int(conf[tier])
    timeout = 800 if tier == "quick" else 7200
    if replay:
        shards = 1
    procs = []
    for i in range(shards):
        d = os.path.join(scratch, "s%d" % i)
        os.makedirs(d)
        e = dict(env)
        e["VERIF_STATS"] = os.path.join(d, "stats.json")
        e["VERIF_CHECKS"] = str(checks)
        e["VERIF_TIER"] = tier
        e["GOGC"] = "400"
        e["GOMEMLIMIT"] = "2500MiB"
        e["GOMAXPROCS"] = str(conf.get("maxprocs", 2))
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOTRACEBACK"] = "all"
        # seed 0 means random to rapid; every shard has its own seed.
        s = (seed * 1000003 + i * 7919 + 12345) % (2 ** 62) + 1
        cmd = [binary, "-test.run", "^Test%s_" % pid, "-test.timeout", "0", "-rapid.seed", str(s), "-rapid.shrinktime", "20s"]
        if replay:
            name = replay_test(replay, pid)
            cmd = [binary, "-test.run", "^%s$" % name if name else "^Test%s_" % pid, "-test.v", "-test.timeout", "0", "-rapid.failfile", replay]
        log = open(os.path.join(d, "log"), "wb")
        procs.append((i, d, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT), log, s))
    deadline = time.time() + timeout
    bad, errors = [], []
    pending = list(procs)
    while pending:
        for item in list(pending):
            i, d, p, log, s = item
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(item)
            log.close()
            if rc != 0:
                verdict = judge(d, rc)
                (bad if verdict else errors).append((i, d, rc, s))
        if bad and pending:
            # A violation ends the run.
            for _, _, p, log, _ in pending:
                p.kill()
                p.wait()
                log.close()
            break
        if pending:
            if time.time() > deadline:
                for _, _, p, log, _ in pending:
                    p.kill()
                    p.wait()
                    log.close()
                errors.append((-1, None, "time limit", 0))
                break
            time.sleep(0.05)
    if replay:
        print(open(os.path.join(scratch, "s0", "log"), errors="replace").read()[-6000:])
        return 1 if bad else (2 if errors else 0)
    merged = merge([d for _, d, _, _, _ in procs])
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": merged["evals"],
            "distinct_nontrivial": len(merged["hashes"]),
            "rule": conf["rule"],
            "samples": merged["samples"][:16],
            "classes": dict(sorted(merged["classes"].items(), key=lambda kv: -kv[1])[:80]),
            "shards": shards,
            "slowest_case_s": round(merged["slowest"], 2),
            "build_s": round(build_s, 1),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for line in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    if bad:
        i, d, rc, s = bad[0]
        path = save_replay(pid, d, s)
        print(tail_of_log(d))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for i, d, rc, s in errors:
            if d:
                print(tail_of_log(d))
            print("shard %s ended with %s" % (i, rc))
        fail("some shards gave no answer")
    if merged["evals"] == 0:
        fail("no case was evaluated")
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, tier, merged["evals"], len(merged["hashes"]), time.time() - t0))
    return 0


def read_log(d):
    with open(os.path.join(d, "log"), "rb") as f:
        return f.read().decode("utf-8", "replace")


def judge(d, rc):
    """Tell whether a failed shard shows a violation (or an error of the check)."""
    text = read_log(d)
    if "HARNESS-ERROR" in text:
        return False
    if re.search(r"out of memory|cannot allocate memory|failed to create new OS thread", text):
        return False
    if "HANG: case still running" in text:
        return True
    if "WARNING: DATA RACE" in text:
        return True
    if re.search(r"\[rapid\] .*(unable to generate|failed to generate|flaky test)", text):
        # A flaky failure (not reproducible by rapid) is still a failed oracle.
        return "flaky test" in text
    if "--- FAIL" in text:
        return True
    if re.search(r"^(panic:|fatal error:)", text, re.M):
        return True
    return False


NOISE = re.compile(r"^line \d+:\d+ |\[rapid\] draw (n|s|b|case|text|bytes|): ")


def tail_of_log(d):
    lines = [x for x in read_log(d).splitlines() if not NOISE.search(x)]
    # The interesting part starts at the failure.
    start = 0
    for k, x in enumerate(lines):
        if x.startswith("--- FAIL") or "DATA RACE" in x or x.startswith(("panic:", "fatal error:", "HANG:")):
            start = k
            break
    return "\n".join(x[:2000] for x in lines[start:start + 60])


def save_replay(pid, d, seed):
    out = os.path.join(ROOT, "replays", pid)
    os.makedirs(out, exist_ok=True)
    path = None
    base = os.path.join(d, "testdata", "rapid")
    for r, _, files in os.walk(base):
        for f in sorted(files):
            if f.endswith(".fail"):
                path = os.path.join(out, f)
                shutil.copy(os.path.join(r, f), path)
    log = os.path.join(out, "last.log")
    with open(log, "w") as f:
        f.write("replay: python3 run.py %s --replay <file>.fail, or the shard seed %d\n" % (pid, seed))
        f.write("\n".join(x for x in read_log(d).splitlines() if not x.startswith("line "))[-400000:])
    return path or log


def replay_test(path, pid):
    m = re.match(r"(Test%s_\w+?)-\d" % pid, os.path.basename(path))
    return m.group(1) if m else None


def merge(dirs):
    out = {"evals": 0, "slowest": 0, "hashes": set(), "classes": {}, "samples": []}
    for d in dirs:
        try:
            s = json.load(open(os.path.join(d, "stats.json")))
        except (OSError, ValueError):
            continue
        out["evals"] += s["evals"]
        out["slowest"] = max(out["slowest"], s.get("slowest_case_s", 0))
        out["hashes"].update(s["hashes"])
        for k, v in (s.get("classes") or {}).items():
            out["classes"][k] = out["classes"].get(k, 0) + v
        samples = s.get("samples") or []
        k = len(out["samples"])
        if samples:
            out["samples"] += [samples[(k + j) % len(samples)] for j in range(min(2, len(samples)))]
    return out


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=%s (.*)" % pid, line.strip())
            if m:
                out.append(m.group(1))
    return out


if __name__ == "__main__":
    main()
