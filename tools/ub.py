#!/usr/bin/env python3
"""C27: runs the monitor's workloads under Miri, AddressSanitizer (with LeakSanitizer) and MemorySanitizer.

The tools decide: only their reports are violations. A tool that cannot be built or run here gives no verdict, which is
recorded in the evidence."""
import json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.path.join(HERE, "monitor")
TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = os.environ.get("VERIF_SEED", "1")
REPORTS = [
    ("miri", re.compile(r"error: Undefined Behavior|error: memory leaked|error: abnormal termination|error: the evaluated program")),
    ("asan", re.compile(r"ERROR: (Address|Leak)Sanitizer: (?!failed to allocate|requested allocation size)|SUMMARY: (Address|Leak)Sanitizer: (?!bad-|allocation-size-too-big|out-of-memory)")),
    ("msan", re.compile(r"WARNING: MemorySanitizer: use-of-uninitialized-value|SUMMARY: MemorySanitizer: use-of")),
]
REPORTS = dict(REPORTS)


def env(tool):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN")}
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, tool)
    e["CARGO_NET_OFFLINE"] = "true"
    e["VERIF_SEED"] = SEED
    if tool == "miri":
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows"
        e.pop("RUSTFLAGS", None)
    else:
        e["RUSTFLAGS"] = {"asan": "-Zsanitizer=address", "msan": "-Zsanitizer=memory"}[tool] + " --cfg bare_alloc"
        e["ASAN_OPTIONS"] = "detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1"
        e["MSAN_OPTIONS"] = "allocator_may_return_null=1"
    return e


def fresh(tool):
    """What is under test is compiled anew."""
    for p in ([TRIPLE, "debug"], ["debug"], ["miri", TRIPLE, "debug"]):
        d = os.path.join(TARGET, tool, *p, ".fingerprint")
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith("bytecodec-"):
                    subprocess.run(["rm", "-rf", os.path.join(d, n)])


def call(cmd, e, limit):
    try:
        r = subprocess.run(cmd, cwd=MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")
    except OSError as x:
        return None, str(x)


def build(tool, limit):
    fresh(tool)
    if tool == "miri":
        return call(["cargo", "+nightly", "miri", "run", "--offline", "--", "list"], env(tool), limit)
    cmd = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE]
    if tool == "msan":
        cmd.append("-Zbuild-std")
    return call(cmd, env(tool), limit)


def run(tool, plan, shard, of, secs, limit, e=None):
    args = ["ub", "run", plan, str(shard), str(of), str(secs)]
    if tool == "miri":
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--"] + args
    else:
        cmd = [os.path.join(TARGET, tool, TRIPLE, "debug", "monitor")] + args
    return call(cmd, e or env(tool), limit)


def work(tool, plan, shards, secs, out):
    t = time.time()
    res = {"cases": 0, "executions": 0, "note": "", "violations": []}
    out[tool] = res
    code, log = build(tool, 420)
    if code != 0:
        res["note"] = "could not be built or started here: " + log[-300:]
        return
    res["build_s"] = round(time.time() - t, 1)
    outs = [None] * shards

    def one(i):
        outs[i] = run(tool, plan, i, shards, secs, secs + 150)
        if outs[i][0] not in (0, None) and tool == "asan" and "LeakSanitizer has encountered a fatal error" in outs[i][1]:
            e = env(tool)
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
            outs[i] = run(tool, plan, i, shards, secs, secs + 150, e)
            res["note"] = "LeakSanitizer cannot run here; "

    ts = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    stages = 0
    for code, log in outs:
        last = re.findall(r"^UB-CASE (.*)$", log, re.M)
        done = re.search(r"UB-DONE cases=(\d+) executions=(\d+) stages=(\d+)", log)
        rep = REPORTS[tool].search(log)
        res["cases"] += int(done[1]) if done else max(0, len(last) - 1)
        res["executions"] += int(done[2]) if done else 0
        stages = max(stages, int(done[3]) if done else 0)
        if rep:
            res["violations"].append((last[-1] if last and not done else (last[-1] if last else "?"), log[max(0, rep.start() - 200):][:3000]))
        elif code is None:
            res["note"] += "a shard ran out of time; "
        elif code != 0:
            if code < 0 and tool != "miri":
                res["violations"].append((last[-1] if last else "?", "died from signal %d\n%s" % (-code, log[-1500:])))
            else:
                res["note"] += "a shard ended with %s: %s; " % (code, log[-300:])
    res["stages_per_shard"] = stages
    res["wall_s"] = round(time.time() - t, 1)


def report(tool, case, log):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "C27-%s-%s.txt" % (tool, re.sub(r"\W+", "-", case)))
    with open(path, "w") as f:
        f.write("property=C27\ntool=%s\ncase=%s\nseed=%s\nrerun: ./check.sh C27 --replay %s\n\n%s\n" % (tool, case, SEED, path, log))
    print("VIOLATION property=C27 replay=%s" % path)
    print("  %s reports while running %s:\n%s" % (tool, case, "\n".join("  " + l for l in log.splitlines()[:25])))


def replay(path):
    global SEED
    f = dict(l.split("=", 1) for l in open(path).read().split("\n\n")[0].splitlines() if "=" in l)
    SEED = f["seed"]
    plan = os.path.join(HERE, "evidence", ".plan-replay")
    open(plan, "w").write(f["case"] + "\n")
    code, log = build(f["tool"], 420)
    if code != 0:
        print("ERROR: %s cannot be built: %s" % (f["tool"], log[-500:]))
        return 2
    code, log = run(f["tool"], plan, 0, 1, 600, 700)
    os.remove(plan)
    print(log[-4000:])
    bad = REPORTS[f["tool"]].search(log) or (code is not None and code < 0)
    if bad:
        print("VIOLATION property=C27 replay=%s" % path)
    return 1 if bad else 0


def main():
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    thorough = "--thorough" in sys.argv
    native = os.path.join(TARGET, "debug", "monitor")
    plans = {}
    for name, n, us in (("small", 24 if thorough else 6, 40), ("large", 1500 if thorough else 150, 30000)):
        p = os.path.join(HERE, "evidence", ".plan-%s-%d" % (name, os.getpid()))
        code, log = call([native, "ub", "plan", str(n), str(us)], dict(os.environ, VERIF_SEED=SEED), 300)
        open(p, "w").write("\n".join(l for l in log.splitlines() if re.match(r"^C\d\d \w+ \d+$", l) and (name == "large" or " everything " not in l)) + "\n")
        plans[name] = p
    out = {}
    secs = 240 if thorough else 60
    jobs = [("miri", plans["small"], 6, secs), ("asan", plans["large"], 2, secs), ("msan", plans["large"], 2, secs)]
    ts = [threading.Thread(target=work, args=(t, p, s, x, out)) for t, p, s, x in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for p in plans.values():
        os.remove(p)
    bad = 0
    for tool, r in out.items():
        for case, log in r["violations"][:2]:
            report(tool, case, log)
            bad += 1
        print("%s: %d cases, %d executions %s%s" % (tool, r["cases"], r["executions"], "under observation", ("; " + r["note"]) if r["note"] else ""))
    ev = os.path.join(HERE, "evidence", "C27.json")
    e = json.load(open(ev))
    e["coverage"]["sanitizers"] = {t: {k: v for k, v in r.items() if k != "violations"} for t, r in out.items()}
    e["coverage"]["evaluations"] += sum(r["executions"] for r in out.values())
    e["wall_s"] = round(e["wall_s"] + max([r.get("wall_s", 0) for r in out.values()]), 2)
    e["violations"] += bad
    json.dump(e, open(ev, "w"))
    open(ev, "a").write("\n")
    return 1 if bad else 0


sys.exit(main())
