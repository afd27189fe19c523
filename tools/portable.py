#!/usr/bin/env python3
"""C30: runs the monitors' workloads on other machines: a 32-bit one and a big-endian one, interpreted by Miri.

The monitors and reference models that decide the other properties decide here as well."""
import json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.path.join(HERE, "monitor")
TARGET = os.path.join(HERE, "target")
NATIVE = os.path.join(TARGET, "debug", "monitor")
SEED = os.environ.get("VERIF_SEED", "1")
PLATFORMS = {"i686-unknown-linux-gnu": "32-bit, little-endian", "s390x-unknown-linux-gnu": "64-bit, big-endian"}


def env(triple):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTFLAGS")}
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "platform-" + triple)
    e["CARGO_NET_OFFLINE"] = "true"
    e["VERIF_SEED"] = SEED
    e["MIRI_SYSROOT"] = os.path.join(TARGET, "sysroot-" + triple)
    # memory errors are C27's business
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    return e


def call(cmd, e, limit):
    try:
        r = subprocess.run(cmd, cwd=MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")
    except OSError as x:
        return None, str(x)


def miri(triple, args, limit):
    return call(["cargo", "+nightly", "miri", "run", "--offline", "--target", triple, "--"] + args, env(triple), limit)


def build(triple):
    d = env(triple)["CARGO_TARGET_DIR"]
    for base, dirs, _ in os.walk(d):
        if base.endswith(".fingerprint"):
            for n in dirs:
                if n.startswith("bytecodec-"):
                    subprocess.run(["rm", "-rf", os.path.join(base, n)])
    e = env(triple)
    sysroot = e.pop("MIRI_SYSROOT")
    if not os.path.isdir(os.path.join(sysroot, "lib", "rustlib", triple)):
        code, log = call(["cargo", "+nightly", "miri", "setup", "--target", triple], dict(e, MIRI_SYSROOT=sysroot), 300)
        if code != 0:
            return code or 1, log
    return miri(triple, ["list"], 420)


def work(triple, plan, shards, secs, out):
    t = time.time()
    res = {"platform": PLATFORMS[triple], "cases": 0, "executions": 0, "stages": 0, "note": "", "violations": []}
    out[triple] = res
    code, log = build(triple)
    if code != 0:
        res["note"] = "could not be built or started here: " + log[-300:]
        return
    res["build_s"] = round(time.time() - t, 1)
    outs = [None] * shards

    def one(i):
        outs[i] = miri(triple, ["ub", "judge", plan, str(i), str(shards), str(secs)], secs + 150)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    stages = set()
    for code, log in outs:
        started = re.findall(r"^UB-CASE (.*)$", log, re.M)
        done = re.search(r"UB-DONE cases=(\d+) executions=(\d+) stages=(\d+)", log)
        res["cases"] += int(done[1]) if done else max(0, len(started) - 1)
        res["executions"] += int(done[2]) if done else 0
        stages |= {" ".join(x.split()[:2]) for x in started}
        fails = re.findall(r"^UB-FAIL (\S+ \S+ \d+): (.*)$", log, re.M)
        if not done:
            if code is None:
                res["note"] += "a shard ran out of time; "
            else:
                res["note"] += "a shard ended with %s: %s; " % (code, log[-300:])
        res["violations"] += fails
    res["stages"] = len(stages)
    res["wall_s"] = round(time.time() - t, 1)


def report(triple, case, m):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "C30-%s-%s.txt" % (triple.split("-")[0], re.sub(r"\W+", "-", case)))
    with open(path, "w") as f:
        f.write("property=C30\nplatform=%s\ncase=%s\nseed=%s\nrerun: ./check.sh C30 --replay %s\n\n%s\n" % (triple, case, SEED, path, m))
    print("VIOLATION property=C30 replay=%s" % path)
    print("  on %s (%s), %s: %s" % (triple, PLATFORMS[triple], case, m[:1500]))


def replay(path):
    global SEED
    f = dict(l.split("=", 1) for l in open(path).read().split("\n\n")[0].splitlines() if "=" in l)
    SEED = f["seed"]
    code, log = build(f["platform"])
    if code != 0:
        print("ERROR: %s cannot be built: %s" % (f["platform"], log[-500:]))
        return 2
    plan = os.path.join(HERE, "evidence", ".plan-replay")
    open(plan, "w").write(f["case"] + "\n")
    code, log = miri(f["platform"], ["ub", "judge", plan, "0", "1", "600"], 700)
    os.remove(plan)
    print("\n".join(l for l in log.splitlines() if l.startswith("UB-")))
    if "UB-FAIL" in log:
        print("VIOLATION property=C30 replay=%s" % path)
        return 1
    return 0


def main():
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    thorough = "--thorough" in sys.argv
    t = time.time()
    plan = os.path.join(HERE, "evidence", ".plan-platform-%d" % os.getpid())
    code, log = call([NATIVE, "ub", "plan-platform", "60" if thorough else "8", "40" if thorough else "25"], dict(os.environ, VERIF_SEED=SEED), 300)
    cases = [l for l in log.splitlines() if re.match(r"^C\d\d \w+ \d+$", l)]
    open(plan, "w").write("\n".join(cases) + "\n")
    out = {}
    secs = 420 if thorough else 100
    ts = [threading.Thread(target=work, args=(p, plan, 4, secs, out)) for p in PLATFORMS]
    [x.start() for x in ts]
    [x.join() for x in ts]
    os.remove(plan)
    bad = 0
    for triple, r in out.items():
        for case, m in r["violations"][:3]:
            report(triple, case, m)
            bad += 1
        print("%s (%s): %d cases of %d stages, %d executions%s" % (triple, r["platform"], r["cases"], r["stages"], r["executions"], ("; " + r["note"]) if r["note"] else ""))
    n = sum(r["cases"] for r in out.values())
    e = {
        "property": "C30",
        "tier": "thorough" if thorough else "quick",
        "seed": int(SEED),
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["executions"] for r in out.values()),
            "distinct_nontrivial": n,
            "rule": "cases of all stages of the other properties, more where widths, byte orders and 64-bit numbers matter, executed for each platform by Miri "
            "and decided by the same monitors and models; distinct by stage, case number and platform",
            "platforms": {k: {a: b for a, b in r.items() if a != "violations"} for k, r in out.items()},
            "samples": cases[:6],
        },
        "assumptions": ["Miri's model of the two platforms", "serde_json, bincode and the Rust standard library are trusted on them"],
        "wall_s": round(time.time() - t, 2),
        "violations": bad,
    }
    with open(os.path.join(HERE, "evidence", "C30.json"), "w") as f:
        json.dump(e, f)
        f.write("\n")
    if n == 0:
        print("ERROR: nothing was executed on another platform")
        return 2
    if not bad:
        print("OK C30 seed=%s: %d cases on %d platforms" % (SEED, n, len(out)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
