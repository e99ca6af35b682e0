#!/usr/bin/env python3
"""Driver of the property checks.

    run.py ID                    run the check of property ID
    run.py --replay FILE ID      run only the saved failing case

The tier comes from VERIF_TIER (quick or thorough), the seed from VERIF_SEED.
Exit status: 0 the property held on everything explored, 1 it is broken (a
VIOLATION line names the replay file), anything else means no answer.
"""
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 8
STALL = 60.0          # seconds without a new case before looking closer
SPIN_CPU = 45.0       # CPU seconds spent in the stalled case: it is spinning
BLOCK_CPU = 0.5       # CPU seconds spent in the stalled case: it is blocked
SHRINK = 180.0        # seconds after which a failing case is taken as it is
MAX_RSS = 5 << 30     # a shard never gets near this on a tree that holds
FUZZ = 180            # seconds of coverage-guided search in the thorough tier
BUDGET = {"quick": 840.0, "thorough": 4 * 3600.0}
TICK = os.sysconf("SC_CLK_TCK")
PAGE = os.sysconf("SC_PAGE_SIZE")


def env():
    out = subprocess.run(["bash", "-c", "source ./env.sh; env -0"], cwd=HARNESS, check=True, stdout=subprocess.PIPE).stdout
    e = dict(kv.split("=", 1) for kv in out.decode(errors="surrogateescape").split("\0") if "=" in kv)
    e["GOFLAGS"] = "-mod=readonly"
    e["GOTRACEBACK"] = "all"
    return e


def proc_usage(pid):
    """CPU seconds and resident bytes of a process."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / TICK, int(p[21]) * PAGE
    except (OSError, IndexError):
        return None


def runnable(pid):
    """Whether a thread of the process waits for a processor or the disk (a
    blocked process only wakes up for an instant now and then)."""
    hits = 0
    for _ in range(40):
        for p in glob.glob("/proc/%d/task/*/stat" % pid):
            try:
                with open(p) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] in "RDT":
                        hits += 1
                        break
            except (OSError, IndexError):
                pass
        time.sleep(0.05)
    return hits > 8


class Shard:
    def __init__(self, n, prop, binary, scratch, count, seed, e, extra, race):
        self.n = n
        self.dir = os.path.join(scratch, "s%d" % n)
        os.makedirs(self.dir)
        self.beat = os.path.join(self.dir, "beat")
        self.log = os.path.join(self.dir, "log")
        pat = "^Test%s$" % prop if n else "^Test(%s|Reg_%s_.*)$" % (prop, prop)
        self.cmd = [binary, "-test.run", pat, "-test.timeout=0", "-test.v",
                    "-rapid.checks=%d" % count, "-rapid.seed=%d" % seed, "-rapid.shrinktime=20s"] + extra
        e = dict(e, VERIF_OUT=self.dir, VERIF_BEAT=self.beat, GOMAXPROCS="4" if race else "2", TMPDIR=self.dir)
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        self.out = open(self.log, "wb")
        self.p = subprocess.Popen(self.cmd, cwd=self.dir, env=e, stdout=self.out, stderr=subprocess.STDOUT,
                                  start_new_session=True)
        self.last, self.since, self.cpu = None, time.monotonic(), 0.0
        self.failing = None     # when the first case failed
        self.verdict = None     # None, "ok", "violation", "error"
        self.why = ""

    def text(self):
        with open(self.log, "rb") as f:
            return f.read().decode(errors="replace")

    def stop(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass

    def dump(self):
        self.stop(signal.SIGQUIT)
        try:
            self.p.wait(15)
        except subprocess.TimeoutExpired:
            self.stop()
            self.p.wait()

    def poll(self):
        if self.verdict:
            return
        rc = self.p.poll()
        if rc is None:
            u = proc_usage(self.p.pid)
            if u is None:
                return
            cpu, rss = u
            now = time.monotonic()
            try:
                with open(self.beat, "rb") as f:
                    b = f.read(8)
            except OSError:
                b = None
            if b != self.last:
                self.last, self.since, self.cpu = b, now, cpu
            if rss > MAX_RSS:
                self.dump()
                self.verdict, self.why = "violation", "the case makes the process grow beyond %d bytes" % MAX_RSS
                return
            if self.failing is None and os.path.exists(os.path.join(self.dir, "failing")):
                self.failing = now
            if self.failing is not None and now - self.failing > SHRINK:
                self.stop()
                self.p.wait()
                with open(os.path.join(self.dir, "failing"), "rb") as f, open(self.log, "ab") as g:
                    g.write(f.read())
                self.verdict, self.why = "violation", "a case failed (not shrunk)"
                return
            if now - self.since > STALL and b is not None:
                spent = cpu - self.cpu
                if spent > SPIN_CPU or spent < BLOCK_CPU and not runnable(self.p.pid):
                    self.dump()
                    self.verdict = "violation"
                    self.why = "the case does not end (%.0f s, %.1f s of CPU)" % (now - self.since, spent)
            return
        t = self.text()
        if rc == 0:
            self.verdict = "ok" if os.path.exists(os.path.join(self.dir, "stats.json")) or "--replay" in sys.argv else "error"
            self.why = "no statistics were written"
        elif "HARNESS:" in t or "only generated" in t and "valid tests" in t:
            self.verdict, self.why = "error", "the harness failed"
        elif rc < 0:
            self.verdict, self.why = "error", "killed by signal %d" % -rc
        elif "out of memory" in t or "cannot allocate memory" in t or "no space left" in t:
            self.verdict, self.why = "error", "out of resources"
        elif "--- FAIL" in t or "panic:" in t or "fatal error:" in t or "DATA RACE" in t:
            self.verdict, self.why = "violation", "the test failed"
        else:
            self.verdict, self.why = "error", "exit status %d" % rc


def reason(text):
    """A short description of the failure."""
    for pat in (r"\[rapid\] (?:failed after|panic after|flaky).*", r"panic: .*", r"fatal error: .*", r"WARNING: DATA RACE", r"--- FAIL.*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)[:500]
    return ""


def main():
    args = sys.argv[1:]
    replay = None
    if args and args[0] == "--replay":
        replay = os.path.abspath(args[1])
        args = args[2:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
    with open(os.path.join(VERIF, "checks.json")) as f:
        conf = json.load(f)[prop]
    count = int(float(os.environ.get("VERIF_SCALE", "1")) * conf[tier])
    race = bool(conf.get("race"))
    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    shards = []
    try:
        return run(prop, tier, seed, conf, count, race, start, scratch, shards, replay)
    finally:
        for s in shards:
            s.stop()
            s.p.wait()
            s.out.close()
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, conf, count, race, start, scratch, shards, replay):
    e = env()
    binary = os.path.join(scratch, "props.test")
    cmd = ["go", "test", "-c", "-o", binary] + (["-race"] if race else []) + ["./props"]
    if race:
        e["CGO_ENABLED"] = "1"
    if replay and replay.endswith(".fuzz"):
        return fuzz_replay(prop, race, scratch, e, replay)
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace"))
        print("ERROR property=%s the harness does not build" % prop)
        return 2
    built = time.monotonic()

    n = 1 if replay else SHARDS
    for i in range(n):
        h = hashlib.sha256(("%s/%s/%d/%d" % (prop, tier, seed, i)).encode()).digest()
        sseed = int.from_bytes(h[:7], "big") | 1
        extra = ["-rapid.failfile=%s" % replay] if replay and replay.endswith(".fail") else []
        shards.append(Shard(i, prop, binary, scratch, max(1, count // n), sseed, e, extra, race))
    deadline = start + BUDGET[tier]
    bad = None
    while True:
        for s in shards:
            s.poll()
        bad = next((s for s in shards if s.verdict == "violation"), None)
        if bad or all(s.verdict for s in shards):
            break
        if time.monotonic() > deadline:
            print("ERROR property=%s time budget exhausted" % prop)
            return 2
        time.sleep(0.05)

    if replay:
        print(shards[0].text()[-8000:])
        print("replay: %s (%s)" % (shards[0].verdict, shards[0].why))
        return 1 if bad else 0 if shards[0].verdict == "ok" else 2

    violations = 0
    if bad:
        violations = 1
        path = save(prop, tier, seed, bad)
        write_evidence(prop, tier, seed, conf, shards, start, built, violations)
        t = bad.text()
        print(t[-6000:])
        print("%s: %s (shard %d)" % (bad.why, reason(t), bad.n))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for s in shards:
        if s.verdict == "error":
            print(s.text()[-6000:])
            print("ERROR property=%s shard %d: %s" % (prop, s.n, s.why))
            return 2
    guided = None
    if tier == "thorough" or "VERIF_FUZZ" in os.environ:
        guided, path, text = fuzz(prop, tier, seed, conf, race, scratch, e)
        if guided is None:
            print(text[-6000:])
            print("ERROR property=%s the coverage-guided search failed" % prop)
            return 2
        if path:
            write_evidence(prop, tier, seed, conf, shards, start, built, 1, guided)
            print(text[-6000:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    ev = write_evidence(prop, tier, seed, conf, shards, start, built, 0, guided)
    known(prop)
    c = ev["coverage"]
    print("OK property=%s tier=%s seed=%d cases=%d distinct non-trivial=%d in %.1f s" % (
        prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    return 0


def fuzz_build(race, scratch, e):
    binary = os.path.join(scratch, "fuzz.test")
    cmd = ["go", "test", "-c", "-fuzz=FuzzProp", "-o", binary] + (["-race"] if race else []) + ["./props"]
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (binary if r.returncode == 0 else None), r.stdout.decode(errors="replace")


def fuzz(prop, tier, seed, conf, race, scratch, e):
    """Search the cases with the fuzzer of Go, which keeps the random choices
    that reach new code. Gives what was done, the replay file and the output."""
    binary, text = fuzz_build(race, scratch, e)
    if binary is None:
        return None, None, text
    secs = int(os.environ.get("VERIF_FUZZ", conf.get("fuzz", FUZZ)))
    d = os.path.join(scratch, "fuzz")
    corpus = os.path.join(d, "testdata", "fuzz", "FuzzProp")
    os.makedirs(corpus)
    r = random.Random("%s/%d" % (prop, seed))
    for i in range(24):
        b = bytearray(r.randbytes(1 << (11 + i % 6)))
        if i % 3 == 0:      # small choices
            b = bytearray(x if j % 8 == 0 else 0 for j, x in enumerate(b))
        with open(os.path.join(corpus, "start-%d" % i), "w") as f:
            f.write('go test fuzz v1\n[]byte("%s")\n' % "".join("\\x%02x" % x for x in b))
    e = dict(e, VERIF_FUZZ_ID=prop, TMPDIR=d, GOMAXPROCS="8")
    e.pop("VERIF_OUT", None)
    cmd = [binary, "-test.run=^$", "-test.fuzz=^FuzzProp$", "-test.fuzztime=%ds" % secs, "-test.fuzzminimizetime=20x",
           "-test.fuzzcachedir=" + os.path.join(d, "cache"), "-test.parallel=%d" % SHARDS, "-test.timeout=0"]
    with open(os.path.join(d, "log"), "wb") as out:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(secs + 1200)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    with open(os.path.join(d, "log"), "rb") as f:
        text = f.read().decode(errors="replace")
    execs = [int(x) for x in re.findall(r"execs: (\d+)", text)] or [0]
    new = [(int(a), int(b)) for a, b in re.findall(r"new interesting: (\d+) \(total: (\d+)\)", text)] or [(0, 0)]
    done = {"seconds": secs, "inputs": execs[-1], "inputs_reaching_new_code": new[-1][0], "corpus": new[-1][1], "processes": SHARDS}
    found = [f for f in glob.glob(os.path.join(corpus, "*"))
             if not os.path.basename(f).startswith("start-") or re.search(r"FuzzProp/%s\b" % os.path.basename(f), text)]
    if found and rc:
        base = os.path.join(VERIF, "replays", "%s-%s-%d-guided" % (prop, tier, seed))
        os.makedirs(os.path.dirname(base), exist_ok=True)
        shutil.copy(found[0], base + ".fuzz")
        with open(base + ".log", "w") as f:
            f.write(text)
        return done, base + ".fuzz", text
    # The fuzzer may give this instead of success when its time is up.
    over = rc and "context deadline exceeded" in text and "Failing input" not in text
    return (done if rc == 0 or over else None), None, text


def fuzz_replay(prop, race, scratch, e, path):
    binary, text = fuzz_build(race, scratch, e)
    if binary is None:
        print(text)
        return 2
    d = os.path.join(scratch, "testdata", "fuzz", "FuzzProp")
    os.makedirs(d)
    shutil.copy(path, os.path.join(d, "case"))
    r = subprocess.run([binary, "-test.run=^FuzzProp$/^case$", "-test.v"], cwd=scratch, env=dict(e, VERIF_FUZZ_ID=prop, TMPDIR=scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(r.stdout.decode(errors="replace")[-8000:])
    print("replay: %s" % ("violation" if r.returncode else "ok"))
    return 1 if r.returncode else 0


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    print(line.rstrip())
    except OSError:
        pass


def save(prop, tier, seed, s):
    """Keep what reproduces the failure."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s-%d-%d" % (prop, tier, seed, s.n))
    with open(base + ".log", "w") as f:
        f.write("property %s, %s\ncommand: %s\n(seed %d, tier %s, shard %d)\n\n%s" % (
            prop, s.why, " ".join(s.cmd), seed, tier, s.n, s.text()))
    for root, _, files in os.walk(os.path.join(s.dir, "testdata")):
        for fn in files:
            if fn.endswith(".fail"):
                shutil.copy(os.path.join(root, fn), base + ".fail")
                return base + ".fail"
    return base + ".log"


def write_evidence(prop, tier, seed, conf, shards, start, built, violations, guided=None):
    evals = nontr = skipped = 0
    labels, keys, samples, rule = {}, set(), [], ""
    for s in shards:
        try:
            with open(os.path.join(s.dir, "stats.json")) as f:
                st = json.load(f)
        except (OSError, ValueError):
            continue
        evals += st["evaluations"]
        nontr += st["nontrivial"]
        skipped += st["skipped"]
        rule = st["rule"]
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if len(samples) < 12:
            samples += (st["samples"] or [])[:3]
        try:
            with open(os.path.join(s.dir, "keys.bin"), "rb") as f:
                b = f.read()
            keys.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "nontrivial": nontr,
            "rule": rule, "samples": samples[:12], "labels": dict(sorted(labels.items())),
            "incomplete_cases": skipped, "shards": len(shards),
            "regression_tests": sum(s.text().count("--- PASS: TestReg_") for s in shards),
            "race_detector": bool(conf.get("race")),
        },
        "assumptions": conf.get("assumptions", [
            "The in-memory block store of the harness behaves like a real DAG service.",
            "Generated inputs are bounded in size as the rule and DESIGN.md say; absence of violations outside them is not shown."]),
        "wall_s": round(time.monotonic() - start, 2),
        "build_s": round(built - start, 2),
        "violations": violations,
    }
    if guided:
        ev["coverage"]["coverage_guided"] = guided
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.json" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    return ev


if __name__ == "__main__":
    sys.exit(main())
