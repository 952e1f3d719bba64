#!/usr/bin/env python3
"""Builds the harness against /repo, runs the checks, and judges what they saw.

  run.py check C01 [--tier quick|thorough] [--seed N]   decide a property
  run.py replay FILE                                    run a recorded violation again
  run.py setup                                          see that everything builds
"""
import array
import difflib
import json
import os
import re
import resource
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

import misuse as misuses
import props

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
SHIM = "/opt/vp/shim/rustc"
ASAN = "-Zsanitizer=address --cfg plain_alloc"
TRIPLE = "x86_64-unknown-linux-gnu"
MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance"

# lane: what it is, features, profile
LANES = {
    "sd": dict(what="stable toolchain, std, debug assertions", features="std"),
    "al": dict(what="stable toolchain, alloc feature only", features="alloc"),
    "n0": dict(what="stable toolchain, no features", features=""),
    "so": dict(what="stable toolchain, std, optimised, no debug assertions", features="std", profile="release"),
    "nd": dict(what="rustc 1.52.1, nightly feature, debug assertions", features="std,nightly", old=True),
    "no": dict(what="rustc 1.52.1, nightly feature, optimised, no debug assertions", features="std,nightly", old=True, profile="release"),
    "sa": dict(what="AddressSanitizer, std, no debug assertions", features="std", asan=True, profile="rel0"),
    "na": dict(what="AddressSanitizer, rustc 1.52.1, nightly feature, no debug assertions", features="std,nightly", old=True, asan=True, profile="rel0"),
    "mi": dict(what="Miri interpreter, std", features="std", miri=True),
}


def lane_env(lane):
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "MIRIFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS")}
    l = LANES[lane]
    if l.get("old"):
        env["RUSTC"] = SHIM
    if l.get("asan"):
        env["RUSTFLAGS"] = ASAN
    if l.get("miri"):
        env["MIRIFLAGS"] = MIRI
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build_cmd(lane, bins):
    l = LANES[lane]
    tool = ["cargo"]
    if l.get("old"):
        tool.append("+1.79.0")
    elif l.get("asan") or l.get("miri"):
        tool.append("+nightly")
    args = ["--offline", "--target-dir", os.path.join(TARGET, lane)]
    if l["features"]:
        args += ["--features", l["features"]]
    if l.get("profile"):
        args += ["--profile", l["profile"]]
    if l.get("asan"):
        args += ["--target", TRIPLE]
    for b in bins:
        args += ["--bin", b]
    if l.get("miri"):
        # builds, and runs one case
        return tool + ["miri", "run"] + args
    return tool + ["build"] + args


def exe(lane, bin):
    l = LANES[lane]
    d = os.path.join(TARGET, lane)
    if l.get("asan"):
        d = os.path.join(d, TRIPLE)
    return os.path.join(d, {"release": "release", "rel0": "rel0"}.get(l.get("profile"), "debug"), bin)


def build(lane, bin, log):
    """None, or what went wrong"""
    if LANES[lane].get("miri"):
        cmd = build_cmd(lane, [bin]) + ["--", "--cases", "0"]
    else:
        cmd = build_cmd(lane, [bin])
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=lane_env(lane), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        return "the build took over 600 s"
    out = r.stdout.decode("utf-8", "replace")
    log("lane %s (%s): built in %.1f s, exit %d" % (lane, LANES[lane]["what"], time.time() - t, r.returncode))
    if r.returncode:
        errs = [x for x in out.splitlines() if not x.startswith(("warning", "   Compiling"))]
        i = next((k for k, x in enumerate(errs) if x.startswith("error")), 0)
        return "\n".join(errs[i:i + 30])
    return None


def run_cmd(lane, bin, args):
    if LANES[lane].get("miri"):
        return build_cmd(lane, [bin]) + ["--"] + args
    return [exe(lane, bin)] + args


def run_env(lane):
    env = lane_env(lane)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0"
    return env


def limits(lane, cpu):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if not LANES[lane].get("asan") and not LANES[lane].get("miri"):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


class Ended:
    pass


STALL = 100


def execute(lane, bin, args, timeout, cpu=0, progress=None):
    """Runs a lane's binary. With `progress`, it is ended early when that file stands still"""
    e = Ended()
    t = time.time()
    p = subprocess.Popen(run_cmd(lane, bin, args), cwd=HARNESS, env=run_env(lane), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(lane, cpu))
    e.timed_out = False
    try:
        while True:
            try:
                out, err = p.communicate(timeout=min(10, max(0.1, t + timeout - time.time())))
                break
            except subprocess.TimeoutExpired:
                try:
                    still = progress is not None and time.time() - max(t, os.path.getmtime(progress)) > STALL
                except OSError:
                    still = False
                if still or time.time() - t > timeout:
                    raise
    except subprocess.TimeoutExpired:
        e.timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    e.rc = p.returncode
    e.out = out.decode("utf-8", "replace")
    e.err = err.decode("utf-8", "replace")
    e.secs = time.time() - t
    return e


def summary(e):
    for l in e.out.splitlines():
        if l.startswith("SUMMARY "):
            try:
                return json.loads(l[8:])
            except ValueError:
                return None
    return None


def reported(lane, e):
    """What a sanitizer or interpreter said, or None"""
    if LANES[lane].get("asan"):
        m = re.search(r"ERROR: AddressSanitizer:? (.*)", e.err)
        if m:
            return "AddressSanitizer: " + m.group(1)[:300]
    if LANES[lane].get("miri"):
        m = re.search(r"^error: (Undefined Behavior.*|memory leaked.*|abnormal termination.*|the evaluated program .*)", e.err, re.M)
        if m:
            where = re.search(r"--> (.*)", e.err[m.start():])
            return "Miri: %s %s" % (m.group(1)[:300], where.group(1) if where else "")
    return None


CRASH = {-signal.SIGSEGV: "SIGSEGV", -signal.SIGBUS: "SIGBUS", -signal.SIGILL: "SIGILL", -signal.SIGABRT: "SIGABRT", -signal.SIGFPE: "SIGFPE", -signal.SIGTRAP: "SIGTRAP"}


def crashed(lane, e):
    r = reported(lane, e)
    if r:
        return r
    if e.rc in CRASH:
        tail = " ".join(e.err.strip().splitlines()[-3:])[:300]
        return "the process was ended by %s: %s" % (CRASH[e.rc], tail)
    return None


class Judge:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.violations = []
        self.known_seen = []
        self.errors = []
        self.runs = []
        self.known = load_known(prop.id)
        self.deadline, self.left_out = None, 0

    def log(self, s):
        with self.lock:
            print(s, flush=True)

    def violation(self, lane, seed, group, case, message, log, other=None):
        with self.lock:
            for k, what in self.known:
                if re.search(k, "%s %s" % (group, message)):
                    self.known_seen.append(what)
                    return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%s-%d.json" % (self.prop.id, lane, len(self.violations)))
            args = ["--seed", str(seed), "--only", group or "?", str(case)]
            json.dump({"property": self.prop.id, "lane": lane, "lane_is": LANES[lane]["what"], "bin": self.prop.bin, "args": args,
                       "build": " ".join(build_cmd(lane, [self.prop.bin])), "group": group, "case": case, "message": message, "log": log, "compare_with_lane": other},
                      open(f, "w"), indent=1)
            self.violations.append((lane, group, case, message))
            print("VIOLATION property=%s replay=%s" % (self.prop.id, f), flush=True)
            print("  lane %s, %s case %s: %s" % (lane, group, case, message[:1500]), flush=True)

    def misuse(self, lane, name, message, log):
        with self.lock:
            for k, what in self.known:
                if re.search(k, "%s %s" % (name, message)):
                    self.known_seen.append(what)
                    return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%s-%d.json" % (self.prop.id, lane, len(self.violations)))
            json.dump({"property": self.prop.id, "lane": lane, "lane_is": LANES[lane]["what"], "program": name, "text": misuses.programs()[name][1], "message": message, "log": log}, open(f, "w"), indent=1)
            self.violations.append((lane, name, 0, message))
            print("VIOLATION property=%s replay=%s" % (self.prop.id, f), flush=True)
            print("  lane %s, program %s: %s" % (lane, name, message[:1500]), flush=True)

    def error(self, s):
        with self.lock:
            self.errors.append(s)
            print("ERROR " + s, flush=True)

    def one(self, lane, part, seed, cases, budget):
        p = self.prop
        w = os.path.join(TARGET, "work")
        os.makedirs(w, exist_ok=True)
        progress = os.path.join(w, "%s-%s-%d.progress" % (p.id, lane, part))
        sigs = os.path.join(w, "%s-%s-%d.sigs" % (p.id, lane, part))
        args = ["--seed", str(seed), "--cases", str(cases), "--budget", str(budget), "--progress", progress, "--sigs", sigs]
        if p.id == "C27":
            args.append("--hashes")
        for f in (progress, sigs):
            if os.path.exists(f):
                os.remove(f)
        e = execute(lane, p.bin, args, budget + 200, progress=None if LANES[lane].get("miri") else progress)
        s = summary(e)
        rec = {"lane": lane, "part": part, "seed": seed, "rc": e.rc, "seconds": round(e.secs, 2), "summary": s, "sigs": sigs, "out": e.out}
        with self.lock:
            self.runs.append(rec)
        at = None
        try:
            at = open(progress).readline().rsplit(None, 1)
        except OSError:
            pass
        group, case = (at[0], int(at[1])) if at and len(at) == 2 else (None, None)
        if s and s["bad"]:
            for b in s["bad"]:
                self.violation(lane, seed, b["group"], b["case"], b["message"], b["log"])
            return
        c = crashed(lane, e)
        bads = [l[4:] for l in e.out.splitlines() if l.startswith("BAD ")]
        if bads and not s:
            b = json.loads(bads[0])
            self.violation(lane, seed, b["group"], b["case"], b["message"], [])
            return
        if c:
            log = e.err.splitlines()[:120]
            self.violation(lane, seed, group, case, c, log)
            return
        if e.timed_out or e.rc == -signal.SIGKILL:
            if self.violations:
                # the verdict is known already
                self.log("lane %s: %s at %s case %s" % (lane, "timed out" if e.timed_out else "killed", group, case))
                return
            # is it this case that does not end?
            if group is not None and e.timed_out and not LANES[lane].get("miri"):
                cpu = 60
                e2 = execute(lane, p.bin, ["--seed", str(seed), "--only", group, str(case)], 240, cpu)
                if e2.rc in (-signal.SIGXCPU, -signal.SIGKILL) and not e2.timed_out:
                    self.violation(lane, seed, group, case, "does not end: the case used up %d s of CPU time, alone, twice" % cpu, [])
                    return
                c = crashed(lane, e2)
                if c or e2.rc == 1:
                    self.violation(lane, seed, group, case, c or e2.out[-1500:], [])
                    return
            self.error("lane %s: inconclusive, %s at %s case %s" % (lane, "timed out" if e.timed_out else "killed", group, case))
            return
        if not s:
            m = [l for l in e.out.splitlines() if l.startswith("HARNESS")]
            self.error("lane %s: exit %s without a summary: %s %s" % (lane, e.rc, m[:1], e.err[-1500:]))


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


EXTRA = {"so": "sd", "no": "nd", "al": "sd", "n0": "sd"}


THOROUGH_SECONDS = 900


def plan(p, tier):
    """[(lane, cases, budget, parts)]"""
    if tier == "quick":
        return [(l, n, 60 if l != "mi" else 90, 1 if p.id == "C27" else (8 if l == "mi" else 2)) for l, n in p.quick]
    lanes = dict(p.quick)
    for l, like in EXTRA.items():
        if like in lanes and l not in lanes:
            lanes[l] = lanes[like] // 2 + 1
    if "mi" not in lanes and "sd" in lanes and p.id != "C27":
        lanes["mi"] = 60
    if p.id == "C27":
        return [(l, n * 30, 100000, 1) for l, n in lanes.items()]
    # no process runs more than 10000 cases: some of them leak on purpose
    return [(l, n * 30, 120, max(2, min(99, n * 30 // 10000))) if l != "mi" else (l, n * 8, 300, 16) for l, n in lanes.items()]


def check(pid, tier, seed):
    p = props.BY_ID[pid]
    t0 = time.time()
    j = Judge(p, tier, seed)
    if p.bin == "misuse":
        j.distinct = set()
        cov = misuses.check(sys.modules[__name__], j, [l for l, _ in p.quick])
        n = sum(cov["outcomes"].values())
        cov.update({"evaluations": n, "distinct_nontrivial": len(j.distinct), "rule": p.rule,
                    "samples": [{"program": k, "outcome": v} for k, v in sorted(cov["accepted_by_the_compiler"].items())][:6]})
        return end(j, cov, n, len(j.distinct), t0)
    todo = plan(p, tier)
    only = os.environ.get("VERIF_LANES")
    if only:
        todo = [x for x in todo if x[0] in only.split(",")]
    skipped = []
    with ThreadPoolExecutor(max_workers=8) as pool:
        def lane(x):
            l, cases, budget, parts = x
            err = build(l, p.bin, j.log)
            if err:
                if LANES[l].get("miri") and len(todo) > 1:
                    j.log("lane mi is not available, and decides nothing here: " + err[-300:])
                    skipped.append("mi")
                    return []
                j.error("lane %s does not build:\n%s" % (l, err))
                return []
            li = sorted(LANES).index(l)
            out = []
            for k in range(parts):
                s = seed if p.id == "C27" else seed * 10000 + li * 100 + k
                out.append((l, k, s, max(1, cases // parts), budget))
            return out
        built = [pool.submit(lane, x) for x in todo]
        with ThreadPoolExecutor(max_workers=8) as runners:
            if tier == "quick":
                # start the runs of a lane as soon as it is built
                for b in as_completed(built):
                    for r in b.result():
                        runners.submit(guarded, j, *r)
            else:
                # the lanes in turn, until the time is up
                runs = [b.result() for b in built]
                j.deadline = time.time() + THOROUGH_SECONDS
                for k in range(max(len(x) for x in runs)):
                    for x in runs:
                        if k < len(x):
                            runners.submit(guarded, j, *x[k])
    if p.id == "C27":
        compare(j)
    return finish(j, skipped, t0)


def guarded(j, *r):
    if j.deadline and time.time() > j.deadline:
        j.left_out += 1
        return
    try:
        j.one(*r)
    except Exception as e:  # an error of this program is never a verdict
        j.error("lane %s: %r" % (r[0], e))


def compare(j):
    """The hashes of the same cases in different builds"""
    seen = {}
    n = 0
    for r in j.runs:
        for l in r["out"].splitlines():
            m = re.match(r"HASH (\S+) (\d+) (\w+)$", l)
            if m:
                n += 1
                seen.setdefault((m.group(1), int(m.group(2))), {})[r["lane"]] = m.group(3)
    bad = {}
    for (group, rnd), h in sorted(seen.items()):
        if len(set(h.values())) > 1:
            bad.setdefault(group, []).append((rnd, h))
    for group, x in list(bad.items())[:3]:
        rnd, h = x[0]
        ref = h.get("sd") or next(iter(h.values()))
        lane = next(l for l in h if h[l] != ref)
        j.violation(lane, j.seed, group, rnd, "results differ between builds: %s" % h, [], other="sd" if "sd" in h else next(iter(h)))
    j.compared = sum(1 for h in seen.values() if len(h) > 1)
    if not j.compared and not j.errors and not j.violations:
        j.error("nothing to compare")


def finish(j, skipped, t0):
    p = j.prop
    total = {}
    ops, per_lane, samples, sigs = {}, {}, [], set()
    ev = 0
    for r in j.runs:
        s = r["summary"]
        if not s:
            continue
        ev += s["evaluations"]
        for k in ("elements_made", "elements_dropped", "clones", "identity_checks", "allocations", "reallocations", "frees"):
            total[k] = total.get(k, 0) + s[k]
        for k, v in s["callbacks"].items():
            total["callbacks: " + k] = total.get("callbacks: " + k, 0) + v
        for k, v in s["operations"].items():
            ops[k] = ops.get(k, 0) + v
        d = per_lane.setdefault(r["lane"], {"what": LANES[r["lane"]]["what"], "cases": 0, "seconds": 0})
        d["cases"] += s["evaluations"]
        d["seconds"] = round(d["seconds"] + r["seconds"], 2)
        d["combinations"] = len(s["cases"])
        if s["samples"] and len(samples) < 4:
            samples.append({"lane": r["lane"], "seed": r["seed"], "case": s["samples"][0]})
        try:
            a = array.array("Q")
            with open(r["sigs"], "rb") as f:
                a.frombytes(f.read())
            sigs.update(a)
        except (OSError, ValueError):
            pass
    if not samples:
        for r in j.runs:
            if r["summary"]:
                samples = [{"lane": r["lane"], "seed": r["seed"], "case": x} for x in r["summary"]["samples"]][:2]
                if samples:
                    break
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(sigs),
        "rule": p.rule,
        "samples": samples or ["none"],
        "lanes": per_lane,
        "operations": ops,
        "observed": total,
    }
    if p.id == "C27":
        cov["groups_compared"] = getattr(j, "compared", 0)
    if j.left_out:
        cov["runs_left_out_for_time"] = j.left_out
    if skipped:
        cov["lanes_not_available"] = skipped
    return end(j, cov, ev, len(sigs), t0)


def end(j, cov, ev, distinct, t0):
    p = j.prop
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    wall = time.time() - t0
    json.dump({"property": p.id, "tier": j.tier, "seed": j.seed, "level": p.level, "coverage": cov,
               "assumptions": ["the toolchains, the sanitizer runtimes and the monitors of the harness are right",
                               "what the workload does not do is not covered"],
               "wall_s": round(wall, 2), "violations": len(j.violations)}, open(os.path.join(d, p.id + ".json"), "w"), indent=1)
    for k in sorted(set(j.known_seen)):
        print("KNOWN-FINDING: property=%s %s" % (p.id, k))
    print("%s %s: %d cases (%d distinct and non-trivial), %d violations, %d errors, %.1f s" %
          (p.id, j.tier, ev, distinct, len(j.violations), len(j.errors), wall), flush=True)
    if j.violations:
        return 1
    if j.errors:
        return 2
    if not distinct:
        print("ERROR nothing was observed")
        return 2
    return 0


def replay(f):
    d = json.load(open(f))
    if "program" in d:
        return misuses.replay(sys.modules[__name__], d)
    err = build(d["lane"], d["bin"], print)
    if err:
        print(err)
        return 2
    e = execute(d["lane"], d["bin"], d["args"], 300)
    print(e.out)
    print(e.err[-4000:])
    if d.get("compare_with_lane") and not e.rc:
        o = d["compare_with_lane"]
        err = build(o, d["bin"], print)
        if err:
            print(err)
            return 2
        e2 = execute(o, d["bin"], d["args"], 300)
        a, b = e.out.splitlines(), e2.out.splitlines()
        for x in difflib.unified_diff(b, a, "build " + o, "build " + d["lane"], lineterm=""):
            print(x)
        return 1 if a != b else 0
    return 1 if e.rc else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--seed" in a:
        i = a.index("--seed")
        seed = a[i + 1]
        del a[i:i + 2]
    seed = int(re.sub(r"\D", "", seed) or "1")
    if a[:1] == ["check"]:
        return check(a[1], tier, seed)
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["setup"]:
        p = props.claimed()[0]
        errs = [build(l, p.bin, print) for l in ("sd", "nd")]
        for e in errs:
            if e:
                print(e)
        return 2 if any(errs) else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
