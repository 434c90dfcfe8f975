#!/usr/bin/env python3
"""C31: the executions of all properties under AddressSanitizer (checked and plain build), ThreadSanitizer and Miri.

The monitors are the three tools: a report of one of them is a violation. The behavioural
verdicts of the harness are not looked at here.

  c31.py            the check (VERIF_TIER, VERIF_SEED)
  c31.py build      only builds, for setup_cmd
  c31.py replay <tool> <stream> <n> <seed>
"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
T = f"{HERE}/target"
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = os.environ.get("VERIF_SEED", "1").strip() or "1"
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4
KEY = 'C31'
# the quick check stops on its own well before the 900 s a check is given, however slow the machine
TOOLS = ("asan", "asan-plain", "tsan", "miri")
DEADLINE = time.time() + (12 * 3600 if THOROUGH else 480)

BASE = {k: v for k, v in os.environ.items()
        if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUSTC_WRAPPER")}
BASE.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_DIR=HERE)


def env(tool):
    e = dict(BASE)
    if tool == "asan":
        e.update(RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes", CARGO_TARGET_DIR=f"{T}/asan",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1")
    elif tool == "asan-plain":
        # as users build: no debug assertions that would stop the execution before the error
        e.update(RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes", CARGO_TARGET_DIR=f"{T}/asan-plain",
                 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1")
    elif tool == "tsan":
        e.update(RUSTFLAGS="-Zsanitizer=thread", CARGO_TARGET_DIR=f"{T}/tsan",
                 TSAN_OPTIONS="exitcode=77:halt_on_error=1:report_signal_unsafe=0")
    else:
        os.makedirs(f"{T}/miri-cache", exist_ok=True)
        e.update(XDG_CACHE_HOME=f"{T}/miri-cache", CARGO_TARGET_DIR=f"{T}/miri",
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-deterministic-floats")
    return e


def command(tool, args):
    if tool == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--"] + args
    return [f"{T}/{tool}/{TRIPLE}/release/gkmon"] + args


def sh(cmd, e, timeout=None):
    p = subprocess.Popen(cmd, cwd=f"{HERE}/harness", env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def build(tool):
    if tool == "miri":
        rc, out = sh(["cargo", "+nightly", "miri", "setup"], env(tool))
        if rc == 0:
            rc, out = sh(command(tool, ["list"]), env(tool))
    else:
        std = ["-Zbuild-std"] if tool == "tsan" else []
        rc, out = sh(["cargo", "+nightly", "build"] + std + ["--release", "--offline", "--locked", "--target", TRIPLE, "-q"], env(tool))
    if rc != 0:
        print(f"BUILD-ERROR: the {tool} build of the harness failed", file=sys.stderr)
        print("\n".join(out.splitlines()[-40:]), file=sys.stderr)
    return rc == 0


REPORT = re.compile(
    r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|FATAL: ThreadSanitizer.*|error: Undefined Behavior: .*"
    r"|unsafe precondition\(s\) violated.*|error: memory leaked.*|panic in a function that cannot unwind.*|has overflowed its stack.*)")


def streams(tool):
    # the names of all streams, from the harness itself
    rc, out = sh([f"{T}/asan/{TRIPLE}/release/gkmon", "soak", "0", SEED, "1", "-", "0", "1"], env("asan"))
    m = re.search(r"streams=(\S+)", out)
    if rc != 0 or not m:
        print(out[-2000:], file=sys.stderr)
        return None
    return m.group(1).split(",")


def job(tool, stream, n, seed, threads, timeout, flags=""):
    e = env(tool)
    if flags:
        e["MIRIFLAGS"] += " " + flags
    t0 = time.time()
    if timeout is not None:
        timeout = min(timeout, DEADLINE - t0)
        if timeout < 2:
            return dict(tool=tool, stream=stream, n=n, seed=seed, threads=threads, rc=None, wall=0, flags=flags, executions=0, distinct=0, calls=0,
                        report=None, error=None, cut=True, out="")
    rc, out = sh(command(tool, ["soak", str(n), seed, str(threads), stream, "0", "1"]), e, timeout)
    done = re.search(r"SOAK-DONE executions=(\d+) distinct=(\d+) calls_observed=(\d+)", out)
    rep = REPORT.search(out)
    r = dict(tool=tool, stream=stream, n=n, seed=seed, threads=threads, rc=rc, wall=round(time.time() - t0, 1), flags=flags,
             executions=int(done.group(1)) if done else 0, distinct=int(done.group(2)) if done else 0,
             calls=int(done.group(3)) if done else 0, report=None, error=None, cut=False, out=out)
    if rep:
        r["report"] = rep.group(0)
    elif rc is not None and (rc < 0 and -rc in (4, 6, 7, 8, 11)):
        r["report"] = f"the process died of signal {-rc}"
    elif rc is None:
        r["cut"] = True  # what ran until then was without a report, but is not counted
    elif rc != 0 or not done:
        r["error"] = f"exit {rc}"
    return r


def main():
    t0 = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        if not all(list(ex.map(build, TOOLS))):
            return 3
    if sys.argv[1:2] == ["build"]:
        return 0
    if sys.argv[1:2] == ["replay"]:
        tool, stream, n, seed = sys.argv[2:6]
        r = job(tool, stream, int(n), seed, 1 if tool == "miri" else 8, None, " ".join(sys.argv[6:]))
        print(r["out"])
        return 1 if r["report"] else 0
    names = streams("asan")
    if names is None:
        return 3
    res = []
    k = 20 if THOROUGH else 1
    # AddressSanitizer: everything, all cores
    res.append(job("asan", "-", 60000 * k, SEED, CPUS, 7200 if THOROUGH else 200))
    res.append(job("asan", f"{KEY}/slices", 60000 * k, SEED, CPUS, 7200 if THOROUGH else 100))
    res.append(job("asan-plain", "-", 20000 * k, SEED, CPUS, 7200 if THOROUGH else 100))
    res.append(job("asan-plain", f"{KEY}/slices", 60000 * k, SEED, CPUS, 7200 if THOROUGH else 100))
    # ThreadSanitizer: everything in parallel, and the concurrent workloads of C30
    res.append(job("tsan", "-", 30000 * k, SEED, CPUS, 7200 if THOROUGH else 200))
    res.append(job("tsan", "C30/threads", 100 * 3000 * k, SEED, 2, 7200 if THOROUGH else 120))
    # Miri: an interpreter, so few executions of each stream, in as many processes as cores
    n = 200 if THOROUGH else 15
    jobs = [("miri", s, 3 if s.startswith("C30/") else n, SEED, 1, "") for s in names if s not in (f"{KEY}/slices", "C17/reference")]
    for i in range(4):
        jobs.append(("miri", f"{KEY}/slices", 120 * (10 if THOROUGH else 1), str(int(SEED) * 1000 + i), 1, ""))
    for i in range(24 if THOROUGH else 4):
        jobs.append(("miri", "C30/threads", 1, str(int(SEED) * 1000 + i), 1, f"-Zmiri-seed={int(SEED) * 100 + i}"))
    # the slow ones first
    slow = ("C30", "C23", "C24", "C31", "C16", "C17", "C11", "C12", "C13", "C18")
    jobs.sort(key=lambda j: not j[1].startswith(slow))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = [ex.submit(job, t, s, n, sd, th, 3600 if THOROUGH else 400, fl) for (t, s, n, sd, th, fl) in jobs]
        res += [f.result() for f in fs]

    bad = [r for r in res if r["report"]]
    err = [r for r in res if r["error"]]
    cut = [r for r in res if r["cut"]]
    if not bad and not all(any(r["executions"] for r in res if r["tool"] == t) for t in TOOLS):
        err.append(dict(tool="all", stream="-", error="one of the tools completed no execution in the time", out=""))
    per = {}
    for r in res:
        p = per.setdefault(r["tool"], dict(executions=0, distinct_executions=0, library_calls_observed=0, processes=0, reports=0))
        p["executions"] += r["executions"]
        p["distinct_executions"] += r["distinct"]
        p["library_calls_observed"] += r["calls"]
        p["processes"] += 1
        p["reports"] += bool(r["report"])
    ev = {
        "property": KEY, "tier": TIER, "seed": int(SEED), "level": "exploration",
        "coverage": {
            "evaluations": sum(r["executions"] for r in res),
            "distinct_nontrivial": sum(r["distinct"] for r in res),
            "rule": "execution = one numbered execution of a stream of another property, or of the wrong-length-slices stream, observed by one of "
                    "AddressSanitizer (all cores; builds with and without debug assertions), ThreadSanitizer (std instrumented as well), Miri (one process per stream; several scheduling seeds "
                    "for the concurrent workload). Distinct by the hash of its inputs within a process; non-trivial when the library was called.",
            "per_tool": per,
            "streams": names,
            "not_completed_in_time": [f"{r['tool']} {r['stream']}" for r in cut],
            "samples": [f"{r['tool']} {r['stream']} n={r['n']} seed={r['seed']} {r['flags']}: {r['executions']} executions, {r['calls']} calls, {r['wall']} s, no report"
                        if not r["report"] else f"{r['tool']} {r['stream']}: {r['report']}" for r in res[:40]],
        },
        "assumptions": ["memory that the tools see: safe Rust reached through the public API of the library and its dependencies",
                        "data races are looked for in the executions of several threads that C30 and the harness make"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(bad),
    }
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    with open(f"{HERE}/evidence/{KEY}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{KEY} {TIER} seed={SEED} " + " ".join(f"{t}: executions={p['executions']} calls={p['library_calls_observed']};" for t, p in per.items()),
          f"not completed in time={len(cut)}",
          f"wall={ev['wall_s']}s")
    if bad:
        path = f"{HERE}/evidence/replay/{KEY}-{TIER}-{SEED}.txt"
        with open(path, "w") as f:
            for r in bad:
                f.write(f"{r['report']}\nreplay: python3 {HERE}/c31.py replay {r['tool']} {r['stream']} {r['n']} {r['seed']} {r['flags']}\n")
                f.write("\n".join(r["out"].splitlines()[-120:]) + "\n\n")
        for r in bad[:6]:
            print(f"  [{r['tool']}] {r['stream']}: {r['report']}")
        print(f"VIOLATION property={KEY} replay={path}")
        return 1
    if err:
        for r in err[:4]:
            print(f"CHECK-ERROR: {r['tool']} {r['stream']}: {r['error']}\n" + "\n".join(r["out"].splitlines()[-15:]), file=sys.stderr)
        return 3
    print(f"HELD property={KEY} on everything explored")
    return 0


sys.exit(main())
