#!/usr/bin/env python3
"""run.py ID: builds the monitors against /repo's working tree and runs the one
for property ID. Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
Tier and seed come from VERIF_TIER and VERIF_SEED."""

import json
import os
import re
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CFG = "--cfg bongo_verif"
QUIET = "-Awarnings"
JOBS = min(8, os.cpu_count() or 8)
BEGIN = time.time()

# How many times the base number of random cases the quick tier runs.
SCALE = {"E01": 3, "E02": 3, "E03": 3, "E04": 2, "M01": 4, "T02": 6, "T01": 40, "T03": 8,
         "G02": 15, "X01": 15, "P01": 1, "I01": 5, "G07": 6, "A04": 20}
DEFAULT_SCALE = 30


def environment(target, flags, **more):
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.update(CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    env.update(more)
    return env


def run(cmd, env, limit, cwd=HARNESS):
    """(exit code or None when out of time, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def parallel(cmds, limit):
    """Runs (cmd, env) pairs at the same time; [(exit code or None, output)]"""
    import threading
    res = [None] * len(cmds)

    def one(i):
        res[i] = run(cmds[i][0], cmds[i][1], limit)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(cmds))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def build():
    """The monitors with run-time assertions, the same without (as most users
    build the library), and the flags they were built with; or None."""
    outs = []
    # Should the hooks not compile any more, most monitors do without.
    for name, flags in (("native", CFG + " " + QUIET), ("native-nohooks", QUIET)):
        target = os.path.join(TARGET, name)
        env = environment(target, flags)
        cmds = [(["cargo", "build", "--profile", p, "--offline", "--quiet"], env)
                for p in ("release", "plain")]
        res = parallel(cmds, 700)
        if all(rc == 0 for rc, _ in res):
            return [os.path.join(target, p, "bongo-mon")
                    for p in ("release", "plain")], flags
        print("the build of the monitors (%s) failed" % name)
        outs = [out for rc, out in res if rc != 0]
    print("\n".join(outs)[-4000:])
    return None, None


class Stage:
    """What a stage other than the monitor itself saw."""

    def __init__(self):
        self.coverage = {}
        self.violations = []  # (message, replay text)
        self.trouble = []


def lines(out, tag):
    return [l.split("\t")[1:] for l in out.splitlines() if l.startswith(tag + "\t")]


def judge(stage, name, cmdline, rc, out, kinds):
    """Looks for reports in the output of a sanitizer or interpreter."""
    found = None
    for pattern, what in kinds:
        m = re.search(pattern, out)
        if m:
            found = (what, m)
            break
    if found:
        what, m = found
        text = out[max(0, m.start() - 200):m.start() + 12000]
        stage.violations.append(("%s: %s: %s" % (name, what, m.group(0).strip()[:300]),
                                 "$ %s\n\n%s" % (cmdline, text)))
    elif rc is None:
        stage.trouble.append("%s ran out of time" % name)
    elif rc != 0:
        stage.trouble.append("%s ended with %s: %s" % (name, rc, out[-1500:]))


MIRI_UB = [
    (r"error: Undefined Behavior: .*", "undefined behaviour"),
    (r"error: memory leaked: .*", "memory leak"),
]
MIRI_DEADLOCK = [(r"error: .*deadlock.*", "deadlock")]
MIRI_RACE = [(r"error: Undefined Behavior: Data race.*", "data race")]


def miri(flags, args_of, secs, name, kinds, miri_flags, stage):
    """Runs the monitors under Miri, in several processes."""
    target = os.path.join(TARGET, "miri")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"]
    env = environment(target, flags, MIRIFLAGS=miri_flags)
    # Build first, so that the processes do not wait for each other.
    rc, out = run(base + ["list"], env, 500)
    if rc != 0:
        stage.trouble.append("Miri is not usable: %s" % out[-1500:])
        return []
    cmds = []
    for i in range(JOBS):
        f = miri_flags + " -Zmiri-seed=%d" % (SEED * 1000 + i)
        cmds.append((base + args_of(i), environment(target, flags, MIRIFLAGS=f)))
    res = parallel(cmds, secs * 2 + 240)
    for i, (rc, out) in enumerate(res):
        line = "cd %s; CARGO_TARGET_DIR=%s RUSTFLAGS='%s' MIRIFLAGS='%s' %s" % (
            HARNESS, target, flags, cmds[i][1]["MIRIFLAGS"], " ".join(cmds[i][0]))
        before = len(stage.violations)
        judge(stage, name, line, rc, out, kinds)
        if len(stage.violations) == before:
            for f in lines(out, "INPROC-FAIL"):
                stage.violations.append((
                    "%s: %s %s %s: %s" % (name, f[0], f[1], f[2], f[3][:500]),
                    "$ %s\n\n%s" % (line, out[:12000])))
                break
    return [out for _, out in res]


def stage_m01(flags):
    s = Stage()
    # Miri: small workloads of every part of the library. Its older aliasing
    # rules are violated by a dependency (see DESIGN.md).
    secs = 220 if THOROUGH else 70
    outs = miri(flags,
                lambda i: ["mini", str(SEED), str(i), str(JOBS), "100000", str(secs)],
                secs, "Miri", MIRI_UB,
                "-Zmiri-disable-isolation -Zmiri-tree-borrows", s)
    seen = {}
    for out in outs:
        for k, n in lines(out, "MINI"):
            seen[k] = seen.get(k, 0) + int(n)
    s.coverage["miri_workloads"] = seen
    if not s.violations and (len(seen) < 8 or min(seen.values()) < 2):
        s.trouble.append("Miri saw too little: %s" % seen)
    # AddressSanitizer and LeakSanitizer: cases of all monitors.
    host = "x86_64-unknown-linux-gnu"
    target = os.path.join(TARGET, "asan")
    f = flags + " -Zsanitizer=address -Cforce-frame-pointers=yes"
    rc, out = run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet",
                   "--target", host], environment(target, f), 500)
    exe = os.path.join(target, host, "release", "bongo-mon")
    if rc != 0:
        s.trouble.append("the sanitizer build failed: %s" % out[-1500:])
        return s
    secs = 120 if THOROUGH else 25
    opts = "detect_leaks=%d:exitcode=97:detect_stack_use_after_return=1"
    # Whether leaks can be looked for here: it needs a system call that may be
    # forbidden.
    rc, out = run([exe, "list"], environment(target, f, ASAN_OPTIONS=opts % 1), 60)
    leaks = 1 if rc == 0 else 0
    s.coverage["leak_sanitizer"] = bool(leaks)
    cmds = []
    for i in range(JOBS):
        cmds.append(([exe, "inproc", "all", str(SEED), str(i), str(JOBS), "100000",
                      str(secs), "20"],
                     environment(target, f, ASAN_OPTIONS=opts % leaks)))
    res = parallel(cmds, secs * 3 + 120)
    cases = 0
    for i, (rc, out) in enumerate(res):
        line = "ASAN_OPTIONS=%s %s" % (opts % leaks, " ".join(cmds[i][0]))
        judge(s, "AddressSanitizer", line, rc, out, [
            (r"ERROR: LeakSanitizer: detected memory leaks", "memory leak"),
            (r"ERROR: AddressSanitizer: (?!stack-overflow|out-of-memory|"
             r"allocation-size|requested|rss|failed).*", "memory error"),
            (r"unsafe precondition\(s\) violated.*", "undefined behaviour"),
        ])
        for f3 in lines(out, "INPROC-RAN"):
            cases += int(f3[0])
    s.coverage["address_sanitizer_cases"] = cases
    if not s.violations and cases < 1000:
        s.trouble.append("the sanitizer saw only %d cases" % cases)
    return s


def stage_t02(flags):
    s = Stage()
    secs = 350 if THOROUGH else 60
    outs = miri(flags,
                lambda i: ["inproc", "T02/linear,T02/bulk,T02/equal,T02/once,T02/dots",
                           str(SEED), str(i), str(JOBS), "100000", str(secs), "1000"],
                secs, "Miri schedules", MIRI_DEADLOCK + MIRI_RACE,
                "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows "
                "-Zmiri-preemption-rate=0.05", s)
    seen = {}
    cases = 0
    sigs = set()
    for out in outs:
        for k, n in lines(out, "E"):
            seen[k] = seen.get(k, 0) + int(n)
        for f in lines(out, "INPROC-RAN"):
            cases += int(f[0])
        sigs.update(f[0] for f in lines(out, "S"))
    s.coverage["miri_histories"] = cases
    s.coverage["miri_distinct_histories"] = len(sigs)
    s.coverage["miri_events"] = seen
    if not s.violations and len(sigs) < 10:
        s.trouble.append("only %d histories under Miri" % len(sigs))
    return s


STAGES = {"M01": stage_m01, "T02": stage_t02}


def merge(into, more):
    """Adds what a second run of the monitor saw to the evidence."""
    c, d = into["coverage"], more["coverage"]
    c["without_assertions"] = {k: d[k] for k in (
        "evaluations", "distinct_nontrivial", "events_observed",
        "cases_per_stream", "all_planned_cases_run")}
    into["violations"] += more["violations"]


def main():
    pid = sys.argv[1]
    exes, flags = build()
    if exes is None:
        return 2
    evidence = os.path.join(ROOT, "evidence", pid + ".json")
    scale = float(os.environ.get("MON_SCALE", SCALE.get(pid, DEFAULT_SCALE)))
    secs = (150 if pid in STAGES else 450) if THOROUGH else 120
    rc, out = 0, ""
    import tempfile
    with tempfile.TemporaryDirectory() as tmp:
        for exe, part in zip(exes, (1.0, 0.25)):
            plain = exe != exes[0]
            # Other cases in the second one.
            env = environment(TARGET, flags, MON_SCALE=str(scale * part),
                              MON_SECS=str(max(10, secs * part)),
                              MON_WORKERS=str(JOBS),
                              VERIF_SEED=str(SEED + (1000003 if plain else 0)))
            if plain and THOROUGH:
                # There, the number of cases does not depend on the scale.
                env["MON_SECS"] = "100"
            path = os.path.join(tmp, "plain.json") if plain else evidence
            env["MON_EVIDENCE"] = path
            r, o = run([exe, "check", pid, ROOT], env, 850)
            out += o
            if plain and os.path.exists(path) and os.path.exists(evidence):
                with open(evidence) as f:
                    ev = json.load(f)
                with open(path) as f:
                    merge(ev, json.load(f))
                ev["wall_s"] = round(time.time() - BEGIN, 2)
                with open(evidence, "w") as f:
                    json.dump(ev, f, indent=1)
                    f.write("\n")
            if r == 1 and "VIOLATION property=%s " % pid in o:
                if plain:
                    print("(built without assertions and overflow checks)")
                sys.stdout.write(o)
                return 1
            rc = rc or (r if r is not None else 2)
    stage = STAGES[pid](flags) if pid in STAGES else None
    if stage is not None and os.path.exists(evidence):
        with open(evidence) as f:
            ev = json.load(f)
        ev["coverage"].update(stage.coverage)
        ev["wall_s"] = round(time.time() - BEGIN, 2)
        ev["violations"] += len(stage.violations)
        with open(evidence, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    sys.stdout.write(out)
    if stage is not None and stage.violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-stage-%d.txt" % (pid, SEED))
        message, text = stage.violations[0]
        with open(path, "w") as f:
            f.write(message + "\n\n" + text + "\n")
        print(message)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if stage is not None:
        for t in stage.trouble:
            print("TROUBLE: " + t)
        if stage.trouble:
            return 2
        print("%s: stages %s" % (pid, json.dumps(stage.coverage)))
    return 0 if rc == 0 else 2


if __name__ == "__main__":
    sys.exit(main())
