#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree,
runs its workloads under the monitors, and writes evidence/<id>.json.

  run_check.py C07 [quick|thorough]     exit 0 held, 1 violated, 2 no verdict
  run_check.py --setup                  checks that the tools are there
  run_check.py --replay replay/X.json   runs a recorded failing case again
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
OPTS = os.path.join(VERIF, "opts")
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 8

EXIT_MEMORY, EXIT_BUDGET, EXIT_HANG = 97, 98, 99
TSAN_EXIT, ASAN_EXIT = 66, 67

# ---- what is run for each property -------------------------------------------------
# engine: (workers, cases in quick, time limit in quick, cases in thorough, limit in thorough)


def native(quick, workers=CORES, limit=45):
    return {
        "checked": (workers, quick, limit, quick * 30, 700),
        "release": (workers, quick * 2 // 3, limit, quick * 20, 500),
    }


def plan(prop):
    p = {}
    n = {
        "C01": 250_000, "C02": 250_000, "C03": 250_000, "C04": 250_000,
        "C05": 1_500_000, "C06": 700_000, "C07": 700_000, "C08": 300_000, "C09": 400_000, "C10": 120_000,
        "C11": 500_000, "C12": 1_000_000, "C13": 4_000_000, "C14": 2_000_000, "C17": 100_000,
        "C18": 3_000_000, "C19": 4_000_000, "C20": 200_000, "C22": 250_000, "C23": 500_000, "C24": 300_000,
    }
    if prop in n:
        p.update(native(n[prop]))
    if prop == "C15":
        p["checked"] = (3, 3_000, 40, 100_000, 600)
        p["release"] = (3, 3_000, 40, 100_000, 600)
        p["tsan"] = (2, 400, 40, 20_000, 400)
        p["miri"] = (CORES, 64, 60, 2_000, 700)
    if prop == "C16":
        p["checked"] = (3, 15_000, 40, 500_000, 600)
        p["release"] = (3, 15_000, 40, 500_000, 600)
        p["tsan"] = (2, 2_500, 40, 100_000, 500)
        p["miri"] = (CORES, 160, 60, 5_000, 700)
    if prop == "C01":
        p["asan"] = (CORES, 120_000, 45, 4_000_000, 700)
        p["miri"] = (CORES, 2_000, 75, 100_000, 900)
    if prop == "C02":
        p["miri"] = (CORES, 400, 40, 20_000, 700)
    if prop == "C22":
        p["asan"] = (CORES, 60_000, 30, 2_000_000, 500)
        p["miri"] = (CORES, 400, 40, 20_000, 700)
    return p


def features(prop, engine):
    if prop in ("C01", "C03", "C04"):
        return "all"
    if prop == "C02":
        return "all" if engine != "miri" else "c02,c08,c09,c10"
    return prop.lower() + ",wide"


RULES = {
    "C01": "workloads of all properties over random shapes, views, element types; an evaluation is one library operation or refused request under memory monitors; distinct by operation, shapes, construction routes, element type",
    "C02": "random histories of create/clone/view/combine/drop steps over shared storage, plus the workloads of all properties with drop-tracked elements; distinct by operation sequence or operation signature",
    "C15": "threads released together that create and use random generators; distinct by thread count, seed and observed assignment of streams to threads",
    "C16": "threads that clone, view, compute with, hand over and drop tensors sharing storage; distinct by thread count, steps, element type and case",
    "C24": "operations with random arguments, run, then repeated after other calls (refused ones too), in other threads and with copies of the arguments at other places; distinct by operation, shapes, routes, parameters",
    "C21": "option call sequences over generated structs; distinct by struct, call order and values",
}
RULE = "cases made from the seed by the harness: random shapes (ranks 0 to 6, ones, blocks around kernel sizes), construction routes and views, element types and values; an evaluation is one library call compared with the reference; distinct by operation, shapes, view routes, parameters and element type"


# ---- building ---------------------------------------------------------------------


def sh_env(extra=None):
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO, HARNESS, OPTS]
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target") and not x.startswith("target"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".py")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    try:
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
                    except OSError:
                        pass
    return h.hexdigest()


def forget(target, stamp):
    """Cargo goes by modification times; make it see every change of contents."""
    mark = os.path.join(target, "tree-hash")
    try:
        if open(mark).read() == stamp:
            return
    except OSError:
        pass
    for d, dirs, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in list(dirs):
                if x.startswith(("essay-", "essay_", "harness-", "opts-")):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            dirs[:] = []
        elif d.count(os.sep) - target.count(os.sep) >= 3:
            dirs[:] = []


class BuildError(Exception):
    pass


def engine_build(engine, feats, workdir, stamp):
    """Builds; returns the command prefix that runs the harness."""
    target = os.path.join(VERIF, "target-" + engine)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget(target, stamp)
        flags = "--cfg verif_hooks -Awarnings"
        cmd = ["cargo"]
        args = ["build", "--offline", "--features", feats, "--target-dir", target]
        env = {}
        out = None
        if engine == "checked":
            args += ["--profile", "checked"]
            out = f"{target}/checked/harness"
        elif engine == "release":
            args += ["--profile", "release"]
            out = f"{target}/release/harness"
        elif engine == "asan":
            cmd += ["+nightly"]
            flags += " --cfg harness_san -Zsanitizer=address"
            args += ["--profile", "san", "--target", TRIPLE]
            out = f"{target}/{TRIPLE}/san/harness"
        elif engine == "tsan":
            cmd += ["+nightly"]
            flags += " --cfg harness_san -Zsanitizer=thread"
            args += ["--profile", "san", "--target", TRIPLE, "-Zbuild-std"]
            out = f"{target}/{TRIPLE}/san/harness"
        elif engine == "miri":
            cmd += ["+nightly", "miri"]
            args[0] = "run"
            args += ["--", "--prop", "C02" if "all" in feats else feats.split(",")[0].upper(), "--to", "0"]
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
            flags += " --cfg harness_san"
        env["RUSTFLAGS"] = flags
        r = subprocess.run(cmd + args, cwd=HARNESS, env=sh_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise BuildError(f"{engine}: cargo ended with {r.returncode}\n" + r.stdout[-6000:])
        with open(os.path.join(target, "tree-hash"), "w") as f:
            f.write(stamp)
        if engine == "miri":
            return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", feats, "--target-dir", target, "--"]
        mine = os.path.join(workdir, "harness-" + engine)
        shutil.copy2(out, mine)
        return [mine]


# ---- running ----------------------------------------------------------------------


class Worker:
    def __init__(self, engine, prefix, args, workdir, name, env=None):
        self.engine, self.prefix, self.args, self.name = engine, prefix, args, name
        self.out = os.path.join(workdir, name + ".json")
        self.journal = os.path.join(workdir, name + ".journal")
        self.log = os.path.join(workdir, name + ".log")
        self.workdir, self.env, self.proc = workdir, env or {}, None
        for p in (self.out, self.out + ".sigs", self.journal):
            try:
                os.unlink(p)
            except OSError:
                pass

    def start(self):
        env = {
            "TMPDIR": self.workdir,
            "RUST_BACKTRACE": "0",
            "ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:exitcode={ASAN_EXIT}:allocator_may_return_null=1:detect_stack_use_after_return=0",
            "TSAN_OPTIONS": f"halt_on_error=1:exitcode={TSAN_EXIT}:report_signal_unsafe=0",
        }
        if self.engine == "miri":
            env["RUSTFLAGS"] = "--cfg verif_hooks -Awarnings --cfg harness_san"
        env.update(self.env)
        cmd = self.prefix + self.args + ["--out", self.out]
        if self.engine != "miri":
            cmd += ["--journal", self.journal]
        self.proc = subprocess.Popen(cmd, cwd=HARNESS, env=sh_env(env), stdin=subprocess.DEVNULL,
                                     stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)

    def stop(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()

    def summary(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def log_text(self):
        try:
            return open(self.log, errors="replace").read()
        except OSError:
            return ""

    def at(self):
        """The case that was running."""
        if self.engine == "miri":
            m = re.findall(r"^CASE (\d+) (\S+)", self.log_text(), re.M)
            return (int(m[-1][0]), m[-1][1]) if m else None
        try:
            a = open(self.journal).read().split()
            return (int(a[0]), a[1])
        except (OSError, ValueError, IndexError):
            return None


def wait_all(workers, limit):
    end = time.time() + limit
    pending = list(workers)
    while pending and time.time() < end:
        pending = [w for w in pending if w.proc.poll() is None]
        bad = [w for w in workers if w.proc.poll() not in (None, 0)]
        if bad:
            break
        time.sleep(0.05)
    late = [w for w in workers if w.proc.poll() is None]
    first = [w for w in workers if w.proc.poll() not in (None, 0)]
    for w in late:
        w.stop()
    return first, late


def classify(w):
    """(kind, text) of a worker that did not end well.
    kind: violation, crash, budget, hang, none"""
    rc = w.proc.returncode
    log = w.log_text()
    s = w.summary()
    if rc == 1 and s and s.get("violation"):
        v = s["violation"]
        return "violation", v["msg"], (v["case"], v["workload"])
    at = w.at()
    if w.engine == "miri":
        m = re.search(r"error: (Undefined Behavior: .*|.*[Dd]ata race.*)", log)
        if m:
            return "crash", "Miri: " + m.group(1)[:400], at
        m = re.search(r"error: (the evaluated program deadlocked|deadlock.*|memory leaked.*|abnormal termination.*)", log)
        if m and "deadlock" in m.group(1):
            return "crash", "Miri: " + m.group(1), at
        return "none", f"Miri ended with {rc}: {log[-1500:]}", at
    if rc == ASAN_EXIT and "AddressSanitizer" in log:
        m = re.search(r"ERROR: (AddressSanitizer: .*)", log)
        text = m.group(1) if m else "AddressSanitizer report"
        if re.search(r"out-of-memory|allocation-size-too-big|rss limit", text):
            return "none", text, at
        return "crash", text, at
    if rc == TSAN_EXIT and "ThreadSanitizer" in log:
        m = re.search(r"WARNING: (ThreadSanitizer: .*)", log)
        return "crash", m.group(1) if m else "ThreadSanitizer report", at
    if rc == EXIT_MEMORY:
        m = re.search(r"MEMORY: .*", log)
        return "crash", m.group(0) if m else "memory monitor", at
    if rc == EXIT_BUDGET:
        return "budget", "the case needs more memory than its budget", at
    if rc == EXIT_HANG:
        return "hang", "the case does not end", at
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        return "crash", f"killed by {signal.Signals(-rc).name}: {log[-300:].strip()}", at
    return "none", f"ended with {rc}: {log[-1500:]}", at


OWN_WORKLOADS = {
    "C01": [], "C02": ["history"], "C03": ["nested", "view-refusals"],
    "C04": ["shape-edits", "shape-broadcasting", "shape-refusals", "shape-misfits"],
}


def counts_for(prop, kind, workload):
    """Does this ending refute the property?"""
    if kind in ("violation",):
        return True
    if kind == "crash":
        return True
    # no result at all: refutes a property about results, not memory safety
    if prop in OWN_WORKLOADS:
        return workload in OWN_WORKLOADS[prop]
    return True


def run_engine(prop, engine, prefix, seed, tier, spec, workdir, hang):
    """Runs all workers of an engine; returns (summaries, violation or None, notes)."""
    nw, cq, tq, ct, tt = spec
    cases, limit = (cq, tq) if tier == "quick" else (ct, tt)
    base = {"checked": 0, "release": 10**9, "asan": 2 * 10**9, "tsan": 3 * 10**9, "miri": 4 * 10**9}[engine]
    notes, done = [], []
    offsets = {i: base + i for i in range(nw)}
    skips = 0
    deadline = time.time() + limit
    while offsets:
        ws = []
        left = max(3, int(deadline - time.time()))
        for i, frm in offsets.items():
            args = ["--prop", prop, "--seed", str(seed), "--from", str(frm), "--to", str(base + cases),
                    "--step", str(nw), "--time", str(left)]
            env = {}
            if engine == "miri":
                args += ["--small"]
                mseed = (seed * 1000 + i) & 0x7FFFFFFF
                env["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={mseed} -Zmiri-ignore-leaks"
                if prop in ("C15", "C16"):
                    env["MIRIFLAGS"] += " -Zmiri-preemption-rate=0.05"
            else:
                args += ["--hang", str(hang)]
            ws.append((i, Worker(engine, prefix, args, workdir, f"{engine}-{i}-{skips}", env)))
        for _, w in ws:
            w.start()
        bad, late = wait_all([w for _, w in ws], left + 60 + hang * 2)
        for _, w in ws:
            s = w.summary()
            if s:
                s["sigfile"] = w.out + ".sigs"
                s["engine"] = engine
                done.append(s)
        if late and not bad:
            notes.append(f"{engine}: {len(late)} workers stopped at the limit")
            break
        if not bad:
            break
        # one verdict at a time: the first worker that ended badly
        w = bad[0]
        kind, text, at = classify(w)
        repl = {"property": prop, "engine": engine, "seed": seed, "case": at[0] if at else None,
                "workload": at[1] if at else None, "kind": kind, "message": text,
                "args": w.args, "env": w.env, "log": w.log_text()[-6000:]}
        if kind == "none" or at is None:
            notes.append(f"{engine}: no verdict from a worker: {text}")
            return done, None, notes, True
        if counts_for(prop, kind, at[1]):
            if kind == "violation":
                return done, repl, notes, False
            again, text2 = replay_case(prefix, engine, repl, workdir, max(60, 3 * hang))
            if again:
                repl["message"] = text2
                return done, repl, notes, False
            if prop in ("C15", "C16") and kind == "crash":
                return done, repl, notes, False
            notes.append(f"{engine}: case {at[0]} ended once with {text!r}, not when run again; skipped")
        else:
            notes.append(f"{engine}: case {at[0]} ({at[1]}) skipped: {text}")
        skips += 1
        if skips > 6:
            notes.append(f"{engine}: too many cases without result")
            return done, None, notes, True
        # go on after the case; the other workers start again behind where they were
        nxt = {}
        for i, x in ws:
            a = x.at()
            if a is None:
                continue
            frm = a[0] + (nw if x is w or x.proc.returncode == 0 else 0)
            if frm < base + cases and x.summary() is None:
                nxt[i] = frm
        offsets = nxt
        if time.time() > deadline:
            break
    return done, None, notes, False


def replay_case(prefix, engine, repl, workdir, hang):
    n = 1 if repl["property"] not in ("C15", "C16") else 8
    for k in range(n):
        args = ["--prop", repl["property"], "--seed", str(repl["seed"]), "--from", str(repl["case"]),
                "--to", str(repl["case"] + 1), "--time", "600"]
        if engine == "miri":
            args += ["--small"]
        else:
            args += ["--hang", str(hang)]
        w = Worker(engine, prefix, args, workdir, f"replay-{engine}-{k}", repl.get("env"))
        w.start()
        try:
            w.proc.wait(timeout=hang * 3 + 120)
        except subprocess.TimeoutExpired:
            w.stop()
            continue
        if w.proc.returncode == 0:
            continue
        kind, text, at = classify(w)
        if kind != "none":
            return True, f"{text} [{kind}, case {repl['case']} of workload {repl['workload']}]"
    return False, ""


# ---- findings, evidence ------------------------------------------------------------


def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"), "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)


LEVELS = {"C20": "fault_enumeration", "C22": "fault_enumeration"}
ASSUME = [
    "verdicts hold for the executions produced by this run, not for all",
    "reference values are computed by independent code in the harness, in f64 or exact arithmetic",
    "the Rust compiler, its standard library and the sanitizer runtimes are trusted",
]


def save_replay(prop, repl):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(json.dumps(repl, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{key}.json")
    with open(path, "w") as f:
        json.dump(repl, f, indent=1)
    return path


def merge(summaries):
    tot = {k: 0 for k in ("cases", "evaluations", "checks", "rejections", "anomalies", "ledger_events", "allocs", "frees")}
    counters, workloads, engines, findings, samples, anomalies = {}, {}, {}, {}, [], []
    sigs = set()
    for s in summaries:
        for k in tot:
            tot[k] += s[k]
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s["workloads"].items():
            workloads[k] = workloads.get(k, 0) + v
        for k, v in s["findings"].items():
            findings[k] = findings.get(k, 0) + v
        e = engines.setdefault(s["engine"], {"workers": 0, "cases": 0, "evaluations": 0, "checks": 0})
        e["workers"] += 1
        for k in ("cases", "evaluations", "checks"):
            e[k] += s[k]
        for x in s["samples"]:
            if len(samples) < 12 and x not in samples:
                samples.append(x)
        if s["anomaly_sample"] and len(anomalies) < 3:
            anomalies.append(s["anomaly_sample"])
        try:
            b = open(s["sigfile"], "rb").read()
            sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError:
            pass
    return tot, counters, workloads, engines, findings, samples, anomalies, len(sigs)


def check_harness(prop, tier, seed):
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="essay-check-")
    try:
        spec = plan(prop)
        stamp = tree_hash()
        built, errors = {}, {}

        def build(engine):
            try:
                built[engine] = engine_build(engine, features(prop, engine), workdir, stamp)
            except BuildError as e:
                errors[engine] = str(e)

        ts = [threading.Thread(target=build, args=(e,)) for e in spec]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        tb = time.time() - t0
        if errors:
            for e, m in errors.items():
                print(f"build failed for {e}:\n{m}")
            print(f"NO VERDICT property={prop}: the harness does not build against this tree")
            write_evidence(prop, tier, seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "build failed", "samples": []}, time.time() - t0, 0, [])
            return 2
        hang = 25
        summaries, notes, violation, lost = [], [], None, False
        for engine in spec:
            done, v, ns, bad = run_engine(prop, engine, built[engine], seed, tier, spec[engine], workdir, hang)
            summaries += done
            notes += ns
            lost = lost or bad
            if v:
                violation = v
                break
        tot, counters, workloads, engines, findings, samples, anomalies, distinct = merge(summaries)
        known = {k: t for p, k, t in known_findings() if p == prop}
        unlisted = [k for k in findings if k not in known]
        if not violation and unlisted:
            violation = {"property": prop, "engine": "any", "seed": seed, "case": None, "workload": None,
                         "message": "unlisted finding: " + unlisted[0]}
        coverage = {
            "evaluations": tot["evaluations"], "distinct_nontrivial": distinct, "rule": RULES.get(prop, RULE),
            "samples": samples, "cases": tot["cases"], "oracle_checks": tot["checks"],
            "refused_requests_observed": tot["rejections"], "live_value_ledger_events": tot["ledger_events"],
            "heap_blocks_watched": tot["allocs"], "engines": engines, "workloads": workloads,
            "operations": counters, "build_s": round(tb, 1),
        }
        if findings:
            coverage["known_findings_observed"] = findings
        if anomalies:
            coverage["deviations_of_other_properties"] = {"count": tot["anomalies"], "samples": anomalies}
        if notes:
            coverage["notes"] = notes[:20]
        write_evidence(prop, tier, seed, coverage, time.time() - t0, 1 if violation else 0, ASSUME)
        for n in notes:
            print("note:", n)
        for k, n in findings.items():
            if k in known:
                print(f"KNOWN-FINDING: property={prop} {k}: {known[k]} (seen {n} times)")
        print(f"{prop} {tier} seed {seed}: {tot['cases']} cases, {tot['evaluations']} evaluations, {distinct} distinct, "
              f"{tot['checks']} oracle checks, engines {', '.join(engines)}, {time.time() - t0:.1f} s (build {tb:.1f} s)")
        if violation:
            path = save_replay(prop, violation)
            print(violation["message"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if tot["evaluations"] == 0:
            print(f"NO VERDICT property={prop}: nothing observed")
            return 2
        if lost:
            print(f"NO VERDICT property={prop}: a worker gave no result")
            return 2
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


# ---- C21: generated clients ---------------------------------------------------------


def build_opts(seed, n, target, workdir):
    gen = os.path.join(workdir, f"gen-{seed}.rs")
    with open(gen, "w") as f:
        r = subprocess.run([sys.executable, os.path.join(OPTS, "gen.py"), str(seed), str(n)], stdout=f)
    if r.returncode != 0:
        raise BuildError("generator failed")
    env = {"OPTS_GEN": gen}
    b = subprocess.run(["cargo", "build", "--offline", "--target-dir", target], cwd=OPTS, env=sh_env(env),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return b.returncode, b.stdout


def check_opts(tier, seed):
    prop = "C21"
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="essay-opts-")
    target = os.path.join(VERIF, "target-opts")
    os.makedirs(target, exist_ok=True)
    try:
        stamp = tree_hash()
        rounds, structs, per = (3, 80, 1500) if tier == "quick" else (25, 120, 5000)
        tot = {"structs": 0, "sequences": 0, "calls": 0, "checks": 0, "distinct": 0}
        samples, violation = [], None
        with open(os.path.join(target, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            forget(target, stamp)
            # the macro crate itself must build, or there is no verdict
            r = subprocess.run(["cargo", "build", "--offline", "-p", "essay-opt", "--target-dir", target], cwd=OPTS,
                               env=sh_env({"OPTS_GEN": "/dev/null"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-4000:])
                print("NO VERDICT property=C21: essay-opt does not build")
                write_evidence(prop, tier, seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "build failed", "samples": []}, time.time() - t0, 0, [])
                return 2
            for k in range(rounds):
                s = seed * 1000 + k
                rc, log = build_opts(s, structs, target, workdir)
                if rc != 0:
                    codes = sorted(set(re.findall(r"^error\[(E\d+)\]", log, re.M)))
                    if "could not compile `opts`" not in log:
                        print(log[-3000:])
                        print("NO VERDICT property=C21: the client build failed outside the generated code")
                        return 2
                    violation = {"property": prop, "seed": s, "kind": "client does not compile",
                                 "message": f"a generated client does not compile: {codes}", "log": log[:6000]}
                    break
                p = subprocess.run([os.path.join(target, "debug/opts"), str(s), str(per)], stdout=subprocess.PIPE, text=True, timeout=600)
                j = json.loads(p.stdout)
                for x in tot:
                    tot[x] += j[x]
                samples += j["samples"][:6]
                if j["violation"]:
                    violation = {"property": prop, "seed": s, "kind": "value", "message": j["violation"]}
                    break
            with open(os.path.join(target, "tree-hash"), "w") as f:
                f.write(stamp)
        coverage = {"evaluations": tot["calls"], "distinct_nontrivial": tot["distinct"], "rule": RULES[prop],
                    "samples": samples[:12], "generated_structs": tot["structs"], "call_sequences": tot["sequences"],
                    "oracle_checks": tot["checks"]}
        write_evidence(prop, tier, seed, coverage, time.time() - t0, 1 if violation else 0, ASSUME)
        print(f"C21 {tier} seed {seed}: {tot['structs']} structs, {tot['sequences']} sequences, {tot['calls']} calls, {time.time() - t0:.1f} s")
        if violation:
            path = save_replay(prop, violation)
            print(violation["message"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


# ---- entry --------------------------------------------------------------------------


def setup():
    """Runs are isolated, so nothing built here would be kept: only check the tools."""
    bad = 0
    for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"],
                ["cargo", "+nightly", "miri", "--version"],
                ["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path",
                 os.path.join(HARNESS, "Cargo.toml")]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            bad = 1
            print("setup: failed:", " ".join(cmd), r.stdout[-2000:])
    return bad



def replay(path):
    r = json.load(open(path))
    print(json.dumps({k: v for k, v in r.items() if k != "log"}, indent=1))
    if r["property"] == "C21":
        return check_opts("quick", r["seed"] // 1000)
    workdir = tempfile.mkdtemp(prefix="essay-replay-")
    try:
        prefix = engine_build(r["engine"], features(r["property"], r["engine"]), workdir, tree_hash())
        again, text = replay_case(prefix, r["engine"], r, workdir, 60)
        print("violated again: " + text if again else "not violated by this run")
        return 1 if again else 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def main():
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(check_opts(tier, seed) if prop == "C21" else check_harness(prop, tier, seed))


if __name__ == "__main__":
    main()
