#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's current working tree.

  check.py ID [quick|thorough]   exit 0 held, 1 VIOLATION, 2 no answer
  check.py replay FILE           runs the case recorded in a replay file again
  check.py setup                 builds everything once

Seed: VERIF_SEED (default 1). Tier: argument, else VERIF_TIER, else quick.
"""
import fcntl, glob, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
NCPU = os.cpu_count() or 4
GUARD = "--cfg meerkat_verif"
TRIPLE = "x86_64-unknown-linux-gnu"
INTERNAL_OFF = (1 << 64) - 1


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ repo guard

class RepoGuard:
    """meerkat's build.rs rewrites files under src/store: put back what was there."""

    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.lock = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.before = self.snap()
        return self

    def files(self):
        r = []
        for d, dirs, fs in os.walk(REPO):
            if d == REPO:
                dirs[:] = [x for x in dirs if x not in (".git", "target")]
            r += [os.path.join(d, f) for f in fs]
        return r

    def snap(self):
        s = {}
        for f in self.files():
            st = os.lstat(f)
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            with open(f, "rb") as h:
                s[f] = (h.read(), st.st_mtime_ns, st.st_mode & 0o7777)
        return s

    def __exit__(self, *a):
        after = self.snap()
        for f, (b, m, mode) in self.before.items():
            if f not in after or after[f][0] != b:
                with open(f, "wb") as h:
                    h.write(b)
                os.chmod(f, mode)
                os.utime(f, ns=(m, m))
            elif after[f][1] != m:
                os.utime(f, ns=(m, m))
        for f in after:
            if f not in self.before:
                os.remove(f)
        self.lock.close()
        return False


def cargo_env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "MIRIFLAGS"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e


def run_build(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        tail = "\n".join([l for l in p.stdout.splitlines() if l.strip()][-40:])
        raise Inconclusive("cannot build %s:\n%s" % (what, tail))


# Two hooks read private parts of the code. Where a change to meerkat leaves one of them unable to
# compile, the harness is built without it: the segment index is then recomputed by a second encoder,
# and the codecs (C08 to C11, C39) are judged through the columns only.
RUNGS = ["", " --cfg meerkat_verif_no_index", " --cfg meerkat_verif_no_codec", " --cfg meerkat_verif_no_index --cfg meerkat_verif_no_codec"]
CODEC = ("C08", "C09", "C10", "C11", "C39")
LADDER = {"flags": ""}


def ladder(build):
    """build(flags, suffix) with all hooks, or with fewer where that cannot be built."""
    first = None
    for i, flags in enumerate(RUNGS):
        try:
            r = build(flags, "-%d" % i if i else "")
        except Inconclusive as e:
            first = first or e
            continue
        if i:
            print("built without some hooks:%s" % flags)
        LADDER["flags"] = flags
        return r
    raise first


def build_harness():
    def b(flags, suffix):
        t = os.path.join(TARGET, "main" + suffix)
        run_build(["cargo", "build", "--offline", "--locked"], HARNESS,
                  cargo_env({"RUSTFLAGS": GUARD + flags, "CARGO_TARGET_DIR": t}), "the harness against /repo")
        return os.path.join(t, "debug", "vh")
    vh = ladder(b)
    write_dictionary()
    return vh


def write_dictionary():
    """The constants of the code under test, for the generators (tools/dictionary.py)."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import dictionary
    try:
        lines = dictionary.dictionary(REPO)
    except Exception as e:  # steering only: without it the workloads are the plain ones
        print("no dictionary: %s" % e)
        lines = []
    os.makedirs(WORK, exist_ok=True)
    f = os.path.join(WORK, "dictionary-%d" % os.getpid())
    with open(f, "w") as h:
        h.write("\n".join(lines))
    os.environ["VH_DICT"] = f
    import atexit
    atexit.register(lambda: os.path.exists(f) and os.unlink(f))


def build_server():
    """The real server binary, hooks on (it prints its configuration)."""
    run_build(["cargo", "build", "--offline", "--locked", "--bin", "meerkat"], REPO,
              cargo_env({"RUSTFLAGS": GUARD + RUNGS[-1], "CARGO_TARGET_DIR": os.path.join(TARGET, "server"), "CARGO_PROFILE_DEV_DEBUG": "0"}), "the server")
    return os.path.join(TARGET, "server", "debug", "meerkat")


# ------------------------------------------------------------------ properties

# quick/thorough budget in seconds, workers, memory cap MiB per worker, minimum cases per worker,
# counters that must have been observed, level
D = dict(q=20, t=420, w=8, cap=3000, minc=4, need=[], level="exploration", stall=60)


def P(**k):
    d = dict(D)
    d.update(k)
    return d


ENC_NEED = ["blocks", "buffers", "nulls", "columns_ending_in_null", "columns_with_many_blocks"]
PROPS = {
    "C01": P(need=["bits_appended", "clears", "histories_with_reuse", "ranged_appends", "refused_reads", "full_reads"]),
    "C02": P(need=["rows_appended", "clears", "full_reads", "histories_f64", "histories_i32", "histories_i64", "histories_u64"]),
    "C03": P(need=["rows_appended", "clears", "full_reads", "empty_values"]),
    "C04": P(need=["rows_appended", "clears", "full_reads"]),
    "C05": P(need=["ranges_copied", "copy_histories_binary", "copy_histories_bitmap", "copy_histories_num"]),
    "C06": P(need=["refused_null_appends", "refused_mixed_copies"]),
    "C07": P(q=24, t=400, w=2, cap=14000, minc=3, need=["refused_growth", "appends_accepted", "ranged_copies_accepted", "row_batches_accepted"], stall=150),
    "C08": P(need=["values", "overlong_refused"] + ["values_of_%d_bytes" % i for i in range(1, 11)]),
    "C09": P(need=["bitmaps", "fed_bitwise", "fed_by_slice", "reuses", "partial_last_byte", "set_bits"]),
    "C10": P(need=["bitmaps", "literal_frames", "run_frames", "reuses"]),
    "C11": P(need=["lists", "lists_over_one_packing_block", "width_32", "width_00"]),
    "C12": P(need=ENC_NEED + ["columns_i32", "columns_i64", "columns_u64", "columns_f64"]),
    "C13": P(need=ENC_NEED + ["columns_binary"]),
    "C14": P(need=ENC_NEED + ["row_ids_checked"]),
    "C15": P(need=ENC_NEED + ["calls_checked", "segment_blocks_measured"]),
    "C16": P(need=ENC_NEED + ["groupings_compared"]),
    "C17": P(need=["failures_injected", "failures_at_flush"], level="fault_enumeration"),
    "C18": P(need=["refused_in_segments", "accepted_binary_Raw", "accepted_i32_Raw", "accepted_i64_Raw", "accepted_u64_Raw", "accepted_f64_Raw"]),
    "C19": P(need=["blocks_written", "positions_checked", "ranges_read_back"]),
    "C20": P(need=["batches_complete", "blocks_matched", "errors_matched", "reads_observed"]),
    "C21": P(need=["refused_single", "refused_in_batches", "refused_after_shrinking", "reads_after_refusal"]),
    "C22": P(w=4, need=["single_reads", "batched_reads", "batches_abandoned", "client_switches_observed"]),
    "C23": P(need=["segments", "blocks_decoded", "columns_with_many_blocks"]),
    "C24": P(need=["segments", "columns", "index_bytes_parsed"]),
    "C25": P(need=["segments", "opens_observed"]),
    "C26": P(need=["faults_Open", "faults_Write", "faults_Sync", "errors_reported", "plain_files", "segments"], level="fault_enumeration"),
    "C27": P(need=["syncs_observed", "writes_observed", "successful_syncs_checked", "faults_injected"], level="fault_enumeration"),
    "C28": P(need=["interrupted_or_partial_calls", "reads_checked", "segments", "plain_files"], level="fault_enumeration"),
    "C29": P(w=4, need=["segments", "file_switches_observed", "mode_tasks", "mode_threads", "mode_shared_runtime"]),
    "C34": P(need=["batches", "dropped_early", "reads_observed", "large_batches_measured"]),
    "C35": P(need=["readers", "writers", "segments", "calls_failed_by_faults", "rounds_measured", "uses_cancelled_in_a_call", "uses_repeated_a_thousand_times"], level="fault_enumeration"),
    "C36": P(need=["blocks", "rows", "kind_segments", "kind_binary", "kind_numeric", "columns_over_8_times_the_bound", "sparse_rows_streamed", "segments_of_many_columns", "columns_of_many_blocks"]),
    "C37": P(need=["columns_closed", "columns_dropped", "columns_retried", "blocks_left_by_dropped_columns"]),
    "C38": P(need=["held_open", "held_write", "held_sync", "held_read", "turns_of_other_tasks", "clients_beside_a_slow_read", "uses_beside_a_slow_call"], level="fault_enumeration"),
    "C39": P(need=["integers_decoded", "integers_refused", "integers_over_64_bits_refused", "validity_decoded", "refused_header", "refused_literal", "refused_run", "refused_room", "refused_position"]),
    "C40": P(need=["blocks", "flushes_with_rows_pending", "flushes_without_rows_pending", "column_closes_with_rows_pending", "column_closes_without_rows_pending"]),
    "C32": P(need=["segments", "columns_checked", "columns_with_blocks"]),
    "C33": P(need=["crashes", "files_cut_short", "rewrites_compared"], level="fault_enumeration"),
}

RULE = {
    "hist": "a case is a generated operation history run against the real buffer and a plain list model, compared in full at several points; non-trivial when it holds rows and at least two kinds of operation; distinct by hash of the history",
    "codec": "a case is a generated input run through the real encoder and decoded by an independent decoder; non-trivial when the input is not empty; distinct by hash of the input",
    "enc": "a case is a generated column (rows, nullability, block size, grouping into buffers) encoded by the real encoder into a recording sink and decoded by an independent decoder of the documented layout; non-trivial when the column has rows; distinct by hash of rows and grouping",
    "io": "a case is a generated workload on real files with every open/write/sync/read observed at the libc boundary; non-trivial when data was moved; distinct by hash of the workload",
    "slow": "a case is a generated set of uses of readers, writers and segments during which some observed system calls do not return until other work got on; non-trivial when a call was held; distinct by hash of the uses and of what was held",
    "seg": "a case is a generated segment (ids, names, columns, rows, directory form) written through the real writer with its system calls observed; non-trivial when rows or columns were written; distinct by hash of the description",
}


def rule_of(pid):
    n = int(pid[1:])
    if n == 39:
        return RULE["codec"]
    if n == 38:
        return RULE["slow"]
    if n <= 7:
        return RULE["hist"]
    if n <= 11:
        return RULE["codec"]
    if n <= 18:
        return RULE["enc"]
    if n <= 22:
        return RULE["io"]
    return RULE["seg"]


# ------------------------------------------------------------------ known findings

def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", l)
        if m:
            r.append((m.group(1), m.group(2), m.group(3).strip()))
    return r


# ------------------------------------------------------------------ workers

def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            a = f.read().rsplit(")", 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def read_status(p):
    try:
        b = open(p, "rb").read()
        return struct.unpack("<QQ", b) if len(b) == 16 else (None, 0)
    except OSError:
        return (None, 0)


def spawn(cmd, out, err, env=None):
    return subprocess.Popen(cmd, stdout=open(out, "wb"), stderr=open(err, "wb"), stdin=subprocess.DEVNULL, env=env, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS", signal.SIGILL: "SIGILL", signal.SIGFPE: "SIGFPE"}


def one(vh, pid, seed, index, thorough, run, cap, stall):
    """Runs a single case alone. -> (kind, payload): ok/crash/memory/hang/other"""
    d = os.path.join(run, "one")
    os.makedirs(d, exist_ok=True)
    o, e = os.path.join(d, "out"), os.path.join(d, "err")
    p = spawn([vh, "one", pid, str(seed), str(index), str(int(thorough)), "0", d, str(cap)], o, e)
    t0 = time.time()
    while p.poll() is None:
        time.sleep(0.05)
        if cpu_of(p.pid) > stall or time.time() - t0 > stall * 2:
            kill(p)
            return "hang", "one case used %d s without finishing" % (time.time() - t0)
    tail = open(e, errors="replace").read()[-1500:]
    if p.returncode == 0:
        try:
            return "ok", json.loads(open(o).read())
        except ValueError:
            return "other", "unreadable result: " + tail
    if p.returncode == 87:
        return "memory", "the case allocated more than %d MiB" % cap
    if -p.returncode in CRASH:
        return "crash", "%s: %s" % (CRASH[-p.returncode], tail)
    return "other", "exit %d: %s" % (p.returncode, tail)


def work(vh, pid, cfg, seed, thorough, run):
    budget = cfg["t"] if thorough else cfg["q"]
    cases = 10 ** 9
    ws = []
    for s in range(cfg["w"]):
        e = os.path.join(run, "err-%d" % s)
        p = spawn([vh, "work", pid, str(seed), str(int(thorough)), "0", str(s), str(cfg["w"]), "0", str(int(budget * 1000)),
                   str(cfg["minc"]), str(cases), run, str(cfg["cap"])], os.path.join(run, "out-%d" % s), e)
        ws.append(dict(p=p, s=s, idx=None, t=time.time(), cpu=0.0, end=None))
    t0 = time.time()
    stopped = []
    while any(w["end"] is None for w in ws):
        time.sleep(0.1)
        for w in ws:
            if w["end"] is not None:
                continue
            rc = w["p"].poll()
            i, done = read_status(os.path.join(run, "status-%d" % w["s"]))
            if rc is not None:
                w["end"] = rc
                w["idx"] = i
                continue
            c = cpu_of(w["p"].pid)
            if i != w["idx"]:
                w.update(idx=i, t=time.time(), cpu=c)
            elif c - w["cpu"] > cfg["stall"] or time.time() - w["t"] > cfg["stall"] * 2.5:
                kill(w["p"])
                w["end"] = "hang"
        # a case outside the watchdog's reach (worker startup, result writing)
        if time.time() - t0 > budget * 7 + cfg["stall"] * 3:
            for w in ws:
                if w["end"] is None:
                    kill(w["p"])
                    w["end"] = "timeout"
    tot = dict(cases=0, nontrivial=0, hashes=set(), counters={}, samples=[], viols=[], harness=[], dead=0)
    for w in ws:
        f = os.path.join(run, "result-%d.json" % w["s"])
        if w["end"] == 0 and os.path.exists(f):
            merge(tot, json.loads(open(f).read()))
            continue
        tot["dead"] += 1
        idx = w["idx"]
        why = w["end"]
        tail = open(os.path.join(run, "err-%d" % w["s"]), errors="replace").read()[-1500:]
        stopped.append((idx, why, tail))
    # what stopped a worker is looked at alone
    for idx, why, tail in stopped:
        _, done = 0, 0
        if idx is None or idx == INTERNAL_OFF:
            tot["harness"].append("worker ended (%s) outside a case: %s" % (why, tail))
            continue
        if len([v for v in tot["viols"]]) >= 2:
            break
        tries = 1 if why in ("hang", "timeout") else 3
        last = None
        for _ in range(tries):
            last = one(vh, pid, seed, idx, thorough, run, cfg["cap"], cfg["stall"])
            if last[0] in ("crash", "memory", "hang") or (last[0] == "ok" and last[1]["violations"]):
                break
        kind, x = last
        if kind in ("crash", "memory", "hang"):
            tot["viols"].append(dict(index=idx, sig=kind, msg=x))
        elif kind == "ok" and x["violations"]:
            merge(tot, x)
        elif isinstance(why, int) and -why in CRASH:
            tot["viols"].append(dict(index=idx, sig="crash", msg="%s (once, with %d workers running): %s" % (CRASH[-why], cfg["w"], tail)))
        else:
            tot["harness"].append("worker ended with %s at case %d, alone: %s %s" % (why, idx, kind, tail))
    return tot


def merge(t, r):
    t["cases"] += r["cases"]
    t["nontrivial"] += r["nontrivial"]
    t["hashes"].update(r["hashes"])
    for k, v in r["counters"].items():
        t["counters"][k] = max(t["counters"].get(k, 0), v) if k.startswith("max_") else t["counters"].get(k, 0) + v
    t["samples"] += r["samples"][:3]
    for v in r["violations"]:
        if v["sig"] == "HARNESS":
            t["harness"].append("case %d: %s" % (v["index"], v["msg"]))
        else:
            t["viols"].append(v)


# ------------------------------------------------------------------ result of a check

def finish(pid, tier, seed, level, coverage, assumptions, t0, viols, replay_extra, inconclusive=None):
    """viols: dicts sig,msg(,index). Prints, writes evidence, returns the exit code."""
    known = [k for k in known_findings() if k[0] == pid]
    listed = {k[1]: k[2] for k in known}
    new = [v for v in viols if v["sig"] not in listed]
    seen = sorted({v["sig"] for v in viols if v["sig"] in listed})
    for s in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[s]))
    coverage["known_findings_seen"] = seen
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if inconclusive:
        ev["coverage"]["inconclusive"] = inconclusive
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if new:
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        shown = set()
        for v in new:
            if v["sig"] in shown:
                continue
            shown.add(v["sig"])
            name = "%s-%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", v["sig"])[:60], v.get("index", 0))
            path = os.path.join(WORK, "replay", name)
            with open(path, "w") as f:
                json.dump(dict(dict(property=pid, seed=seed, tier=tier, sig=v["sig"], index=v.get("index", 0), message=v["msg"]), **replay_extra), f, indent=1)
            print("  %s: %s" % (v["sig"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (pid, inconclusive))
        return 2
    print("HELD property=%s tier=%s seed=%d %s" % (pid, tier, seed, json.dumps({k: coverage[k] for k in ("evaluations", "distinct_nontrivial")})))
    return 0


ASSUME = [
    "the monitors see this machine's schedules and file system only; what was not executed is not covered",
    "the independent decoders and models in /verif/harness describe the documented layouts",
]


def check_harness(pid, tier, seed):
    t0 = time.time()
    cfg = PROPS[pid]
    thorough = tier == "thorough"
    with RepoGuard():
        vh = build_harness()
    if pid in CODEC and "no_codec" in LADDER["flags"]:
        raise Inconclusive("the hook that reaches the codecs no longer compiles")
    run = os.path.join(WORK, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(run)
    try:
        if int(pid[1:]) >= 19:
            st = os.path.join(run, "self")
            os.makedirs(st)
            p = subprocess.run([vh, "self-test", st], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode != 0:
                raise Inconclusive("the system call monitor does not see its own calls: " + p.stdout[-800:])
        tot = work(vh, pid, cfg, seed, thorough, run)
    finally:
        shutil.rmtree(run, ignore_errors=True)
    cov = dict(evaluations=tot["cases"], distinct_nontrivial=len(tot["hashes"]), rule=rule_of(pid), samples=tot["samples"][:12],
               observed=dict(sorted(tot["counters"].items())), workers=cfg["w"], workers_stopped_early=tot["dead"], machine_problems=tot["harness"][:5])
    inc = None
    missing = [k for k in cfg["need"] if not tot["counters"].get(k)]
    if missing:
        inc = "the workload never observed: " + ", ".join(missing)
    elif tot["dead"] > cfg["w"] // 2:
        inc = "most workers were stopped: %s" % tot["harness"][:2]
    elif len(tot["harness"]) * 20 > tot["cases"]:
        inc = "the machine got in the way too often: %s" % tot["harness"][:2]
    return finish(pid, tier, seed, cfg["level"], cov, ASSUME + ["built without some hooks:" + LADDER["flags"]] * bool(LADDER["flags"]), t0, tot["viols"], {}, inc)


# ------------------------------------------------------------------ C30, C31

def check(pid, tier, seed):
    if pid in PROPS:
        return check_harness(pid, tier, seed)
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    if pid == "C30":
        import server_check
        return server_check.run(sys.modules[__name__], tier, seed)
    if pid == "C31":
        import sanitizer_check
        return sanitizer_check.run(sys.modules[__name__], tier, seed)
    print("unknown property " + pid)
    return 2


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    if pid not in PROPS:
        os.environ["VERIF_SEED"] = str(r["seed"])
        return check(pid, r["tier"], r["seed"])
    with RepoGuard():
        vh = build_harness()
    run = os.path.join(WORK, "replay-%d" % os.getpid())
    os.makedirs(run)
    try:
        kind, x = one(vh, pid, r["seed"], r["index"], r["tier"] == "thorough", run, PROPS[pid]["cap"], PROPS[pid]["stall"])
    finally:
        shutil.rmtree(run, ignore_errors=True)
    print(kind, json.dumps(x, indent=1)[:6000])
    return 1 if kind in ("crash", "memory", "hang") or (kind == "ok" and x["violations"]) else 0


def main():
    os.chdir(VERIF)
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "setup":
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import sanitizer_check
        with RepoGuard():
            build_harness()
            build_server()
            sanitizer_check.builds(sys.modules[__name__])
        print("setup done")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 63)
    except ValueError:
        seed = 1
    try:
        return check(pid, tier, seed)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    main_rc = main()
    sys.exit(main_rc)
