"""C31: the workloads of the other monitors under AddressSanitizer, ThreadSanitizer, MemorySanitizer
and Miri. Only a sanitizer's or interpreter's report is a violation of C31; wrong results are the
business of the other properties."""
import concurrent.futures, json, os, re, shutil, subprocess, time

NATIVE = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
          "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C32", "C34", "C35", "C37", "C39", "C40"]
SHARED = ["C19", "C20", "C22", "C23", "C27", "C29"]
# no tokio: its version is not clean under Miri's aliasing model and one of its dependencies calls futex in a way Miri refuses
MIRI = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C39", "C40"]
BASE = "--cfg meerkat_verif --cfg vh_nosys"
REPORT = re.compile(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|ERROR: MemorySanitizer|unsafe precondition\(s\) violated|error: Undefined Behavior|error: abnormal termination|ThreadSanitizer:DEADLYSIGNAL|AddressSanitizer:DEADLYSIGNAL")
# running out of memory, stack or time is no memory error
NOT = re.compile(r"allocation-size-too-big|out-of-memory|rss-limit-exceeded|stack-overflow|calloc-overflow")


def builds(drv):
    # settles which hooks can be compiled before the four builds start
    drv.build_harness()
    hooks = drv.LADDER["flags"]
    t = os.path.join(drv.TARGET, "san")
    n = ["cargo", "+nightly"]
    def b(name, flags, extra):
        e = drv.cargo_env({"RUSTFLAGS": BASE + hooks + flags, "CARGO_TARGET_DIR": os.path.join(t, name), "CARGO_PROFILE_DEV_PACKAGE_BITPACKING_OPT_LEVEL": "0"})
        drv.run_build(n + ["build", "--offline", "--locked", "--target", drv.TRIPLE] + extra, drv.HARNESS, e, "the harness with " + name)
        return os.path.join(t, name, drv.TRIPLE, "debug", "vh")
    def m():
        e = miri_env(drv)
        d = os.path.join(drv.WORK, "miri-warm-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        drv.run_build(n + ["miri", "run", "--offline", "--locked", "--", "mini", "1", "1", d, "tiny", "C06"], drv.HARNESS, e, "the harness under Miri")
        shutil.rmtree(d, ignore_errors=True)
        return None
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = dict(asan=ex.submit(b, "asan", " -Zsanitizer=address", []),
                  tsan=ex.submit(b, "tsan", " -Zsanitizer=thread", ["-Zbuild-std"]),
                  msan=ex.submit(b, "msan", " -Zsanitizer=memory", ["-Zbuild-std"]),
                  miri=ex.submit(m))
        return {k: f.result() for k, f in fs.items()}


def miri_env(drv):
    # SSE3 on: the same packing code as the native runs use
    return drv.cargo_env({"RUSTFLAGS": BASE + drv.LADDER["flags"] + " -Ctarget-feature=+sse3,+ssse3,+sse4.1", "CARGO_TARGET_DIR": os.path.join(drv.TARGET, "san", "miri"),
                          "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-backtrace=full"})


def report_of(text):
    """First report in the output, or None."""
    for m in REPORT.finditer(text):
        part = text[m.start():m.start() + 4000]
        if NOT.search(part[:300]):
            continue
        if m.group(0) == "error: abnormal termination":
            continue
        return part
    return None


def kind_of(part):
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer): ([A-Za-z-]+(?: race)?)", part)
    if m:
        return (m.group(1) + "-" + m.group(2)).replace(" ", "-")
    if "Undefined Behavior" in part:
        return "Miri-undefined-behavior"
    return "unsafe-precondition"


def run(drv, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    with drv.RepoGuard():
        bins = builds(drv)
    built = time.time() - t0
    gone = drv.CODEC if "no_codec" in drv.LADDER["flags"] else ()
    base = os.path.join(drv.WORK, "c31-%d" % os.getpid())
    os.makedirs(base)
    opts = {"asan": {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"},
            "tsan": {"TSAN_OPTIONS": "halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0"},
            "msan": {"MSAN_OPTIONS": "allocator_may_return_null=1"}, "miri": {}}
    jobs = []
    for k in ("asan", "msan", "tsan"):
        ids = [p for p in NATIVE if p not in gone]
        for pid in ids:
            many = k == "tsan" and pid in SHARED
            reps = (8 if many else 3) if thorough else (2 if many else 1)
            for rep in range(reps):
                jobs.append((k, pid, 100000 if thorough else 400, (60 if thorough else 4) * 1000, rep))
    for pid in [p for p in MIRI if p not in gone]:
        for rep in range(6 if thorough else 1):
            jobs.append(("miri", pid, 60 if thorough else 3, (150 if thorough else 15) * 1000, rep))
    jobs.sort(key=lambda j: (j[0] != "miri", j[1] not in SHARED))

    def go(j):
        k, pid, n, budget, rep = j
        d = os.path.join(base, "%s-%s-%d" % (k, pid, rep))
        os.makedirs(d)
        s = str(seed + 1000 * rep)
        env = miri_env(drv) if k == "miri" else drv.cargo_env()
        env.update(opts[k])
        env["VH_BUDGET_MS"] = str(budget)
        if k == "miri":
            env["MIRIFLAGS"] += " -Zmiri-seed=%d" % (seed * 31 + rep)
        cmd = (["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--"] if k == "miri" else [bins[k]]) + \
            ["mini", s, str(n), d, "tiny" if k == "miri" else "full", pid]
        try:
            p = subprocess.run(cmd, cwd=drv.HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=budget / 1000 * 4 + 240, text=True, errors="replace")
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = "timeout", (x.stdout or b"").decode(errors="replace") if x.stdout else "", (x.stderr or b"").decode(errors="replace") if x.stderr else ""
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"^MINI \S+ (\{.*\})$", out, re.M)
        return j, rc, json.loads(m.group(1)) if m else None, report_of(err), err[-600:]

    viols, ended, runs = [], [], {}
    cases, hashes, samples, obs = 0, set(), [], {}
    try:
        # the interpreter uses the build directory: nothing rebuilds here, sources are those just built
        with drv.RepoGuard():
            with concurrent.futures.ThreadPoolExecutor(drv.NCPU) as ex:
                for j, rc, r, rep, tail in ex.map(go, jobs):
                    k, pid = j[0], j[1]
                    st = runs.setdefault(k, dict(processes=0, completed=0, cases=0, reports=0))
                    st["processes"] += 1
                    if r:
                        st["completed"] += 1
                        st["cases"] += r["cases"]
                        cases += r["cases"]
                        hashes.update("%s/%s/%s" % (k, pid, h) for h in r["hashes"])
                        for c, v in r["counters"].items():
                            if not c.startswith("max_") and k != "miri":
                                obs[c] = obs.get(c, 0) + v
                        if r["samples"] and len(samples) < 12 and j[4] == 0 and len(samples) < 3 * len(runs):
                            samples.append("%s %s: %s" % (k, pid, r["samples"][0][:300]))
                    else:
                        ended.append("%s %s: %s %s" % (k, pid, rc, tail[-300:]))
                    if rep:
                        st["reports"] += 1
                        viols.append(dict(index=0, sig=kind_of(rep), msg="%s, workload of %s: %s" % (k, pid, rep)))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    cov = dict(evaluations=cases, distinct_nontrivial=len(hashes),
               rule="a case is one generated case of another property's workload executed under one sanitizer or the interpreter; non-trivial as defined there; distinct by tool, workload and hash of the case",
               samples=samples, tools=runs, build_s=round(built, 1), runs_without_result=ended[:6],
               observed={c: obs[c] for c in sorted(obs) if c in ("bits_appended", "rows_appended", "blocks", "lists", "single_reads", "batched_reads", "batches_abandoned", "blocks_written", "segments", "mode_threads", "mode_tasks", "mode_shared_runtime", "client_switches_observed", "blocks_matched", "values", "rows")})
    inc = None
    for k in ("asan", "tsan", "msan", "miri"):
        s = runs.get(k, dict(completed=0, processes=1, cases=0))
        if s["completed"] * 2 < s["processes"]:
            inc = "%s: only %d of %d runs completed: %s" % (k, s["completed"], s["processes"], ended[:2])
    return drv.finish("C31", tier, seed, "exploration", cov,
                      ["dependencies' own code is instrumented too, but only what ran is judged",
                       "tokio code paths run under the compiler sanitizers only, not under Miri"], t0, viols, {}, inc)
