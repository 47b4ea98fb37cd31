#!/usr/bin/env python3
"""Planted bugs: generates /verif/seeded/<id>/ and tries them out.

  seeds.py gen [ID..]      write patch.diff, demo.sh, demo.rs, meta.json
  seeds.py verify [ID..]   in a scratch copy: builds, tests pass, demo 0 without / non-zero with the patch
  seeds.py catch [ID..]    apply to /repo, run the check of the property (or CHECKS=...), revert
No check uses this file.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/seed-scratch"

HEAD = """#!/bin/bash
# {title}
# Run with the repository as working directory; works on a copy of it.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/seeded-demo-{id}
mkdir -p /tmp/seeded-demo-{id}/tmp /tmp/seeded-demo-{id}/repo || exit 3
trap 'rm -rf /tmp/seeded-demo-{id}' EXIT
cp -a Cargo.toml Cargo.lock build.rs src target /tmp/seeded-demo-{id}/repo/ || exit 3
cd /tmp/seeded-demo-{id}/repo || exit 3
export HOME=/root PATH="/root/.cargo/bin:$PATH" TMPDIR=/tmp/seeded-demo-{id}/tmp
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
"""
RS = HEAD + """cat "$here/demo.rs" >> {file}
{pre}cargo test --offline --locked --bin meerkat --no-run || exit 4
{env}timeout 200 cargo test --offline --locked --bin meerkat seeded_demo
"""


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "s_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def gen(s):
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/seed-gen"
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % wt, shell=True, check=True)
    for c in ("git init -q", "git add -A", "git -c user.name=a -c user.email=a@b commit -qm base"):
        subprocess.run(c, shell=True, cwd=wt, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        n = t.count(old)
        assert n == 1, "%s: %d matches of %r in %s" % (s["id"], n, old, f)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE, text=True, check=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    a = dict(id=s["id"], title=s["what"].replace("\n", " "), file=s.get("demo_file", ""), pre=s.get("pre", ""), env=s.get("env", ""))
    if "demo_sh" in s:
        txt = HEAD.format(**a) + s["demo_sh"]
    else:
        txt = RS.format(**a)
    if "demo" in s:
        body = "\n#[cfg(test)]\nmod seeded_demo {\n    #[allow(unused_imports)]\n    use super::*;\n" + s["demo"] + "\n}\n"
        open(os.path.join(d, "demo.rs"), "w").write(body)
    for n, c in s.get("extra", {}).items():
        open(os.path.join(d, n), "w").write(c)
    open(os.path.join(d, "demo.sh"), "w").write(txt)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(wt, ignore_errors=True)


ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def verify(s):
    d = os.path.join(SEEDED, s["id"])
    if not os.path.exists(SCRATCH):
        subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=SCRATCH, check=True)
    demo = os.path.join(d, "demo.sh")
    t0 = time.time()
    p0 = sh(["bash", demo], cwd=SCRATCH)
    t1 = time.time()
    ap = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=SCRATCH)
    if ap.returncode:
        print(s["id"], "PATCH DOES NOT APPLY", ap.stdout)
        return False
    b = subprocess.run("cargo build --workspace --offline --locked && cargo test --workspace --offline --locked", shell=True, cwd=SCRATCH, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tests_ok = b.returncode == 0 and "20 passed" in b.stdout
    p1 = sh(["bash", demo], cwd=SCRATCH)
    subprocess.run("git checkout -q -- .", shell=True, cwd=SCRATCH, check=True)
    ok = p0.returncode == 0 and "1 passed" in p0.stdout + "1 passed" * ("demo_sh" in s) and tests_ok and p1.returncode not in (0, 3, 4)
    print(s["id"], "OK" if ok else "BAD", "clean=%d patched=%d tests=%s demo %.0fs" % (p0.returncode, p1.returncode, tests_ok, t1 - t0), flush=True)
    if not ok:
        print("--- clean\n", p0.stdout[-1500:] if p0.returncode else "", "\n--- patched\n", "" if p1.returncode else p1.stdout[-700:], "\n--- tests\n", "" if tests_ok else "\n".join([l for l in b.stdout.splitlines() if "FAILED" in l or "error" in l or "-->" in l][:12]))
    return ok


def catch(s):
    d = os.path.join(SEEDED, s["id"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    try:
        p = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        assert p.returncode == 0, p.stdout
        for c in os.environ.get("CHECKS", s["property"]).split(","):
            t0 = time.time()
            p = sh(["python3", os.path.join(VERIF, "check.py"), c, os.environ.get("TIER", "quick")], cwd=VERIF, timeout=1800)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print(s["id"], c, "CAUGHT" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, "%.0fs" % (time.time() - t0), v[:1], flush=True)
            if p.returncode != 1:
                print(p.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")


def main():
    seeds = load()
    cmd, ids = sys.argv[1], sys.argv[2:] or list(seeds)
    for i in ids:
        {"gen": gen, "verify": verify, "catch": catch}[cmd](seeds[i])


main()
