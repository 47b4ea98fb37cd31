"""C30: runs the real server binary with generated command lines and environments and
compares the configuration it starts with (printed under cfg(meerkat_verif)) with an
independent reading of the documented options."""
import concurrent.futures, json, os, random, shutil, subprocess, time

# Unicode White_Space, what trimming removes
WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def rust_strings(s):
    """Parses `Config { db_path: "..", gossip_port: N, seeds: [..] }` (Rust Debug, fields in any order)."""
    i = 0

    def ws():
        nonlocal i
        while i < len(s) and s[i] in " \n\t":
            i += 1

    def lit():
        nonlocal i
        if s[i] != '"':
            raise ValueError("string expected at %d of %r" % (i, s))
        i += 1
        out = b""
        while s[i] != '"':
            c = s[i]
            i += 1
            if c != "\\":
                out += c.encode("utf-8", "surrogateescape")
                continue
            e = s[i]
            i += 1
            if e == "u":
                j = s.index("}", i)
                out += chr(int(s[i + 1:j], 16)).encode("utf-8")
                i = j + 1
            elif e == "x":
                out += bytes([int(s[i:i + 2], 16)])
                i += 2
            else:
                out += {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(e, e.encode())
        i += 1
        return out

    ws()
    i = s.index("{", i) + 1
    d = {}
    while True:
        ws()
        if s[i] == "}":
            return d
        j = s.index(":", i)
        name = s[i:j].strip()
        i = j + 1
        ws()
        if s[i] == '"':
            d[name] = lit()
        elif s[i] == "[":
            i += 1
            l = []
            while True:
                ws()
                if s[i] == "]":
                    i += 1
                    break
                l.append(lit())
                ws()
                if s[i] == ",":
                    i += 1
            d[name] = l
        else:
            j = i
            while s[j] not in ",} ":
                j += 1
            d[name] = s[i:j]
            i = j
        ws()
        if s[i] == ",":
            i += 1


def seeds_of(text):
    return [e.strip(WS).encode("utf-8") for e in text.split(",") if e.strip(WS)]


WORDS = ["10.0.0.1", "10.0.0.2", "node-1", "node-2.example.org", "::1", "[fe80::1]:7775", "h:1", "a", "localhost", "ñandú", "節点", "x" * 300, "a b", "q\"uote", "back\\slash", "0",
         "a.example.", ".", "..", "A", "NODE-1", "http://h:1/", "h;h", "h|i", "h:", ":1", "-h", "--seeds", "#x", "a=b", "${HOME}", "~", "*", "'q'", "_", "127.1", "0x7f.1", "::", "%41", "a\u200bb", "\ufeffa", "e\u0301", "İ", "ß", "null", "None", "10.0.0.0/8", "a%eth0"]


NUMS, TEXTS = [], []  # constants of the code under test: (value, new)


def load_dictionary(repo):
    import dictionary
    try:
        for l in dictionary.dictionary(repo):
            k, v, new = l.split(" ")
            if k == "n":
                NUMS.append((int(v), new == "1"))
            else:
                TEXTS.append((bytes.fromhex(v).decode("utf-8", "replace"), new == "1"))
    except Exception as e:
        print("no dictionary: %s" % e)


def near(r, xs):
    """now and then, one of them; those new to the tree more often"""
    new = [x for x, n in xs if n]
    if not xs or r.random() > (0.25 if new else 0.04):
        return None
    return r.choice(new) if new and r.random() < 0.8 else r.choice(xs)[0]


def gen_seeds(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 5, 40, 40, 1500 if r.random() < 0.2 else 12])
    k = near(r, NUMS)
    if k is not None and k <= 3000:
        n = k + r.choice([-1, 0, 1])
    parts = []
    same = r.choice(WORDS) if r.random() < 0.1 else None
    for _ in range(n):
        w = same or r.choice(WORDS)
        if not same and r.random() < 0.2:
            w = "".join(r.choice("abcXYZ019.-_:[]/%@") for _ in range(r.randrange(1, 40)))
        x = near(r, TEXTS)
        if x and "," not in x and "\0" not in x and x.strip(WS):
            w = r.choice([x, x + w, w + x, x.upper()])
        x = near(r, NUMS)
        if x and x < 3000 and n < 60:
            w = r.choice(["y" * (x + r.choice([-1, 0, 1])), str(x), "h:%d" % x])
        pad = lambda: "".join(r.choice([" ", "\t", "\n", "\u3000", "\xa0"]) for _ in range(r.choice([0, 0, 1, 3])))
        parts.append(pad() + w + pad())
        if r.random() < 0.25:
            parts.append(r.choice(["", " ", "\t  "]))
    if r.random() < 0.2:
        parts.insert(0, "")
    while len(",".join(parts).encode()) > 100000:  # one argument holds 128 KiB
        parts = parts[:len(parts) // 2]
    t = ",".join(parts)
    if n and r.random() < 0.2:
        t += ","
    return t or r.choice([",", " ", ",,", " , "])


PATHS = [b"/var/lib/meerkat", b"data", b"./data", b"/tmp/with space/db", "/données/é".encode(), b"/bin\xff\xfe/x", b"a", b"/", b"..", b"C:\\db", b"/x=y", b"a,b", b"/" + b"long/" * 60,
         b"~", b"~/db", b"~root/db", b"$HOME/db", b"${HOME}", b"%HOME%", b"/a/../b", b"/a/./b", b"//a//b", b"/a/", b"./", b"../x", b" /lead", b"/trail ", b"\t", b'"/q"', b"'/q'", b"/%20", b"file:///x",
         b"/a\nb", b"/*", b"/a;b", b"/a:b", b"-", b"\\\\host\\share", b"/A", "/e\u0301".encode(), b"0", b"/dev/null", b"/tmp"]
# variables nobody documented: they change nothing
NOISE = ["DB_PATH", "GOSSIP_PORT", "SEEDS", "PORT", "MK_PORT", "MK_SEED", "MK_DB", "MK_PATH", "MK_HOME", "MK_GOSSIP", "MK_CONFIG", "MEERKAT_DB_PATH", "MEERKAT_GOSSIP_PORT", "MEERKAT_SEEDS", "mk_db_path", "mk_seeds",
         "HOST", "HOSTNAME", "USER", "TMPDIR", "PWD", "XDG_DATA_HOME", "LANG", "LC_ALL", "RUST_LOG", "RUST_BACKTRACE", "CARGO_MANIFEST_DIR", "CI", "DEBUG", "HTTP_PROXY"]
GOOD = [0, 1, 80, 7774, 7775, 7776, 32767, 32768, 65534, 65535]
BAD = ["65536", "70000", "-1", "abc", "", " 7775", "7775 ", "7775x", "0x10", "1.5", "99999999999999999999", "７７７５"]
NAMES = {"db_path": ("--db-path", "MK_DB_PATH"), "gossip_port": ("--gossip-port", "MK_GOSSIP_PORT"), "seeds": ("--seeds", "MK_SEEDS")}


def gen(r):
    """-> (kind, args, env, expectation or None)"""
    flags, env = {}, {}
    for k in NAMES:
        how = r.choice(["flag", "env", "both", "none"])
        if k == "db_path" and how == "none" and r.random() < 0.7:
            how = "flag"
        def val():
            if k == "db_path":
                x = near(r, TEXTS)
                if x and "\0" not in x:
                    return r.choice([x, "/" + x, x + "/db"]).encode()
                x = near(r, NUMS)
                if x and x < 3000:
                    return b"/" + b"p" * (x + r.choice([-2, -1, 0]))
                return r.choice(PATHS)
            if k == "gossip_port":
                v = r.choice(GOOD) if r.random() < 0.7 else r.randrange(65536)
                x = near(r, NUMS)
                if x is not None and x < 65535:
                    v = x + r.choice([0, 0, -1, 1]) if x else x
                s = str(v)
                return (("0" * r.choice([0, 0, 0, 3])) + s).encode()
            return gen_seeds(r).encode()
        if how in ("flag", "both"):
            flags[k] = val()
        if how in ("env", "both"):
            env[NAMES[k][1]] = val()
    kind = "valid"
    mode = r.random()
    if "db_path" not in flags and "MK_DB_PATH" not in env:
        kind = "missing-path"
    if mode < 0.15:
        bad = r.choice(BAD).encode()
        if r.random() < 0.5:
            flags["gossip_port"] = bad
            kind = "bad-port"
        else:
            env["MK_GOSSIP_PORT"] = bad
            if "gossip_port" not in flags and kind == "valid":
                # an empty variable is nobody's documented case
                if bad == b"":
                    del env["MK_GOSSIP_PORT"]
                else:
                    kind = "bad-port-env"
            elif kind == "valid":
                kind = "bad-port-env-overridden"
    if r.random() < 0.3:
        for k in r.sample(NOISE, r.choice([1, 2, 5, len(NOISE)])):
            env[k] = r.choice([b"1", b"8888", b"/elsewhere", b"other:1,other2", b"", b"0", b"C.UTF-8", b"full"])
    if r.random() < 0.1:
        env["HOME"] = r.choice([b"", b"/nowhere", b"relative", b"/"])
    args = []
    order = list(flags)
    r.shuffle(order)
    for k in order:
        n = NAMES[k][0].encode()
        v = flags[k]
        if v.startswith(b"-") or r.random() < 0.5 or v == b"":
            args.append(n + b"=" + v)
        else:
            args += [n, v]
    if 0.15 <= mode < 0.22 and kind == "valid":
        kind = "unknown-flag"
        args.insert(0, r.choice([b"--unknown", b"--db_path=x", b"-x", b"--gossip-ports=1", b"--seed=a"]))
    elif 0.22 <= mode < 0.26 and kind == "valid":
        kind = "stray-argument"
        args.append(b"stray")
    elif 0.26 <= mode < 0.30 and kind == "valid":
        # (with a variable or a default to fall back on, the parser uses that)
        n = [n.encode() for n, v in (NAMES["db_path"], NAMES["seeds"]) if v not in env and n[2:].replace("-", "_") not in flags]
        if n:
            kind = "flag-without-value"
            args.append(r.choice(n))
    elif 0.30 <= mode < 0.34 and kind == "valid" and "gossip_port" in flags:
        kind = "repeated-flag"
        args += [b"--gossip-port", b"1"]
    elif 0.34 <= mode < 0.40:
        kind = "help"
        args.insert(r.randrange(len(args) + 1) if not any(not a.startswith(b"--") for a in args) else 0, r.choice([b"--help", b"-h"]))
    elif 0.40 <= mode < 0.46:
        kind = "version"
        args.insert(0, r.choice([b"--version", b"-V"]))
    want = None
    if kind in ("valid", "bad-port-env-overridden"):
        get = lambda k, d: flags.get(k, env.get(NAMES[k][1], d))
        want = dict(db_path=get("db_path", None), gossip_port=str(int(get("gossip_port", b"7775"))), seeds=seeds_of(get("seeds", b"").decode()))
    return kind, args, env, want


def show(args, env):
    return "%s meerkat %s" % (" ".join("%s=%r" % (k, v) for k, v in env.items()), " ".join(repr(a)[1:] for a in args))


def observe(binary, cwd, args, env):
    e = {b"PATH": b"/usr/bin:/bin", b"HOME": cwd.encode()}
    e.update({k.encode(): v for k, v in env.items()})
    p = subprocess.Popen([binary.encode()] + args, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    running = False
    try:
        out, err = p.communicate(timeout=15)
    except subprocess.TimeoutExpired:
        running = True
        p.kill()
        out, err = p.communicate()
    cfg = [l[len(b"VERIF-CONFIG "):] for l in err.split(b"\n") if l.startswith(b"VERIF-CONFIG ")]
    return dict(rc=None if running else p.returncode, out=out, err=err, cfg=cfg)


def judge(kind, want, o, env, args=()):
    """-> None or (sig, message)"""
    started = bool(o["cfg"]) or (b"starting" in o["out"] and not any(b"starting" in v for v in list(env.values()) + list(args)))
    if want is not None:
        if kind == "bad-port-env-overridden" and not started and o["rc"] not in (0, None):
            return None  # the parser also validates a variable that a flag overrides
        if not o["cfg"]:
            return "valid-refused", "not started, exit %s: %r" % (o["rc"], (o["out"] + o["err"])[-400:])
        if o["rc"] not in (0, None):
            return "valid-failed", "exit %s: %r" % (o["rc"], o["err"][-400:])
        try:
            got = rust_strings(o["cfg"][-1].decode("utf-8", "surrogateescape"))
        except (ValueError, IndexError) as x:
            return "HARNESS", "unreadable configuration %r: %s" % (o["cfg"][-1], x)
        for k in ("db_path", "gossip_port", "seeds"):
            if k not in got:
                return "HARNESS", "no %s in %r" % (k, o["cfg"][-1])
            if got[k] != want[k]:
                return "config-" + k, "%s is %r, expected %r" % (k, got[k], want[k])
        return None
    if kind in ("help", "version"):
        if started:
            return "started-on-" + kind, "the server started"
        if o["rc"] == 101 and b"textwrap" in o["err"] and b"char boundary" in o["err"] and any(max(v) > 127 for v in env.values()):
            return "help-textwrap-panic", "exit 101: %r" % o["err"][-400:]
        if o["rc"] != 0:
            return kind + "-exit", "exit %s: %r" % (o["rc"], (o["out"] + o["err"])[-400:])
        text = o["out"].decode(errors="replace")
        for w in (["--db-path", "--gossip-port", "--seeds", "MK_DB_PATH", "MK_GOSSIP_PORT", "MK_SEEDS", "7775"] if kind == "help" else ["meerkat", "version"]):
            if w not in text:
                return kind + "-text", "%r is not in the output %r" % (w, text[-600:])
        return None
    if started:
        return "started-" + kind, "the server started with %r" % (o["cfg"],)
    if o["rc"] in (0, None):
        return "exit-" + kind, "exit %s instead of a failure" % o["rc"]
    if not o["err"].strip() and not o["out"].strip():
        return "silent-" + kind, "refused without a word"
    return None


def fixed_cases():
    base = [b"--db-path", b"/d"]
    d = lambda **k: dict(dict(db_path=b"/d", gossip_port="7775", seeds=[]), **k)
    yield "valid", base, {}, d()
    yield "missing-path", [], {}, None
    yield "missing-path", [b"--gossip-port", b"1", b"--seeds", b"a"], {"MK_GOSSIP_PORT": b"1", "MK_SEEDS": b"a"}, None
    yield "valid", [], {"MK_DB_PATH": b"/e"}, d(db_path=b"/e")
    yield "valid", base, {"MK_DB_PATH": b"/e", "MK_GOSSIP_PORT": b"1", "MK_SEEDS": b"x, y"}, d(gossip_port="1", seeds=[b"x", b"y"])
    yield "valid", base + [b"--gossip-port=2", b"--seeds=z"], {"MK_DB_PATH": b"/e", "MK_GOSSIP_PORT": b"1", "MK_SEEDS": b"x, y"}, d(gossip_port="2", seeds=[b"z"])
    yield "valid", base + [b"--seeds", b"b,a,,b, c ,"], {}, d(seeds=[b"b", b"a", b"b", b"c"])
    for p in GOOD:
        yield "valid", base + [b"--gossip-port", str(p).encode()], {}, d(gossip_port=str(p))
        yield "valid", base, {"MK_GOSSIP_PORT": str(p).encode()}, d(gossip_port=str(p))
    for p in BAD:
        yield "bad-port", base + [b"--gossip-port=" + p.encode()], {}, None
        if p:
            yield "bad-port-env", base, {"MK_GOSSIP_PORT": p.encode()}, None
    for h in (b"--help", b"-h"):
        yield "help", [h], {}, None
        yield "help", [h], {"MK_DB_PATH": b"/d", "MK_SEEDS": b"a"}, None
        yield "help", base + [h], {}, None
    for h in (b"--version", b"-V"):
        yield "version", [h], {}, None
        yield "version", [h] + base, {"MK_DB_PATH": b"/d"}, None
    yield "help", [b"--help"], {"MK_SEEDS": ("x" * 300 + "\u3000節点").encode()}, None
    yield "bad-seeds", base + [b"--seeds", b"\xff\xfe"], {}, None


def run(drv, tier, seed):
    t0 = time.time()
    with drv.RepoGuard():
        built = drv.build_server()
    load_dictionary(drv.REPO)
    r = random.Random(seed * 1000003 + 30)
    n = 20000 if tier == "thorough" else 4000
    cases = list(fixed_cases())
    cases += [gen(r) for _ in range(n)]
    base = os.path.join(drv.WORK, "c30-%d" % os.getpid())
    os.makedirs(base)
    binary = os.path.join(base, "server-under-test")
    shutil.copy(built, binary)
    limit = time.time() + (420 if tier == "thorough" else 60)
    kinds, viols, harness, distinct, samples, runs = {}, [], [], set(), [], 0

    def go(c):
        if time.time() > limit:
            return None
        kind, args, env, want = c
        o = observe(binary, base, args, env)
        return c, judge(kind, want, o, env, args)
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, x in enumerate(ex.map(go, cases)):
                if x is None:
                    continue
                runs += 1
                (kind, args, env, want), v = x
                kinds[kind] = kinds.get(kind, 0) + 1
                distinct.add((tuple(args), tuple(sorted(env.items()))))
                if i % max(1, len(cases) // 10) == 0:
                    samples.append(("%s -> %s" % (show(args, env), kind if want is None else want))[:600])
                if v and v[0] == "HARNESS":
                    harness.append(v[1])
                elif v and sum(w["sig"] == v[0] for w in viols) < 2:
                    viols.append(dict(index=i, sig=v[0], msg="%s: %s [%s]" % (kind, v[1], show(args, env))))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    cov = dict(evaluations=runs, distinct_nontrivial=len(distinct),
               rule="a case is one execution of the server binary with a generated command line and environment, judged on exit status, output and the configuration it starts with; distinct by arguments and environment",
               samples=samples, observed=dict(sorted(kinds.items())), machine_problems=harness[:5])
    inc = None
    need = ["valid", "missing-path", "bad-port", "bad-port-env", "bad-port-env-overridden", "unknown-flag", "help", "version"]
    if harness:
        inc = harness[0]
    elif [k for k in need if not kinds.get(k)]:
        inc = "kinds never run: %s" % [k for k in need if not kinds.get(k)]
    return drv.finish("C30", tier, seed, "exploration", cov,
                      ["the configuration printed by the hook at the start of Meerkat::start is the one the server uses"], t0, viols, {}, inc)
