"""A dictionary of the constants written in the code under test, in the manner of a fuzzer's
dictionary: workload generators draw sizes, values and names near them now and then, and more often
near those that are not in the tree this was written for (tools/dictionary_base.json). It only steers
generation; what is right is decided by the oracles alone.

usage: dictionary.py base   rewrite dictionary_base.json from /repo
       dictionary.py        print the dictionary of /repo"""
import collections, json, os, re, sys

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dictionary_base.json")
TOKEN = re.compile(r"""
    //[^\n]* | /\*.*?\*/
  | (?P<raw>b?r(?P<h>\#*)"(?P<rawtext>.*?)"(?P=h))
  | (?P<str>b?"(?P<text>(?:\\.|[^"\\])*)")
  | (?P<chr>b?'(?:\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])')
  | (?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9_]+)?(?:e[0-9]+)?)(?:[ui](?:8|16|32|64|128|size)|f32|f64)?\b)
  | (?P<word>\w+) | (?P<op><<|.)
""", re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    def f(m):
        e = m.group(1)
        if e[0] == "u":
            return chr(int(e[2:-1], 16))
        if e[0] == "x":
            return chr(int(e[1:], 16))
        return ESC.get(e, e)
    try:
        return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", f, s, flags=re.S)
    except ValueError:
        return s


def number(t):
    t = t.replace("_", "")
    t = re.sub(r"([ui](8|16|32|64|128|size)|f32|f64)$", "", t) if not t.startswith("0x") else re.sub(r"[ui](8|16|32|64|128|size)$", "", t)
    try:
        if re.search(r"[.e]", t) and not t.startswith("0x"):
            return int(float(t))
        return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
    except (ValueError, OverflowError):
        return None


def scan(text):
    """(numbers, strings) with their counts"""
    cut = re.search(r"#\[cfg\(test\)\]\s*\n\s*mod ", text)
    if cut:
        text = text[:cut.start()]
    toks = []
    for m in TOKEN.finditer(text):
        if m.group("raw"):
            toks.append(("s", m.group("rawtext")))
        elif m.group("str"):
            toks.append(("s", unescape(m.group("text"))))
        elif m.group("chr"):
            c = unescape(m.group("chr").lstrip("b")[1:-1])
            if len(c) == 1:
                toks.append(("n", ord(c)))
        elif m.group("num"):
            v = number(m.group("num"))
            if v is not None:
                toks.append(("n", v))
        elif m.group("op") and not m.group("op").isspace():
            toks.append(("o", m.group("op")))
        elif m.group("word"):
            toks.append(("w", m.group("word")))
    nums, strs = collections.Counter(), collections.Counter()
    i = 0
    while i < len(toks):
        k, v = toks[i]
        if k == "s" and v:
            strs[v] += 1
        if k == "n":
            nums[v] += 1
            # constant products, shifts, sums
            acc, j = v, i
            while j + 2 < len(toks) and toks[j + 1][0] == "o" and toks[j + 1][1] in ("<<", "*", "+", "-") and toks[j + 2][0] == "n":
                o, w = toks[j + 1][1], toks[j + 2][1]
                if o == "<<" and w > 63:
                    break
                acc = acc << w if o == "<<" else acc * w if o == "*" else acc + w if o == "+" else acc - w
                j += 2
                if 0 <= acc < 1 << 64:
                    nums[acc] += 1
        i += 1
    return nums, strs


def scan_repo(repo):
    out = {}
    src = os.path.join(repo, "src")
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".rs"):
                n, s = scan(open(p, errors="replace").read())
                out[os.path.relpath(p, src)] = dict(n={str(k): c for k, c in sorted(n.items())}, s=dict(sorted(s.items())))
    return out


def dictionary(repo="/repo"):
    """lines: `n <value> <novel>`, `s <hex> <novel>`"""
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    all_n, all_s = {}, {}
    for f, e in scan_repo(repo).items():
        b = base.get(f, dict(n={}, s={}))
        for k, c in e["n"].items():
            if 2 <= int(k) < 1 << 64:
                all_n[int(k)] = all_n.get(int(k), False) or c > b["n"].get(k, 0)
        for k, c in e["s"].items():
            if len(k) <= 200:
                all_s[k] = all_s.get(k, False) or c > b["s"].get(k, 0)
    return ["n %d %d" % (k, v) for k, v in sorted(all_n.items())] + ["s %s %d" % (k.encode("utf-8", "surrogatepass").hex(), v) for k, v in sorted(all_s.items())]


if __name__ == "__main__":
    if sys.argv[1:] == ["base"]:
        json.dump(scan_repo("/repo"), open(BASE, "w"), indent=0, sort_keys=True)
    else:
        print("\n".join(dictionary(*sys.argv[1:])))
