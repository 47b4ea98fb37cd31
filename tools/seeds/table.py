"""Rewrites the table of planted changes in DESIGN.md from /verif/seeded/*/meta.json and the log of
`seeds.py catch` (lines `<id> <check> CAUGHT|MISSED ...`), given as argument."""
import glob, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(c\d\d-\S+) (C\d\d) (CAUGHT|MISSED)(.*)", l)
        if m:
            s = re.search(r"replay/C\d\d-(.*?)-?(\d+)?\.json", m.group(4))
            got.setdefault(m.group(1), {})[m.group(2)] = (m.group(3), s.group(1) if s else "", s.group(2) if s else "")
rows = ["| change | needs | caught by |", "|---|---|---|"]
missed = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = got.get(i, {})
    c = ", ".join("%s `%s`" % (k, v[1]) for k, v in sorted(r.items()) if v[0] == "CAUGHT") or ("not caught" if r else "not run")
    if "not" in c:
        missed.append(i)
    rows.append("| %s | %s | %s |" % (i, re.sub(r"\s+", " ", m["needs"]).replace("|", "/")[:150], c))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
print(len(rows) - 2, "changes;", "missed:", missed)
