"""fills the tables of DESIGN.md: python3 tools/design.py OUT (OUT: output of variants.py --seeded -v)"""
import glob, json, os, re, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules, hits, cur = {}, {}, None
for l in open(sys.argv[1], errors="replace"):
    m = re.match(r"(?:ok|BAD) +bug +seeded/(\S+) +rc=\d+ hit=(\S*)", l)
    if m:
        cur = m[1]
        hits[cur] = m[2].split(",")
    m = re.match(r" +rule (\S+) at ", l)
    if m and cur:
        rules.setdefault(cur, set()).add(m[1])
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    p = json.load(open(f))["property"]
    o = [h for h in hits.get(i, []) if h != p]
    rows.append("| %s | %s%s | %s |" % (i, p if p in hits.get(i, []) else p + " (missed)", (" (also " + ", ".join(o) + ")") if o else "", ", ".join(sorted(rules.get(i, [])))))
vs = []
for f in sorted(glob.glob(V + "/tools/v/[a-z]*.py")):
    m = runpy.run_path(f)["V"]
    b = sum(v["kind"] == "bug" for v in m)
    vs.append("| %s | %s | %d bugs, %d refactorings |" % (os.path.basename(f), ", ".join(sorted({p for v in m for p in v["props"]})), b, len(m) - b))
s = open(V + "/DESIGN.md").read()
for head, r in (("| planted bug | property, caught by | rule that reports it |\n|---|---|---|\n", rows), ("| file | about | variants |\n|---|---|---|\n", vs)):
    i = s.index(head) + len(head)
    j = i
    while s.startswith("|", j) or s.startswith("@", j):
        j = s.index("\n", j) + 1
    s = s[:i] + "\n".join(r) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
