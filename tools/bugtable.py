"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json and one or more trybugs logs (later logs win)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (caught|MISSED|INCONCLUSIVE)\s*(.*)", l)
        if m:
            mon = re.search(r'"monitor": "([^"]+)', m.group(4))
            res[m.group(1)] = (m.group(2), m.group(3), mon.group(1) if mon else "")
rows = []
for i in sorted(os.listdir(ROOT + "/seeded")):
    if not os.path.exists(ROOT + "/seeded/%s/meta.json" % i):
        continue
    d = json.load(open(ROOT + "/seeded/%s/meta.json" % i))
    p, how, mon = res.get(i, (d["property"], "not run", ""))
    rows.append("| %s | %s | %s | %s |" % (i, p, d["needs"].replace("|", "/"), "%s by `%s`" % (how, mon) if mon else how))
s = open(ROOT + "/DESIGN.md").read()
b, e = "<!-- BUGTABLE -->", "<!-- /BUGTABLE -->"
tab = "%s\n%d planted bugs; the check is the quick one of the named property, seed 1.\n\n| bug | property | needs | outcome |\n|---|---|---|---|\n%s\n%s\n" % (b, len(rows), "\n".join(rows), e)
i = s.index(b)
j = s.index(e) + len(e) + 1 if e in s else len(s)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + tab + s[j:])
