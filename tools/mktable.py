"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, i)))
    rows.append("| %s | %s | %s |\n" % (i, m["property"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
a = s.index("| change | caught by | needs |\n")
b = s.index("\n\n", a) + 1
s = s[:a] + "| change | caught by | needs |\n|---|---|---|\n" + "".join(rows) + s[b:]
open(p, "w").write(s)
