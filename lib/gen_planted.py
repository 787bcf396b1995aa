"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development helper)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
