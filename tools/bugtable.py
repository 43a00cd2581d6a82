#!/usr/bin/env python3
"""bugtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (used by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/")))
s = open(V + "/DESIGN.md").read().split("\n")
at = [i for i, l in enumerate(s) if l.startswith("| bug |")][0] + 2
end = at
while s[end].startswith("| "):
    end += 1
open(V + "/DESIGN.md", "w").write("\n".join(s[:at] + rows + s[end:]))
