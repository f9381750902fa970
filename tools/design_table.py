#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
lines = open(p).read().split("\n")
old = [i for i, l in enumerate(lines) if re.match(r"\| [\w.-]+ \| C\d\d \| [^|]* \|$", l)]
assert old[-1] - old[0] + 1 == len(old)
lines[old[0]:old[-1] + 1] = sorted(rows)
open(p, "w").write("\n".join(lines))
print(len(old), "->", len(rows))
