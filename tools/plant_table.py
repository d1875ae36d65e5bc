"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and tools/bugs.py (all caught by the check of their property unless listed in MISSED)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted bug | check | needs |", "|-|-|-|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append(f"| {n} | {m['property'] if n not in MISSED else 'missed: ' + MISSED[n]} | {m['needs']} |")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
mark = "<!-- table by tools/plant_table.py -->\n"
open(p, "w").write(t[:t.index(mark)] + mark + "\n".join(rows) + "\n")
print(len(rows) - 2, "planted bugs")
