"""development: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
lines = open(p).read().split("\n")
i = [k for k, x in enumerate(lines) if x.startswith("| bug | property")][0] + 2
j = i
while j < len(lines) and lines[j].startswith("|"):
    j += 1
print(lines[i - 2], "\n", lines[i])
rows = []
old = {x.split("|")[1].strip(): x for x in lines[i:j]}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
lines[i:j] = rows
open(p, "w").write("\n".join(lines))
print(len(rows))
