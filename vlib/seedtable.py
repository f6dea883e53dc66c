"""Developer tool: print the table of planted bugs for DESIGN.md from seeded/*/meta.json and a 'plant.py all' log (argument)."""
import json, os, sys
S = "/verif/seeded"
log = {}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.replace(" :: OK;", "").split()
        if len(p) > 2 and p[1].startswith("C") and p[1].endswith(":"): log[p[0]] = p[2]
rows = ["| planted bug | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(S), key=lambda i: (json.load(open(f"{S}/{i}/meta.json"))["property"], i)):
    m = json.load(open(f"{S}/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {log.get(i, '?').lower()} |")
print("\n".join(rows))
