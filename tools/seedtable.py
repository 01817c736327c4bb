"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and the results of tools/plant.py."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rec = {}
for l in open(V + "/.build/plant.jsonl"):
    r = json.loads(l)
    if r.get("checks"):
        rec.setdefault(r["id"], {}).update(r["checks"])
print("| planted bug | needs | caught by (kind of report) |\n|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = rec.get(i, {})
    hit = ", ".join("%s %s" % (k, v[2].split("]")[0].strip("[") if v[2] else "") for k, v in sorted(c.items()) if v[0] == 1)
    print("| %s | %s | %s |" % (i, m["needs"], hit or "**missed**"))
