#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.tmpl.md, properties.jsonl, tools/claims.py and seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(R, "tools/claims.py")).read(), ns)
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    d = ns.get("DESIGN", {}).get(i, "")
    if i in ns["CLAIMED"]:
        out.append("### %s %s\n\nClaimed. %s\n%s" % (i, p["title"], ns["CLAIMED"][i], d and "\n" + d.strip() + "\n"))
    else:
        out.append("### %s %s\n\nNot claimed. %s\n%s" % (i, p["title"], ns["NA"][i], d and "\n" + d.strip() + "\n"))
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], ns.get("CAUGHT", {}).get(n, "not run yet")))
t = open(os.path.join(R, "tools/DESIGN.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(R, "DESIGN.md"), "w").write(t)
