#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md, design_how.py, the property list, the planted bugs and the recorded results (tools/catches.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(V + "/tools/design_how.py").read(), g)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = [open(V + "/tools/design_intro.md").read(), "## The properties\n"]
for p in props:
    i = p["id"]; c = man.get(i)
    out.append("### %s %s\n\n%s\n\n*Decided by* %s.\n\n%s\n\n*Bounds:* %s\n" % (i, p["title"], p["statement"], c["technique"] if c else "nothing (see not_applicable)", g["HOW"].get(i, ""), c["level_note"] if c else ""))
cf = V + "/tools/catches.json"
C = json.load(open(cf)) if os.path.exists(cf) else {}
mf = V + "/work/matrix.json"
if os.path.exists(mf):
    for k, r in json.load(open(mf)).items():
        C[k] = {"caught": sorted(p for p, x in r["checks"].items() if x == 1), "missed": sorted(p for p, x in r["checks"].items() if x == 0)}
S = V + "/seeded"
C = {k: v for k, v in C.items() if os.path.isdir(S + "/" + k)}
json.dump(C, open(cf, "w"), indent=0, sort_keys=True)
out.append("## Planted bugs and which checks report them\n\nEach is valid: it builds, passes the stable tests, and its demonstration fails only with it. 'also' lists other checks that were run and report it.\n\n| bug | property | needs | caught by own check | also |\n|---|---|---|---|---|")
n = k = 0
for b in sorted(os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, b))); r = C.get(b, {"caught": [], "missed": []})
    own = m["property"] in r["caught"]; n += 1; k += own
    out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), "yes" if own else "no" if m["property"] in r["missed"] else "not run", " ".join(x for x in r["caught"] if x != m["property"])))
out.append("\n%d planted, %d caught by the check of the property they break.\n" % (n, k))
e = V + "/tools/design_end.md"
if os.path.exists(e): out.append(open(e).read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(n, "bugs,", k, "caught")
