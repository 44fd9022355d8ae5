#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md: fills in the tables from MANIFEST/properties/known findings/seeded."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json")); props = [json.loads(l) for l in open(V + "/properties.jsonl")]
note = {c["property"]: c["level_note"] for c in m["checks"]}; na = {c["property"]: c["reason"] for c in m["not_applicable"]}
cost = {}
try: cost = json.load(open(V + "/tools/costs.json"))
except OSError: pass
t = ""
for p in props:
    i = p["id"]; t += "### %s %s\n%s\n\nAnchors: %s.\n\n" % (i, p["title"], p["statement"], "; ".join("%s (%s)" % (x["name"], x["where"]) for x in p["anchors"]["mechanism"]))
    t += ("Not applicable: " + na[i] if i in na else "Decided by: " + note[i].replace("Trusted: ", "trusting ")) + (" Quick check: about %s s on 8 cores." % cost[i] if i in cost else "") + "\n\n"
f = "".join("* " + l for l in open(V + "/known_findings.jsonl"))
s = "| id | property | needs | caught by |\n|---|---|---|---|\n"
res = {}
try: res = json.load(open(V + "/tools/seedresults.json"))
except OSError: pass
for d in sorted(os.listdir(V + "/seeded")):
    x = json.load(open(V + "/seeded/%s/meta.json" % d)); s += "| %s | %s | %s | %s |\n" % (d, x["property"], x["needs"].replace("|", "/"), res.get(d, "?"))
d = open(V + "/DESIGN.in.md").read().replace("PROPTABLE", t).replace("FINDINGS", f).replace("SEEDTABLE", s)
open(V + "/DESIGN.md", "w").write(d)
