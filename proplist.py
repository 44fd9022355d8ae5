#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique="bounded symbolic execution of the real code's LLVM IR, decided by Z3", level="model_checking", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, level=level, note=note, na=na))
NT = "No stable test exercises it at all; a test samples a few concrete values, the claim is over all of them. "
exec(open(os.path.join(V, "proptext.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[], notes="Engine: /verif/engine (LLVM-IR symbolic executor on Z3). See DESIGN.md.")
for p in P:
    if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties,", len(m["checks"]), "claimed")
