#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what' FILE <<< 'OLD\n=====\nNEW' : write seeded/ID/{patch.diff,meta.json} from a replacement in a scratch copy of FILE (multiple FILE blocks separated by '#####FILE path')."""
import sys, os, subprocess, json, tempfile, shutil
sid, prop, needs, what = sys.argv[1:5]
spec = sys.stdin.read(); d = "/verif/seeded/" + sid; os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(); out = ""
for blk in spec.split("#####FILE ")[1:]:
    path, body = blk.split("\n", 1); path = path.strip(); parts = body.split("\n#####AND\n")
    s = open("/repo/" + path).read(); o = s
    for part in parts:
        old, new = part.split("\n=====\n"); old = old.strip("\n"); new = new.rstrip("\n").lstrip("\n")
        assert s.count(old) == 1, (path, s.count(old), old)
        s = s.replace(old, new)
    for n, t in (("a", o), ("b", s)):
        p = os.path.join(tmp, n, path); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
    r = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, os.path.join(tmp, "a", path), os.path.join(tmp, "b", path)], stdout=subprocess.PIPE, text=True); out += r.stdout
shutil.rmtree(tmp)
open(d + "/patch.diff", "w").write(out); json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
print(out)
