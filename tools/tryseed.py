#!/usr/bin/env python3
"""tryseed.py ID... : confirm each seeded bug (demo ok on clean tree, patch applies, builds, stable tests pass, demo fails) and run its property's check."""
import sys, os, subprocess, json, re
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
ids = sys.argv[1:]; chk = "--nocheck" not in ids; ids = [i for i in ids if not i.startswith("--")]
sh("bash /opt/vp/build.sh")
for i in ids:
    d = "/verif/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]
    a = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); msg = "clean-demo=%d" % a.returncode
    if a.returncode: print(a.stdout[-1500:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "APPLY FAILED", r.stdout); continue
        b = sh("bash /opt/vp/build.sh"); msg += " build=%d" % b.returncode
        if b.returncode: print(b.stdout[-1500:])
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); res = json.load(open("/tmp/seedtest.json")) if os.path.exists("/tmp/seedtest.json") else {}
        passed = set(res.get("passed", [])); miss = stable - passed; msg += " stable-missing=%d" % len(miss)
        x = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); msg += " bug-demo=%d" % x.returncode
        if x.returncode == 0: print(x.stdout[-800:])
        if chk:
            c = sh("python3 run.py %s" % prop, cwd="/verif"); v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]; msg += " check(%s)=%d %s" % (prop, c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED")
            open("/tmp/seed-%s.log" % i, "w").write(c.stdout)
            R = "/verif/tools/seedresults.json"; rs = json.load(open(R)) if os.path.exists(R) else {}; rs[i] = prop if "CAUGHT" in msg else "missed"; json.dump(rs, open(R, "w"), indent=1, sort_keys=True)
    finally:
        sh("git -C /repo checkout -- .")
    good = a.returncode == 0 and " build=0" in msg and "stable-missing=0" in msg and x.returncode != 0
    print(i, "VALID" if good else "INVALID", msg, flush=True)
sh("bash /opt/vp/build.sh")
