#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property. Exit 0 held, 1 violated (reproduced natively)."""
import os, sys, json, time, subprocess, argparse, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, BUILD, NCPU
from concurrent.futures import ThreadPoolExecutor, as_completed
import checks


def load_findings():
    p = VERIF + "/known_findings.jsonl"; r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"): r.append(json.loads(l))
    return r


def write_values(path, model):
    with open(path, "w") as f:
        for n, v in model: f.write("%s %s\n" % (n.replace(" ", "_"), v))


def native(h, entry, args, model, tmp, timeout=30, exe=None):
    write_values(tmp, model)
    try:
        r = subprocess.run([exe or h.nat, entry, tmp] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace", text=True,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66", UBSAN_OPTIONS="halt_on_error=1:exitcode=66"))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def asan_build(h):
    if getattr(h, "asan", None): return h.asan
    fl = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined"]
    units = [([f for f in a if f != "-g1"] + fl, s) for a, s in h.units_nat()]
    with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda u: vlib.compile_cached("g++", u[0], u[1], "nat"), units))
    d = BUILD + "/cache/asan.%d" % os.getpid(); os.makedirs(d, exist_ok=True)
    open(d + "/entries.inc", "w").write("".join("H(%s)\n" % e for e in h.entries)); out = d + "/exe-" + h.name
    r = vlib.sh(["g++", "-std=c++17", "-w", "-O0"] + fl + ["-I", d, "-I", VERIF + "/rt", VERIF + "/rt/replay_rt.cpp"] + objs + ["-Wl,--unresolved-symbols=ignore-all", "-o", out, "-lpthread"])
    if r.returncode: raise vlib.BuildError(r.stdout)
    h.asan = out
    return out


def reproduced(h, job, e, tmp):
    """replay one counterexample against the natively compiled real code"""
    k = e["kind"]
    rc, out = native(h, job["entry"], job["args"], e["model"], tmp, 30)
    crash = isinstance(rc, int) and (rc < 0 or rc in (134, 139, 136))
    if k == "assert": ok = rc == 42 or crash or rc == "timeout" or rc == 45
    elif k == "hang": ok = rc == "timeout" or crash
    elif k == "uncaught": ok = rc == 45 or crash
    else: ok = crash or rc in (42, 45) or rc == "timeout"
    if not ok and k in ("memory", "unreachable", "overflow", "divzero") and rc == 0:
        rc, out = native(h, job["entry"], job["args"], e["model"], tmp, 60, asan_build(h))
        ok = rc == 66 or (isinstance(rc, int) and rc < 0) or rc in (42, 45)
    return ok, rc, out[-1500:]


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); t0 = time.time(); pid = a.prop; P = checks.PROPS[pid]; tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    note = next((c["level_note"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"] if c["property"] == pid), "")
    P = dict(P, bounds=note.split("Bounds: ")[-1], assumptions=P["assumptions"] or [note.split("Bounds: ")[0].strip(), "Everything outside the stated bounds is not explored."])
    jobs = [j for j in P["jobs"] if j["tier"] == "quick" or tier == "thorough"]
    if tier == "thorough": jobs = [dict(j, timeout=max(j["timeout"], j.get("ttimeout", 1500))) for j in jobs]
    if a.only: jobs = [j for j in jobs if a.only in j["entry"]]
    hs = {}
    for j in jobs: hs.setdefault(j["h"], checks.harness(j["h"]))
    try:
        eng = vlib.build(list(hs.values()))
    except vlib.BuildError as e:
        print("BUILD-ERROR", e, file=sys.stderr); sys.exit(2)
    tb = time.time() - t0
    work = BUILD + "/work/%s.%d" % (pid, os.getpid()); os.makedirs(work, exist_ok=True)
    findings = [f for f in load_findings() if f["property"] == pid]
    stop = [t0 + 480 if tier == "quick" else 1e18]   # quick: leave time to replay within the limit of 900 s
    def listed(j): return any(f.get("args") == j["args"] and f.get("entry") == j["entry"] for f in findings)
    def go(ij):
        i, j = ij; left = stop[0] - time.time()
        if left < 2: return j, None, "skipped"
        if left < j["timeout"]: j = dict(j, timeout=max(5, int(left)))
        out = "%s/%d.json" % (work, i)
        cmd = [eng, hs[j["h"]].bc, "--entry", j["entry"], "--out", out, "--timeout", str(j["timeout"]), "--qtimeout", str(j.get("qtimeout", 60)), "--samples", "4"]
        for x in j.get("opts", []): cmd.append(str(x))
        for x in j["args"]: cmd += ["--arg", str(x)]
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=j["timeout"] + 120)
        except subprocess.TimeoutExpired: return j, None, "engine timeout"
        try: return j, json.load(open(out)), r.stdout
        except Exception as ex: return j, None, "engine rc=%s %s" % (r.returncode, r.stdout[-800:])
    res = []
    order = sorted(enumerate(jobs), key=lambda ij: -ij[1].get("cost", 1))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in as_completed([ex.submit(go, ij) for ij in order]):
            j, o, log = f.result(); res.append((j, o, log))
            if tier == "quick" and o is not None and o["errors"] and not listed(j): stop[0] = min(stop[0], time.time() + 30)   # a counterexample is there: finish what is running
            if a.v: print("%-28s %-18s" % (j["entry"], j["args"]), "FAILED " + log if o is None else "%.1fs paths=%d queries=%d solver=%.1fs errs=%d inc=%s" % (o["wall"], o["paths"], o["queries"], o["solver_s"], len(o["errors"]), o["incomplete"][:2]), flush=True)
            if a.v and log and o is not None: print(log[:1500])
    viol, known, unrepro, validated, mism, inc, samples = [], {}, [], 0, [], [], []
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, assert_queries=0, instrs=0, symbolic_branches=0); funcs = set(); reach = {}; maxq = 0; harn = 0
    rdir = VERIF + "/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"): os.unlink(rdir + "/" + f)
    todo = []
    for j, o, log in res:
        if o is None and log == "skipped": inc.append("%s%s: not run, a counterexample was found or the time was used up" % (j["entry"], j["args"])); continue
        if o is None: inc.append("%s%s: %s" % (j["entry"], j["args"], log)); harn += 1; continue
        for k in tot: tot[k] += o[k]
        maxq = max(maxq, o["max_query_s"]); funcs |= set(o["functions"])
        for k, v in o["reach"].items(): reach[k] = reach.get(k, 0) + v
        for x in o["incomplete"]: inc.append("%s%s: %s" % (j["entry"], j["args"], x))
        for e in o["errors"]: todo.append((j, e))
        for s in o["samples"][:6]: samples.append((j, s))
    # replay counterexamples
    def rep(ije):
        i, (j, e) = ije
        if tier == "quick" and time.time() - t0 > 660: return j, e, (False, "skipped", "")
        return j, e, reproduced(hs[j["h"]], j, e, "%s/cex%d.txt" % (work, i))
    for i, je in enumerate(todo[:200]):
        if je[1]["kind"] in ("memory", "unreachable", "overflow", "divzero"): asan_build(hs[je[0]["h"]]); break
    nh = 0; keep = []
    for je in todo:
        nh += je[1]["kind"] == "hang"
        if je[1]["kind"] != "hang" or nh <= 16: keep.append(je)
    todo = keep
    with ThreadPoolExecutor(NCPU) as ex:
        for j, e, (ok, rc, out) in ex.map(rep, list(enumerate(todo[:200]))):
            if not ok: unrepro.append("%s%s %s: %s @ %s (native rc=%s)" % (j["entry"], j["args"], e["kind"], e["msg"], e["where"], rc)); continue
            hit = None
            for f in findings:
                if f.get("entry") not in (None, j["entry"]): continue
                if f.get("msg") and f["msg"] not in e["msg"]: continue
                if f.get("where") and f["where"] not in e["where"] + " ".join(e.get("stack", [])): continue
                if f.get("note") is not None and f["note"] != e.get("note"): continue
                if f.get("args") is not None and f["args"] != j["args"]: continue
                hit = f; break
            if hit: known[hit["what"]] = known.get(hit["what"], 0) + 1; continue
            viol.append((j, e, rc, out))
    for i, (j, e, rc, out) in enumerate(viol[:5]):
        p = "%s/%s-%d.json" % (rdir, pid, i); vf = "%s/%s-%d.values" % (rdir, pid, i); write_values(vf, e["model"])
        json.dump(dict(property=pid, harness=j["h"], entry=j["entry"], args=j["args"], kind=e["kind"], msg=e["msg"], where=e["where"], stack=e["stack"], note=e["note"], inputs=e["model"], observed=e["obs"], native_rc=rc, native_output=out,
                       how="values file %s; rebuild with: python3 /verif/run.py %s; replay binary takes: <entry> <values> <args>" % (vf, pid)), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p)); print("  %s%s: %s [%s] at %s" % (j["entry"], j["args"], e["msg"], e["kind"], e["where"]))
        print("  inputs: " + " ".join("%s=%s" % (n, v) for n, v in e["model"])[:600])
    # validate path samples against the natively compiled code
    def val(ijs):
        i, (j, s) = ijs
        if s["outcome"] != "ok": return None
        rc, out = native(hs[j["h"]], j["entry"], j["args"], s["model"], "%s/s%d.txt" % (work, i), 60)
        obs = [tuple(l.split()[1:3]) for l in out.splitlines() if l.startswith("OBS ")]; want = [(n, v) for n, v in s["obs"]]
        good = rc == 0 and [(n.replace(" ", "_"), v) for n, v in want] == [(n, v) for n, v in obs]
        return good, "%s%s rc=%s want=%s got=%s %s" % (j["entry"], j["args"], rc, want[:6], obs[:6], out[-200:] if rc else "")
    if not viol:
        byjob = {}
        for js in samples: byjob.setdefault(id(js[0]), []).append(js)
        pick = []; k = 0
        while len(pick) < 60 and any(len(v) > k for v in byjob.values()):
            for v in byjob.values():
                if len(v) > k and len(pick) < 60: pick.append(v[k])
            k += 1
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(val, list(enumerate(pick))):
                if r is None: continue
                if r[0]: validated += 1
                else: mism.append(r[1])
    for w in known: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    missing = sorted(set(sum([j.get("reach", []) for j in jobs], [])) - set(reach))
    wall = time.time() - t0
    ex = [dict(job=j["entry"] + str(j["args"]), inputs=["%s=%s" % (n, v) for n, v in s["model"]][:40], observed=s["obs"][:20]) for j, s in samples[:6]]
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], wall_s=round(wall, 2), violations=len(viol), assumptions=P["assumptions"],
              coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=ex or ["none"], exhaustive=not inc,
                            explanation="states = complete symbolic execution paths of the real code, transitions = solver-decided forks between them; each path covers every input value satisfying its path condition",
                            bounds=P["bounds"], jobs=["%s%s" % (j["entry"], j["args"]) for j in jobs], functions_encoded=sorted(f for f in funcs if f.startswith(("src/", "include/")))[:400], functions_encoded_count=len(funcs),
                            queries_discharged=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_seconds=round(tot["solver_s"], 2), max_query_seconds=round(maxq, 3),
                            assertions_checked=tot["asserts"], assertion_queries=tot["assert_queries"], instructions=tot["instrs"], reach_witnesses=reach, unreached=missing,
                            incomplete=inc[:20], unreproduced=unrepro[:10], sample_mismatches=mism[:10], known_findings=known, build_seconds=round(tb, 1)))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for d in os.listdir(BUILD + "/cache"):
        if d == "asan.%d" % os.getpid(): shutil.rmtree(BUILD + "/cache/" + d, ignore_errors=True)
    print("%s tier=%s paths=%d forks=%d queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs asserts=%d validated=%d violations=%d wall=%.1fs (build %.1fs)" % (pid, tier, tot["paths"], tot["forks"], tot["queries"], tot["sat"], tot["unsat"], tot["unknown"], tot["solver_s"], tot["asserts"], validated, len(viol), wall, tb))
    for x in inc[:10]: print("INCOMPLETE", x[:300])
    for x in unrepro[:10]: print("UNREPRODUCED", x[:400])
    for x in mism[:5]: print("SAMPLE-MISMATCH", x[:600])
    if missing: print("UNREACHED", missing)
    try: vlib.prune_cache()
    except OSError: pass
    sys.exit(1 if viol else 0)


main()
