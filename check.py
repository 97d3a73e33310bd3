#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property by seeded deterministic simulation.

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>   (replay reproduces deterministically)
exit 3  error of the check itself
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
"""
import os, sys, json, time, glob, shutil, subprocess, tempfile, collections
import build as B
from catalog import CATALOG

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = int(os.environ.get("TQ_WORKERS", "0")) or min(8, os.cpu_count() or 8)
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=76:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_segv=1:detect_odr_violation=0", TMPDIR="/tmp", LC_ALL="C")

def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=timeout, errors="replace")

def batch(exe, prop, seed, first, count, cap, outdir):
    r = sh(exe + ["run", prop, str(seed), str(first), str(count), str(cap), str(WORKERS), outdir])
    tot = dict(runs=0, nontrivial=0, events=0, wall=0.0, counts=collections.Counter(), hashes=set(), states=set(), samples=[], violations=[])
    for f in sorted(glob.glob(outdir + "/worker*.json")):
        d = json.load(open(f))
        tot["runs"] += d["runs"]; tot["nontrivial"] += d["nontrivial"]; tot["events"] += d["events"]
        tot["wall"] = max(tot["wall"], d["wall"])
        for k, x in d["counts"].items(): tot["counts"][k] += x
        tot["hashes"].update(d["hashes"]); tot["states"].update(d["states"])
        if d["sample"]: tot["samples"].append(d["sample"])
        tot["violations"] += [v.split("\t", 3) for v in d["violations"]]
    if r.returncode != 0 or not glob.glob(outdir + "/worker*.json"):
        raise RuntimeError("simulator failed: rc=%d %s" % (r.returncode, r.stdout[-2000:]))
    return tot

def replay(exe, f):
    r = sh(exe + ["replay", f], timeout=600)
    cls = None; det = False; h = None; msg = ""
    for l in r.stdout.splitlines():
        if l.startswith("result "): cls = l[7:].strip()
        if l.startswith("events "): det = l.endswith(" deterministic"); h = l
        if l.startswith("message "): msg = l[8:]
    return cls, det, h, msg

def main():
    prop = sys.argv[1]
    cfg = CATALOG[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="tqcheck.", dir="/tmp")
    try:
        return run(prop, cfg, scratch, t0)
    except B.BuildError as e:
        print("ERROR: harness does not build against /repo:\n" + str(e)); return 3
    except Exception as e:
        import traceback; traceback.print_exc(); print("ERROR:", e); return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(prop, cfg, scratch, t0):
    tier = cfg[TIER]
    variants = tuple(v for v in ("rel", "asan") if tier.get(v, 0) > 0)
    exes = {v: [x] for v, x in B.build(scratch, variants, prop=prop).items()}
    if prop == "C20":   # the conversion script: its simulator runs on meshes exported by the simulated library
        ENV["TQ_CORPUS"] = os.path.join(scratch, "corpus"); ENV["TQ_REPO"] = B.REPO
        r = sh(exes["rel"] + ["emit", str(SEED), str(tier["corpus"]), str(WORKERS), ENV["TQ_CORPUS"]])
        if r.returncode or len(os.listdir(ENV["TQ_CORPUS"])) < tier["corpus"] // 10: raise RuntimeError("no meshes to convert: " + r.stdout[-1000:])
        exes = {"rel": B.FOAMSIM}
    t_build = time.time() - t0
    os.makedirs(VERIF + "/evidence", exist_ok=True); os.makedirs(VERIF + "/replays", exist_ok=True)
    # ---- recorded findings: replayed on every run, never a reason to fail
    known = []
    kf = json.load(open(VERIF + "/known_findings.json"))
    for k in kf["findings"]:
        if k["property"] != prop or k.get("status") == "fixed": continue
        if k.get("plan") and "rel" in exes:
            c, det, _, _ = replay(exes["rel"], VERIF + "/" + k["plan"])
            if c == k["class"]:
                known.append(k)
        else:
            known.append(k)
    # ---- seeded search
    res = {}
    viol = []
    for v in variants:
        out = os.path.join(scratch, "out_" + v); os.makedirs(out)
        first = 0 if v == "rel" else 10_000_000
        res[v] = batch(exes[v], prop, SEED, first, tier[v], tier["cap"], out)
        for x in res[v]["violations"]: viol.append((v, x))
        if viol: break
    # ---- gate, minimise, replay
    rc = 0; reported = None; unstable = []
    for v, (idx, cls, f, msg) in viol[:6]:
        if cls == "sim-error": unstable.append((idx, cls, msg)); continue
        c1, det, h1, m1 = replay(exes[v], f)
        if c1 != cls or not det: unstable.append((idx, cls, "replay gave %s det=%s" % (c1, det))); continue
        dst = "%s/replays/%s_seed%d_run%s.plan" % (VERIF, prop, SEED, idx)
        mf = os.path.join(scratch, "min.plan")
        r = sh(exes[v] + ["min", f, mf, str(40 if TIER == "quick" else 120)], timeout=900)
        good = False
        if r.returncode == 0 and os.path.exists(mf):
            c2, det2, _, m2 = replay(exes[v], mf)
            if c2 == cls and det2: shutil.copy(mf, dst); good = True; m1 = m2 or m1
        if not good: shutil.copy(f, dst)
        reported = (dst, cls, m1, v); rc = 1; break
    if viol and rc == 0:
        print("ERROR: violation did not reproduce:", unstable); rc = 3
    write_evidence(prop, cfg, tier, res, t0, t_build, known, reported)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    tot = sum(r["runs"] for r in res.values())
    print("%s: %d simulated runs (%s), %d distinct non-trivial, %.1f s" % (prop, tot, ", ".join("%s %d" % (v, r["runs"]) for v, r in res.items()), sum(r["nontrivial"] for r in res.values()), time.time() - t0))
    if rc == 1:
        print("  class %s (%s build): %s" % (reported[1], reported[3], reported[2][:800]))
        print("VIOLATION property=%s replay=%s" % (prop, reported[0]))
    return rc

def write_evidence(prop, cfg, tier, res, t0, t_build, known, reported):
    counts = collections.Counter(); states = set(); hashes = set(); ev = 0; runs = 0; nt = 0; wall = 0.0; samples = []
    for v, r in res.items():
        counts.update(r["counts"]); states |= r["states"]; hashes |= {v + h for h in r["hashes"]}; ev += r["events"]; runs += r["runs"]; nt += r["nontrivial"]; wall += r["wall"]; samples += r["samples"][:2]
    isfault = lambda k: k.startswith(("io_", "callback_", "alloc_", "log_", "fault_", "switch", "kill", "heap_", "chunk"))
    e = {"property": prop, "tier": TIER, "seed": SEED, "level": cfg["level"], "wall_s": round(time.time() - t0, 2), "violations": 1 if reported else 0,
         "coverage": {"evaluations": runs, "distinct_nontrivial": nt, "rule": cfg["rule"], "samples": samples[:3],
                      "runs_per_build": {v: r["runs"] for v, r in res.items()},
                      "runs_per_hour": int(runs / wall * 3600) if wall else 0, "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
                      "simulated_time": "%d simulated events (the system has no clock; the event sequence number is the simulated time)" % ev,
                      "faults_injected": {k: c for k, c in sorted(counts.items()) if isfault(k)},
                      "operations_and_probes": {k: c for k, c in sorted(counts.items()) if not isfault(k)},
                      "distinct_event_histories": len(hashes), "distinct_states": len(states), "state_measure": cfg["state"],
                      "components_real": cfg["real"], "components_stubbed": cfg["stub"],
                      "build_s": round(t_build, 1), "known_findings_reproduced": [k["id"] for k in known]},
         "assumptions": cfg.get("assumptions", [])}
    if reported: e["coverage"]["violation"] = {"replay": reported[0], "class": reported[1], "message": reported[2][:500], "build": reported[3]}
    json.dump(e, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
