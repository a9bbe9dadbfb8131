#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--seconds S]
   check.py --replay FILE
Builds the simulator from /repo's working tree and searches seeds for a violation of PROPERTY.
exit 0: held on everything explored; exit 1: VIOLATION line and replay file; exit 2: no answer."""
import sys, os, json, time, subprocess, struct, hashlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
from properties import PROPS, COMPONENTS
WORKERS = min(8, os.cpu_count() or 2)

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def run_workers(exe, scen, prop, base, seconds, tag, findings):
    """seeded search on all cores; returns merged statistics and the list of violation candidates"""
    procs, sigfiles = [], []
    wd = os.path.join(HERE, "build", "run"); os.makedirs(wd, exist_ok=True)
    for w in range(WORKERS):
        sf = os.path.join(wd, "sig-%d-%s-%s-%d" % (os.getpid(), prop, tag, w)); of = sf + ".out"
        sigfiles.append(sf)
        out = open(of, "w")
        procs.append((subprocess.Popen([exe, "run", scen, prop, str(base), str(w), str(WORKERS), "100000000", str(seconds), sf], stdout=out, stderr=subprocess.DEVNULL), of))
        out.close()
    t0 = time.time(); viols = []
    def scan():
        v = []
        for p, of in procs:
            for l in open(of, errors="replace"):
                if l.startswith("VIOL ") and l.endswith("\n"):
                    f = l.rstrip("\n").split(" ", 4); v.append((int(f[1]), f[3], f[4] if len(f) > 4 else ""))
        return v
    first = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.2)
        if first is None and any(p.poll() == 1 for p, _ in procs): first = time.time()
        if first is not None and time.time() - first > 2: break          # a violation is enough
        if time.time() - t0 > seconds + 120: break
    for p, _ in procs:
        if p.poll() is None: p.kill()
        p.wait()
    viols = scan()
    st = {"seeds": 0, "runs": 0, "errors": 0, "nontrivial": 0, "steps": 0, "vtime_s": 0.0, "counters": {}, "samples": [], "other": {}, "error": "", "wall": time.time() - t0, "workers_reporting": 0}
    sigs = set()
    for (p, of), sf in zip(procs, sigfiles):
        for l in open(of, errors="replace"):
            if l.startswith("STATS "):
                d = json.loads(l[6:]); st["workers_reporting"] += 1
                for k in ("seeds", "runs", "errors", "nontrivial", "steps", "vtime_s"): st[k] += d[k]
                for k, x in d["counters"].items(): st["counters"][k] = st["counters"].get(k, 0) + x
                for k, x in d["other"].items(): st["other"][k] = st["other"].get(k, 0) + x
                st["samples"] += d["samples"]; st["error"] = st["error"] or d["error"]
        if os.path.exists(sf):
            b = open(sf, "rb").read()
            sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b)); os.remove(sf)
        os.remove(of)
    st["distinct"] = len(sigs); st["exit_codes"] = [p.returncode for p, _ in procs]
    return st, viols

def confirm(exe, scen, prop, seed, budget):
    """shrinks in fresh processes and replays; returns (path, class, detail) or None"""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d.replay" % (prop, scen, seed))
    for b in (budget, 0):
        r = subprocess.run([exe, "shrink", scen, prop, str(seed), path, str(b)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        line = [l for l in r.stdout.splitlines() if l.startswith("SHRUNK")]
        if r.returncode == 0 and line:
            for _ in range(2):
                q = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                if q.returncode != 1 or "hash same" not in q.stdout: break
            else:
                return path, line[0]
        print("note: seed %d: %s" % (seed, (r.stdout.strip().splitlines() or ["?"])[-1][:200]))
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay"); a = ap.parse_args()
    if a.replay:
        head = dict(l.split(" ", 1) for l in open(a.replay, errors="replace").read().split("\nPLAN")[0].splitlines()[1:] if " " in l and not l.startswith("tape"))
        variant = [s[0] for p in PROPS.values() for s in p["scenarios"] if s[1] == head["scenario"].strip()][0]
        exe = simbuild.build(variant)
        return subprocess.run([exe, "replay", a.replay, "v"], stderr=subprocess.DEVNULL).returncode
    prop = a.prop; P = PROPS[prop]; t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    total = a.seconds or (P.get("thorough_s", 1500) if tier == "thorough" else P.get("quick_s", 45))
    try:
        exes = {v: simbuild.build(v) for v in sorted(set(s[0] for s in P["scenarios"]))}
    except Exception as e:
        print("cannot build the simulator from /repo:", e); return 2
    build_s = time.time() - t0
    W = sum(s[2] for s in P["scenarios"])
    merged = {"seeds": 0, "runs": 0, "errors": 0, "nontrivial": 0, "steps": 0, "vtime_s": 0.0, "distinct": 0}; counters = {}; samples = []; per = {}; det = {}
    violation = None; unconfirmed = 0; search_s = 0.0; errtext = ""
    # replay of recorded, unrepaired findings: reported, never an alarm
    for k in known_findings():
        if k.get("property") == prop and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for idx, (variant, scen, weight) in enumerate(P["scenarios"]):
        exe = exes[variant]
        # the simulator itself must be deterministic: same seeds in two processes
        n = "6"; hs = [subprocess.run([exe, "hashes", scen, str(a.seed), "0", "1", n], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout for _ in range(2)]
        det[scen] = {"seeds_compared": hs[0].count("H "), "identical": hs[0] == hs[1] and hs[0].count("H ") > 0}
        if hs[0].count("H ") == 0: print("scenario %s is not available in this build" % scen); errtext = "scenario missing"; continue
        base = int.from_bytes(hashlib.sha256(("%d/%s" % (a.seed, scen)).encode()).digest()[:5], "big")
        st, viols = run_workers(exe, scen, prop, base, total * weight / W, "%d" % idx, None)
        search_s += st["wall"]
        for k in ("seeds", "runs", "errors", "nontrivial", "steps", "vtime_s", "distinct"): merged[k] += st[k]
        for k, x in st["counters"].items(): counters[k] = counters.get(k, 0) + x
        samples += [scen + ": " + s for s in st["samples"][:3]]; errtext = errtext or st["error"]
        per[scen] = {"variant": variant, "seeds": st["seeds"], "runs": st["runs"], "distinct_nontrivial": st["distinct"], "seeds_per_hour": int(st["seeds"] / max(st["wall"], .01) * 3600)}
        if st["errors"]: print("note: %s: %d of %d seeds without result (%s)" % (scen, st["errors"], st["seeds"], st["error"]))
        for seed, cls, detail in viols[:4]:
            c = confirm(exe, scen, prop, seed, 40 if tier == "quick" else 120)
            if c: violation = (c[0], scen, seed, cls, c[1]); break
            unconfirmed += 1
        if violation: break
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
          "assumptions": P.get("assumptions", []) + ["the generated workloads and fault sequences are a sample; nothing is claimed about seeds that were not run"],
          "coverage": {"evaluations": merged["seeds"], "distinct_nontrivial": merged["distinct"],
                       "rule": P["rule"] + " Distinct: different hash of (set of basic blocks reached, sequence of context switches with their code locations). Non-trivial: a fault was injected, a thread was preempted, or the run got past parsing into search with restarts, reductions or simplification.",
                       "samples": samples[:6] or ["none"], "simulated_runs": merged["runs"], "runs_per_hour": int(merged["runs"] / max(search_s, .01) * 3600), "seeds_per_hour": int(merged["seeds"] / max(search_s, .01) * 3600),
                       "simulated_seconds": round(merged["vtime_s"], 3), "simulated_steps": merged["steps"], "faults_injected": faults, "probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
                       "per_scenario": per, "determinism_check": det, "seeds_without_result": merged["errors"], "unconfirmed_candidates": unconfirmed, "build_s": round(build_s, 1), "components": COMPONENTS}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d seeds, %d simulated runs, %d distinct, %.0f simulated s, faults %s, %.1f s" % (prop, merged["seeds"], merged["runs"], merged["distinct"], merged["vtime_s"], json.dumps(faults), time.time() - t0))
    if violation:
        path, scen, seed, cls, line = violation
        print("violated: %s (scenario %s, seed %d): %s" % (cls, scen, seed, line[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    if unconfirmed and not violation:
        print("%d candidate(s) did not reproduce; no answer" % unconfirmed); return 2
    if merged["seeds"] - merged["errors"] <= 0: print("no seed was executed:", errtext); return 2
    return 0
sys.exit(main())
