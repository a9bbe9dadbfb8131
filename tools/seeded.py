#!/usr/bin/env python3
"""Applies each planted bug of /verif/seeded to /repo, runs the check of its property and undoes it.
Usage: seeded.py [ID...]   prints one line per bug: caught / MISSED, seconds, VIOLATION line"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def git(*a): return subprocess.run(["git", "-C", R] + list(a), stdout=subprocess.PIPE, text=True)
if git("status", "--porcelain", "-uno").stdout.strip(): sys.exit("/repo is not clean")
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + i; p = json.load(open(d + "/meta.json"))["property"]
    if git("apply", d + "/patch.diff").returncode: print(i, "does not apply", flush=True); continue
    t = time.time()
    try: r = subprocess.run([sys.executable, "check.py", p], cwd=V, stdout=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: git("checkout", "--", ".")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-24s %s %-7s rc=%d %3.0f s %s" % (i, p, "caught" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, v[0] if v else ""), flush=True)
