#!/usr/bin/env python3
"""Writes known_findings.json (fixed entries suppress nothing)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
BY = [("parseOptions left", "C01"), ("removed clauses were re-attached", "C02"), ("extra-bump read", "C03"), ("-rsar-enable aborted", "C03"), ("RSAR reported UNSAT", "C01"), ("implicit learning advice", "C03"),
      ("random simulation accessed", "C03"), ("ipasir_val gave", "C08"), ("assumptions over unused", "C07"), ("removing the termination", "C10"), ("re-introducing an eliminated", "C07"),
      ("portfolio threads shared", "C04"), ("output of running solver threads", "C05"), ("auxiliary solvers", "C12"), ("the proof checker rejected", "C14"), ("a proof that cannot be read", "C13"),
      ("the reader misread", "C15"), ("numbers beyond the range", "C16")]
exec(open(os.path.join(HERE, "tools", "known_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "known_more.py")) else None
out = []
for h, s in reversed(log):
    if not s.startswith("fix: "): continue
    p = [x for k, x in BY if k in s]
    if not p: print("unassigned", s); continue
    out.append({"property": p[0], "status": "fixed", "commit": h, "what": s[5:], "entry": "fixed: property=%s %s %s" % (p[0], h, s[5:])})
out += globals().get("OPEN", [])
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
