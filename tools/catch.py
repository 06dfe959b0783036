#!/usr/bin/env python3
"""catch.py [ids]: applies each planted bug to /repo, runs its property's quick check, undoes it; prints how it was caught."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = f"{V}/seeded/{i}"; p = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode: print(i, "does not apply"); continue
    t = time.time()
    try:
        r = subprocess.run(["python3", V + "/run.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    how = "MISSED" if r.returncode != 1 else ("proof only (no failing input)" if v[0].endswith("no-failing-input-found") else "failing input")
    ob = [l for l in r.stdout.split("\n") if "fails" in l or "undecided" in l][:3]
    print(f"{i}: rc={r.returncode} {how} {time.time()-t:.0f}s | {' / '.join(ob)[:300]}", flush=True)
