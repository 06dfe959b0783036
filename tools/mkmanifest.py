#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The level is `proof` where a Verus unit (proofs/*.rs) decides the property."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C26": "The property is about every interleaving of two threads over std atomics, UnsafeCell, thread parking and Waker. Verus needs its own permission and atomic types in place of std's, so only a rewritten look-alike of oneshot.rs could be verified; Kani has no threads. No contract within reach of the installed deductive verifiers can express or decide it on the real code."}
notes = json.load(open(os.path.join(V, "tools/levels.json")))
units = {}
for f in sorted(os.listdir(os.path.join(V, "proofs"))):
    if f.endswith(".rs"):
        for k in re.findall(r"^//@meta property (.*)$", open(os.path.join(V, "proofs", f)).read(), re.M):
            for p in k.split(): units.setdefault(p, []).append(f)
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA: continue
    us = units.get(i, [])
    proof = bool(us) and notes.get(i, {}).get("level", "proof") == "proof"
    note = notes.get(i, {}).get("note", "")
    if us:
        tech = "contract-based deductive verification: Verus contracts on the functions extracted from /repo on every run (" + ", ".join(u[:-3] for u in us) + "); failing inputs searched on the real code"
        ln = ("Every obligation of the contracts is discharged for all inputs. " if proof else "Some of the functions are proved; the property as a whole is decided by the bounded stand-in. ") + note + " Trusted: Verus and Z3, the stated rewrites of the extraction, and the assumed contracts listed as trusted_base in the evidence; what is not under contract is covered only by the bounded harness."
    else:
        tech = "bounded stand-in for contracts: executable pre/postconditions checked on the real code over enumerated and random inputs"
        ln = "Bounded, not proved: exhaustive up to small sizes, then random from the seed, against an independent oracle. " + note
    checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                       technique=tech, level="proof" if proof else "exploration", level_note=re.sub(r"\s+", " ", ln).strip()))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="No hooks are needed in /repo: the harness uses the public API, and the proofs read the sources."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
