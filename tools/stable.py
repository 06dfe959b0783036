#!/usr/bin/env python3
"""stable.py UNIT [seeds]: verify a unit under several solver seeds; prints what fails and what is slowest (development aid)."""
import sys, os, re, json, subprocess, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif')
os.environ.setdefault("VZ_EXPAND_DIR", "/tmp/v/exp")
import extract, run
u = extract.Unit(f'/verif/proofs/{sys.argv[1]}.rs')
n = int(sys.argv[2]) if len(sys.argv) > 2 else 6
def go(seed):
    d = f'/tmp/v/st{seed}'; os.makedirs(d, exist_ok=True); f = f'{d}/{sys.argv[1]}.rs'; open(f, 'w').write(u.text)
    t = time.time()
    p = subprocess.run(["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "1", "--rlimit", "20", "--smt-option", f"smt.random_seed={seed}", f], capture_output=True, text=True)
    fails = []
    for blk in re.split(r"\n(?=error|warning|note:)", "\n" + p.stderr):
        m = re.match(r"\n?error(?:\[\w+\])?: (.*)", blk)
        if not m or m.group(1).startswith("aborting"): continue
        ln = re.search(r"--> [^\n]*?:(\d+):\d+", blk)
        fails.append((m.group(1)[:60], run.owner(u.text, int(ln.group(1)) if ln else 0)))
    fs = []
    try:
        j = json.loads(p.stdout)
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for x in m["function-breakdown"]: fs.append((x["time"], x["function"].split("::", 1)[1]))
    except Exception as e: fs = [(0, repr(e))]
    fs.sort(reverse=True)
    return seed, time.time() - t, fails, fs[:4]
with ThreadPoolExecutor(4) as ex:
    for s, t, f, top in ex.map(go, range(n)): print(s, f"{t:.0f}s", f, top)
