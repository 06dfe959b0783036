#!/usr/bin/env python3
"""Plants bugs: mkseed.py <file.py> [ids...]. The file defines BUGS, a list of dicts:
id, property, needs, breaks, edits=[(file, old, new)], demo=<body of main()>, pre=<items>.
Each is confirmed in a scratch copy: it compiles, the tests pass, the demonstration fails with it and
passes without it. Confirmed ones are written to /verif/seeded/<id>/."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed/wt"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
DEMO_SH = '''#!/bin/bash
# Builds and runs demo.rs against the crate in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
vinezombie = { path = "$repo", default-features = false, features = [FEATS] }
EXTRA
[profile.dev]
debug = 0
T
cd "$d"
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet
timeout 60 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(W):
    os.makedirs(os.path.dirname(W), exist_ok=True); sh(f"cp -a /repo {W}")
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD")
env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
for b in ns["BUGS"]:
    if ids and b["id"] not in ids: continue
    sh(f"git -C {W} checkout -q -f {head}")
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], f"edit matches {s.count(old)} times in {f}"); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh(f"git -C {W} diff").stdout
    # Lines removed must be lines of the original repository.
    base = sh(f"git -C {W} rev-list --max-parents=0 HEAD").stdout.strip()
    mine = False
    for f, old, new in b["edits"]:
        orig = sh(f"git -C {W} show {base}:{f}").stdout
        rem = [l[1:] for l in sh(f"git -C {W} diff -U0 -- {f}").stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
        if rem and not any(l in orig.split("\n") for l in rem): mine = True
    if mine: print(b["id"], "WARNING: touches only lines of fix commits")
    d = os.path.join("/tmp/seed/out", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    feats = b.get("features", ["base64", "client"])
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("FEATS", ", ".join('"%s"' % x for x in feats)).replace("EXTRA", b.get("deps", "")))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write("#![allow(unused)]\n" + b.get("pre", "") + "\nfn main() {\n" + b["demo"] + "\n}\n")
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = sh(f"cd {W} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", env=env)
    open("/tmp/seed/last_test.log", "w").write(t.stdout)
    if t.returncode != 0:
        print(b["id"], "tests or build fail:", re.findall(r"test (\S+) \.\.\. FAILED|^(error.*)$", t.stdout, re.M)[:5]); continue
    r1 = sh(f"cd {W} && bash {d}/demo.sh", env={**os.environ, "RUSTUP_TOOLCHAIN": "stable"})
    r0 = sh(f"cd /repo && bash {d}/demo.sh", env={**os.environ, "RUSTUP_TOOLCHAIN": "stable"})
    if r0.returncode != 0: print(b["id"], "demo fails on the unchanged tree:", r0.stdout[-800:]); continue
    if r1.returncode == 0: print(b["id"], "demo passes with the bug"); continue
    dst = os.path.join(V, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(b["id"], "KEPT:", r1.stdout.strip().split("\n")[-1][:120])
