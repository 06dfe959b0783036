#!/usr/bin/env python3
"""Decides one property of vinezombie on /repo's current working tree.

  run.py <id> [--tier quick|thorough]      exit 0: held; exit 1 and a VIOLATION line: broken
  run.py --setup                           builds the replay harness once

1. Extracts the functions under contract from /repo (tools/extract.py) into the Verus units of this
   property (proofs/<id>_*.rs and any unit that names the property in `//@meta property`), and has Verus
   discharge every obligation. A probe with `assert(false)` at the head of every extracted function must
   fail everywhere, so that no contract is vacuous.
2. Builds the replay harness against /repo and runs the property's oracle on the real code. It confirms
   the trusted contracts, covers what is not under contract, and finds the failing input for a
   violation.

Decision:
  a failing input on the real code            -> VIOLATION, exit 1
  an obligation fails, no failing input found -> VIOLATION ... no-failing-input-found, exit 1
  a unit cannot be decided (an anchor in the changed source is lost, the source is outside the
  verifier's dialect, the solver gave up)     -> the bounded stand-in (the oracle, at the deep tier)
                                                 decides, and the evidence says so
"""
import argparse, bisect, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import extract  # noqa: E402

BUILD = os.path.join(V, ".build")
EVID = os.path.join(V, "evidence")
ENV = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), CARGO_NET_OFFLINE="true",
           RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))
ENV["PATH"] = ENV.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:/usr/local/cargo/bin"
VERUS = ["verus", "--triggers-mode", "silent", "--output-json", "--time", "--num-threads", "4", "--multiple-errors", "4"]
RLIMIT = "60"


def build_harness():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(V, "harness/Cargo.toml")],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def run_harness(prop, tier, seed, budget, out):
    try: os.remove(out)
    except OSError: pass
    env = dict(ENV, VZH_BUDGET=str(budget), RUST_BACKTRACE="0")
    cmd = [os.path.join(BUILD, "harness/debug/vzh"), prop, tier, str(seed), out]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 150)
        rc, txt = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = 124, (e.stdout or b"").decode("utf-8", "replace")
    try: rep = json.load(open(out))
    except Exception: rep = None
    return rc, txt, rep, " ".join(cmd)


def units_for(prop):
    d = os.path.join(V, "proofs")
    r = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith(".rs"): continue
        head = open(os.path.join(d, f)).read()
        props = [w for k in re.findall(r"^//@meta property (.*)$", head, re.M) for w in k.split()]
        if prop in props: r.append(os.path.join(d, f))
    return r


def verus(text, name, tag="", extra=(), rlimit=None):
    # A directory per process: the name of the file is the name of the crate, which the solver's queries contain.
    d = os.path.join(BUILD, "units", f"{os.getpid()}{tag}")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{name}.rs")
    open(f, "w").write(text)
    cmd = VERUS + ["--rlimit", rlimit or RLIMIT, *extra, f]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=ENV, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        out, err = "", "timeout"
    wall = time.time() - t
    r = dict(wall=wall, err=err, verified=0, errors=None, smt_ms=0)
    try:
        j = json.loads(out)
        vr = j["verification-results"]
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        if vr.get("encountered-vir-error") or "verified" not in vr: r["errors"] = None
        ts = j.get("times-ms", {})
        s = ts.get("smt", {})
        r["smt_ms"] = s.get("total", s.get("smt-run", 0)) if isinstance(s, dict) else 0
    except Exception:
        pass
    # Failed obligations: (message, line in the unit).
    fails = []
    for blk in re.split(r"\n(?=error|warning|note:)", "\n" + err):
        m = re.match(r"\n?error(?:\[\w+\])?: (.*)", blk)
        if not m or m.group(1).startswith("aborting"): continue
        ln = re.search(r"--> [^\n]*?:(\d+):\d+", blk)
        fails.append((m.group(1), int(ln.group(1)) if ln else 0, blk.strip()))
    r["fails"] = fails
    try:
        os.remove(f)
        os.rmdir(d)
    except OSError: pass
    return r


def owner(text, line):
    """The function of the unit that a line belongs to."""
    ls = text.split("\n")
    for k in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+)?(?:const\s+|unsafe\s+)*(?:proof\s+|spec\s+|exec\s+)?(?:axiom\s+)?fn\s+(\w+)", ls[k])
        if m: return m.group(1)
    return "?"


def all_links():
    """(include or unit, impl, function) -> the unit that proves the contract assumed there (//@link)."""
    r = {}
    d = os.path.join(V, "proofs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".rs"):
            p = os.path.join(d, f)
            for inc, impl, n, _, _ in extract.links(p): r[(inc, impl, n)] = f[:-3]
            # Implementations of a trait whose contract the unit verifies: no link function is needed.
            for k in re.finditer(r"^//@shown (\S+) :: (.*) :: (.*)$", extract.unroll(open(p).read(), p), re.M):
                for n in k.group(3).split(): r[(k.group(1), k.group(2), n)] = f[:-3]
    return r


def trusted(text, unit):
    """What the unit assumes; of that, the contracts of functions that another unit proves."""
    links = all_links()
    t, linked = [], []
    std = re.search(r"^//@inc std\.inc\n.*?^//@endinc std\.inc", text, re.S | re.M)
    rest = text[:std.start()] + text[std.end():] if std else text
    for k in re.finditer(r"assume_specification[^\[]*\[(.*?)\]\s*\(", text):
        f = re.sub(r"\s+", " ", k.group(1)).strip()
        if std and std.start() < k.start() < std.end() and not re.search(r"\b%s\s*\(" % re.escape(f.split("::")[-1]), rest): continue
        t.append("assumed contract on the dependency " + f)
    inc, impl, n = [unit + ".rs"], "-", 0
    where = {}
    for l in text.split("\n"):
        if l.startswith("//@inc "): inc.append(l[7:].strip())
        elif l.startswith("//@endinc "): inc.pop()
        elif re.match(r"impl\b.*\{", l): impl = l[:l.index("{")].strip()
        elif l.startswith("}"): impl = "-"
        elif re.match(r"(unsafe )?(trait|pub trait|pub struct|pub enum|pub fn|pub const fn|pub unsafe fn|fn|pub open|pub proof|pub uninterp|proof fn)", l): impl = "-"
        where[n] = (inc[-1], impl)
        n += len(l) + 1
    starts = sorted(where)
    for k in re.finditer(r"external_body\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+|unsafe\s+)*(fn|struct|proof fn)\s+(\w+)", text):
        w = where[starts[bisect.bisect_right(starts, k.start()) - 1]]
        own = re.sub(r"^impl\s*(<.*?>)?\s+", "", w[1]) if w[1] != "-" else ""
        full = (own + "::" if own else "") + k.group(2)
        by = links.get((w[0], w[1], k.group(2)))
        if k.group(1) == "fn" and by: linked.append(f"{full} (proved in {by})")
        else: t.append(f"trusted {'contract of' if k.group(1) == 'fn' else 'opaque type' if k.group(1) == 'struct' else 'lemma'} {full}")
    for k in re.finditer(r"axiom\s+fn\s+(\w+)", text): t.append("axiom " + k.group(1))
    for k in re.finditer(r"\b(assume|admit)\s*\(", text): t.append(k.group(1) + " in the unit")
    return list(dict.fromkeys(t)), list(dict.fromkeys(linked))


def check_unit(path, probe=True):
    name = os.path.splitext(os.path.basename(path))[0]
    r = dict(unit=name, state="undecided", reason="", obligations=0, discharged=0, functions=[], rewrites=[], trusted=[], linked=[], smt_ms=0, wall=0.0, failed=[], meta={})
    try:
        u = extract.Unit(path)
    except extract.LostAnchor as e:
        r["reason"] = f"lost anchor: {e}"
        return r
    except Exception as e:
        r["reason"] = f"extraction: {e!r}"
        return r
    r["functions"] = [f"{n} <- {w}" for n, w in u.functions]
    r["rewrites"] = [f"{t}: /{a}/ => {b} (x{n}): {w}" for t, a, b, w, n in u.rewrites]
    r["trusted"], r["linked"] = trusted(u.text, name)
    r["meta"] = u.meta
    if u.lost:
        r["reason"] = "lost anchor: " + "; ".join(u.lost)
        return r
    r["unapplied"] = u.unapplied
    v = verus(u.text, name)
    if v["errors"]:
        # A failure the solver does not repeat is one of the solver: each function in a solver of its own, another seed.
        w = verus(u.text, name, "_again", ("-V", "spinoff-all", "--smt-option", "smt.random_seed=7"))
        if w["errors"] is not None:
            own = lambda x: {owner(u.text, ln) for _, ln, _ in x["fails"]}
            both = own(v) & own(w)
            r["retried"] = sorted(own(v) | own(w))
            w["wall"] += v["wall"]; w["smt_ms"] += v["smt_ms"]
            w["fails"] = [f for f in w["fails"] + v["fails"] if owner(u.text, f[1]) in both]
            total = w["verified"] + w["errors"]
            if not both: w["errors"], w["verified"] = 0, total
            v = w
    r["wall"], r["smt_ms"] = v["wall"], v["smt_ms"]
    if v["errors"] is None:
        r["reason"] = "outside the verifier's dialect: " + (v["fails"][0][0] if v["fails"] else v["err"][-300:]) + ("; rewrites that do not apply: " + "; ".join(u.unapplied) if u.unapplied else "")
        return r
    soft = [f for f in v["fails"] if re.search(r"rlimit|Resource limit|timed? ?out|could not|not supported", f[0])]
    r["obligations"] = v["verified"] + v["errors"]
    r["discharged"] = v["verified"]
    if v["errors"]:
        r["failed"] = [dict(obligation=f"{name}::{owner(u.text, ln)}", message=m, detail=b[:1500]) for m, ln, b in v["fails"]]
        if soft or not v["fails"]:
            r["reason"] = "the solver gave up: " + (soft[0][0] if soft else "no reason given")
        else:
            r["state"], r["reason"] = "failed", v["fails"][0][0]
        return r
    if not v["verified"]:
        r["reason"] = "no obligations"
        return r
    if probe:
        t = re.sub(r"/\*BODY:\w+\*/ \{", lambda k: k.group(0) + " proof { assert(false); } ", u.text)
        w = verus(t, name, "_probe", rlimit="5")
        bad = {ln for m, ln, _ in w["fails"]}
        names = [(i + 1, k) for i, l in enumerate(t.split("\n")) for k in re.findall(r"/\*BODY:(\w+)\*/", l)]
        gaveup = {owner(t, ln) for m, ln, _ in w["fails"] if re.search(r"rlimit|Resource limit", m)}
        miss = [f"{n} (line {ln})" for ln, n in names if ln not in bad and n not in gaveup]
        r["probe"] = dict(functions=len(names), reached=len(names) - len(miss))
        if miss:
            r["reason"] = "vacuous contract (assert(false) verified) in " + ", ".join(miss)
            return r
    r["state"] = "proved"
    return r


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--setup", action="store_true")
    a.add_argument("--unit-only", action="store_true")
    a = a.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if a.setup:
        rc, out = build_harness()
        print(out[-3000:])
        print("harness built" if rc == 0 else "harness build failed")
        sys.exit(rc)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}.get(prop, {})
    os.environ["VZ_EXPAND_DIR"] = os.path.join(BUILD, "expand")
    t0 = time.time()
    units = units_for(prop)
    with ThreadPoolExecutor(4) as ex:
        hb = None if a.unit_only else ex.submit(build_harness)
        us = list(ex.map(check_unit, units))
        brc, bout = hb.result() if hb else (0, "")
    if a.unit_only:
        for u in us:
            print(u["unit"], u["state"], u["reason"], u["obligations"], u["discharged"], u.get("probe"), f'{u["wall"]:.1f}s')
            for f in u["failed"]: print("   ", f["obligation"], f["message"])
        sys.exit(0)
    failed = [u for u in us if u["state"] == "failed"]
    undecided = [u for u in us if u["state"] == "undecided"]
    replays = os.path.join(EVID, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(replays, f"{prop}_harness.json")
    viol, lines, rep, txt, cmd = [], [], None, "", ""
    bound = None
    if brc != 0:
        print("the harness does not build against /repo:\n" + bout[-3000:], file=sys.stderr)
    else:
        rc, txt, rep, cmd = run_harness(prop, tier, seed, 400 if tier == "thorough" else 60, out)
        bound = tier
        if rc == 0 and tier == "quick" and (failed or undecided):
            # The proof is silent or fails: search as deep as the time allows.
            rc, txt, rep2, cmd = run_harness(prop, "thorough", seed, 240, out)
            bound = "thorough"
            if rep2: rep = rep2
        if rc != 0:
            path = os.path.join(replays, f"{prop}.json")
            f = (rep or {}).get("failures") or []
            json.dump(dict(property=prop, how="run the command below: the harness drives the real code with this input",
                           command=cmd, seed=seed, failures=f[:20], output=txt[-4000:],
                           failed_obligations=[x for u in failed for x in u["failed"]]), open(path, "w"), indent=1)
            if f or rc == 1 or rc < 0 or rc in (101, 124, 134, 139):
                viol.append(path)
                lines.append(f"VIOLATION property={prop} replay={path}")
            else:
                print(txt[-2000:], file=sys.stderr)
                brc = 3
    if failed and not viol:
        path = os.path.join(replays, f"{prop}.json")
        json.dump(dict(property=prop, how="a proof obligation that holds on the original tree fails on this one; no failing input was found",
                       failed_obligations=[x for u in failed for x in u["failed"]]), open(path, "w"), indent=1)
        viol.append(path)
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    proved = bool(us) and all(u["state"] == "proved" for u in us)
    level = man.get("level", "exploration")
    if level == "proof" and not proved: level = "exploration"
    tb, rw, fn, lk = [], [], [], []
    for u in us:
        for k, l in (("trusted", tb), ("linked", lk), ("rewrites", rw), ("functions", fn)):
            for x in u[k]:
                if x not in l: l.append(x)
    cov = dict(
        evaluations=(rep or {}).get("evaluations", 0), distinct_nontrivial=(rep or {}).get("distinct_nontrivial", 0),
        rule=(rep or {}).get("rule") or "cases enumerated exhaustively up to small sizes and drawn at random from VERIF_SEED, each judged by an independent oracle on the real code; non-trivial: not empty and not seen before (by content)",
        samples=(rep or {}).get("samples", [])[:10], labels=(rep or {}).get("labels", {}), harness_tier=bound,
        obligations=sum(u["obligations"] for u in us), discharged=sum(u["discharged"] for u in us),
        checker_cmd=" ".join(VERUS + ["--rlimit", RLIMIT, "<unit extracted from /repo>"]) if us else "none",
        trusted_base=tb, contracts_used_and_proved_elsewhere=lk, functions_under_contract=fn, rewrites=rw,
        back_end="Verus 0.2026.09 / Z3", solver_ms=sum(u["smt_ms"] for u in us),
        units=[{k: u.get(k) for k in ("unit", "state", "reason", "obligations", "discharged", "smt_ms", "probe")} | {"wall_s": round(u["wall"], 2)} for u in us])
    ass = ["the harness (bounded, replay and stand-in) covers what is not under contract; it is not counted as proved"]
    for u in us:
        ass += [f"{u['unit']}: {x}" for x in u["meta"].get("assume", [])]
        if u["state"] == "undecided": ass.append(f"{u['unit']}: UNDECIDED on this tree ({u['reason']}); decided by the bounded stand-in at tier {bound}")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if brc == 0 or viol: json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith(f"finding: property={prop} "): print("KNOWN-FINDING: " + l[9:].strip())
    for u in us: print(f"{u['unit']}: {u['state']}, {u['discharged']}/{u['obligations']} obligations discharged" + (f" ({u['reason']})" if u["reason"] else ""))
    if rep: print(f"harness ({bound}): {rep.get('evaluations')} evaluations, {rep.get('distinct_nontrivial')} distinct")
    for l in lines: print(l)
    sys.exit(1 if viol else (0 if brc == 0 else 2))


if __name__ == "__main__":
    main()
