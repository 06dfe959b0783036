"""Mechanical extraction of functions from /repo into Verus units.

`@expanded` as a file stands for the crate after macro expansion by rustc (-Zunpretty=expanded).
`//@each GLOB /regex/` ... `//@endeach` repeats its text for every match in the sources ({1}, {n}).
`//@include f` and `//@for X,Y in a,b c,d` ... `//@endfor` ({X}, {Y}) are textual.

A unit (proofs/<unit>.rs) is Verus text with directives; a directive block is replaced by an item
taken verbatim from /repo's working tree, with contracts spliced in:

  //@fn <file> :: [<impl header substring> ::] <fn name>   extract a function
  //@item <file> :: <header substring>                     extract a struct / enum / const / static
  //@ret <name>             name the return value
  //@name <name>            emit the function under another name (its own text is unchanged)
  //@spec                   contract clauses (following lines)
  //@loop <n>               invariants of the n-th loop of the body (following lines)
  //@sub /regex/ => repl ## reason      a stated rewrite; it must match at least once
  //@opt /regex/ => repl ## reason      a stated rewrite that may be absent
  //@before /regex/         ghost code placed before the statement that contains the match
  //@after /regex/          ghost code placed after it
  //@head                   ghost code placed at the start of the body
  //@drop <name>            remove a nested function (it is extracted on its own, as `... :: fn :: nested`)
  //@attr                   attributes placed before the function
  //@post                   ghost code behind the whole body: `{ let r = { body }; ghost; r }`
  //@end

Byte string literals become array literals (b"ab" => &[97u8, 98u8]).
Dropped from every extracted item: comments, doc comments and outer attributes. Everything else that
changes is an explicit sub/opt rewrite; all of them are reported.
"""
import ast, os, re, subprocess, threading

REPO = os.environ.get("VZ_REPO", "/repo")


class LostAnchor(Exception):
    pass


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j
        elif c == '"' or (c == "b" and s[i + 1:i + 2] == '"'):
            j = i + (2 if c == "b" else 1)
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        elif c == "r" and re.match(r'r#*"', s[i:]) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            h = re.match(r'r(#*)"', s[i:]).group(1)
            j = s.find('"' + h, i + len(h) + 2)
            out.append(s[i:j + 1 + len(h)]); i = j + 1 + len(h)
        elif c == "'":
            m = re.match(r"'(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", s[i:])
            if m:
                out.append(m.group(0)); i += m.end()
            else:
                out.append(c); i += 1
        else:
            out.append(c); i += 1
    return "".join(out)


def mask(s):
    """The text with the contents of string and char literals blanked, for brace matching."""
    out, i, n = list(s), 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            for k in range(i + 1, min(j, n)): out[k] = " "
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", s[i:])
            if m:
                for k in range(i + 1, i + m.end() - 1): out[k] = " "
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def match_brace(m, i, o="{", c="}"):
    d = 0
    for j in range(i, len(m)):
        if m[j] == o: d += 1
        elif m[j] == c:
            d -= 1
            if d == 0: return j
    raise LostAnchor("unbalanced braces")


def body_open(m, i):
    """The opening brace of the item that starts at i (skipping parentheses and brackets)."""
    d = 0
    while i < len(m):
        ch = m[i]
        if ch in "([": d += 1
        elif ch in ")]": d -= 1
        elif ch == "{" and d == 0: return i
        elif ch == ";" and d == 0: return None
        i += 1
    raise LostAnchor("no body")


_cache = {}


_lock = threading.Lock()


def expand():
    """The crate with its macros expanded, as rustc prints it."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.environ.get("VZ_EXPAND_DIR", "/verif/.build/expand"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--quiet", "--lib", "--no-default-features", "--features",
                        "base64,client,tokio,tokio-codec", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--", "-Zunpretty=expanded"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0: raise LostAnchor("macro expansion failed: " + p.stderr[-300:])
    return p.stdout


def source(path):
    with _lock:
        return source_(path)


def source_(path):
    if path not in _cache:
        try:
            t = strip_comments(expand() if path == "@expanded" else open(os.path.join(REPO, path)).read())
        except OSError as e:
            raise LostAnchor(f"{path}: {e}")
        # Test modules are not part of what is extracted.
        _cache[path] = (t, mask(t))
    return _cache[path]


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


_impls = {}


def impls(path):
    """Every impl, trait and module of a file: (header, opening brace, closing brace)."""
    s, m = source(path)
    with _lock:
        if path not in _impls:
            close, st = {}, []
            for k in re.finditer(r"[{}]", m):
                if k.group() == "{": st.append(k.start())
                elif st: close[st.pop()] = k.start()
            r = []
            for k in re.finditer(r"\b(impl|trait|mod)\b", m):
                # Not `impl Trait` in a signature: an item begins a line.
                if not re.search(r"(?:^|[\n;{}\]])\s*(?:pub(?:\s*\([^)]*\))?\s+)?(?:unsafe\s+)?$", m[max(0, k.start() - 60):k.start()]): continue
                try:
                    o = body_open(m, k.start())
                except LostAnchor:
                    continue
                if o is None or o not in close: continue
                r.append((norm(s[k.start():o]), o, close[o]))
            _impls[path] = r
        return _impls[path]


def find_impl(path, header):
    # An exact header, a prefix followed by `*`, or a regular expression behind `~`.
    hits = [(o, c) for h, o, c in impls(path) if h == header or (header.endswith("*") and h.startswith(header[:-1]))
            or (header.startswith("~") and re.fullmatch(header[1:], h))]
    if not hits: raise LostAnchor(f"{path}: no `{header}`")
    return hits


def find_fn(path, impl, name):
    s, m = source(path)
    spans = find_impl(path, impl) if impl else [(0, len(s))]
    found = []
    for a, z in spans:
        for k in re.finditer(r"\bfn\s+%s\b" % re.escape(name), m[a:z]):
            i = a + k.start()
            if not impl:
                # Free functions only: at the top level or directly inside a module.
                d = m[:i].count("{") - m[:i].count("}")
                if d > 0 and not re.search(r"\bmod\b", m[:i]): continue
                if d > 1: continue
            else:
                d = m[a + 1:i].count("{") - m[a + 1:i].count("}")
                if d: continue
            found.append(i)
    if len(found) != 1: raise LostAnchor(f"{path}: {len(found)} functions `{name}`" + (f" in `{impl}`" if impl else ""))
    i = found[0]
    # Modifiers before `fn`.
    pre = re.search(r"((?:\bpub(?:\s*\([^)]*\))?\s+)?(?:const\s+|unsafe\s+|async\s+|extern\s+\"C\"\s+)*)$", s[max(0, i - 90):i]).group(1)
    o = body_open(m, i)
    if o is None: raise LostAnchor(f"{path}: `{name}` has no body")
    c = match_brace(m, o)
    return norm(pre), s[i:o].strip(), s[o:c + 1], s[:i].count("\n") + 1


def find_item(path, header):
    s, m = source(path)
    pos = [k.start() for k in re.finditer(re.escape(header).replace(r"\ ", r"\s+") + r"(?![\w])", m)]
    if len(pos) != 1: raise LostAnchor(f"{path}: {len(pos)} items `{header}`")
    i = pos[0]
    d, j = 0, i
    while j < len(m):
        ch = m[j]
        if ch in "([{": d += 1
        elif ch in ")]}":
            d -= 1
            if d == 0 and ch == "}": break
        elif ch == ";" and d == 0: break
        j += 1
    t = s[i:j + 1]
    return re.sub(r"#\[[^\]]*\]\s*", "", t)


def nested_fn(body, name):
    m = mask(body)
    k = re.search(r"(?:#\[[^\]]*\]\s*)*\bfn\s+%s\b" % re.escape(name), m)
    if not k: raise LostAnchor(f"no nested function `{name}`")
    o = body_open(m, k.end())
    c = match_brace(m, o)
    i = re.search(r"\bfn\s+%s\b" % re.escape(name), m).start()
    return k.start(), c + 1, body[i:o].strip(), body[o:c + 1]


LOOP = re.compile(r"(?:'\w+\s*:\s*)?\b(while|for|loop)\b(?!\s*<)")


def loops(body):
    m = mask(body)
    out = []
    for k in LOOP.finditer(m):
        i = k.end()
        d = 0
        while i < len(m):
            ch = m[i]
            if ch in "([": d += 1
            elif ch in ")]": d -= 1
            elif ch == "{" and d == 0: break
            i += 1
        out.append((k.start(), i))
    return out


def stmt_bounds(body, pos):
    """The statement of `body` that contains `pos`."""
    m = mask(body)
    i, d = pos, 0
    while i > 0:
        ch = m[i - 1]
        if ch in ")]}":
            if ch == "}" and d == 0: break
            d += 1
        elif ch in "([{":
            if d == 0 and ch == "{": break
            if d: d -= 1
        elif ch == ";" and d == 0: break
        i -= 1
    j, d = pos, 0
    while j < len(m):
        ch = m[j]
        if ch in "([{": d += 1
        elif ch in ")]}":
            if d == 0 and ch == "}": break
            d -= 1
        elif ch == ";" and d <= 0: j += 1; break
        j += 1
    return i, j


def parse_sub(line):
    m = re.match(r"/(.*)/ =>\s*(.*?)\s*(?:## (.*))?$", line)
    if not m: raise ValueError("bad rewrite: " + line)
    return m.group(1), m.group(2).replace("\\n", "\n"), m.group(3) or ""


def unroll(text, path):
    """Expands //@include and //@for X,Y in a,b c,d ... //@endfor (with {X} and {Y})."""
    text = re.sub(r"^[ \t]*//@include (\S+)$", lambda k: f"//@inc {k.group(1)}\n" + unroll(open(os.path.join(os.path.dirname(path), k.group(1))).read(), path) + f"\n//@endinc {k.group(1)}", text, flags=re.M)

    def rep(k):
        names = k.group(1).split(",")
        out = []
        for row in k.group(2).split():
            b = k.group(3)
            for n, v in zip(names, row.split(",")): b = b.replace("{" + n + "}", v)
            out.append(b)
        return "".join(out)
    return re.sub(r"^[ \t]*//@for (\S+) in (.*?)$\n(.*?)^[ \t]*//@endfor$\n?", rep, text, flags=re.M | re.S)


def each(text):
    """Expands //@each GLOB /regex/ ... //@endeach once per match in the sources: {1}, {2}.. are its groups, {n} a counter."""
    import glob

    def rep(k):
        out, n = [], 0
        for f in sorted(glob.glob(os.path.join(REPO, k.group(1)), recursive=True)):
            s, m = source(os.path.relpath(f, REPO))
            for g in re.finditer(k.group(2), m):
                b = k.group(3).replace("{n}", str(n)); n += 1
                for x in range(1, (g.re.groups or 0) + 1): b = b.replace("{%d}" % x, g.group(x) or "")
                out.append(b)
        if not out: raise LostAnchor(f"nothing in {k.group(1)} matches /{k.group(2)}/")
        return "".join(out)
    return re.sub(r"^[ \t]*//@each (\S+) /(.*)/$\n(.*?)^[ \t]*//@endeach$\n?", rep, text, flags=re.M | re.S)


STUB = r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?)fn\s+(\w+)"


def stubs(inc, impl):
    """The contracts an include file assumes in one impl block (or, for `-`, at the top level): name -> (unsafe, text from the name to the body)."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proofs", inc)
    s = unroll(open(path).read(), path)
    m = mask(s)
    r = {}
    if impl == "-": spans = [(0, len(s))]
    else: spans = [(m.index("{", k.start()), match_brace(m, m.index("{", k.start()))) for k in re.finditer(r"^" + re.escape(impl) + r"\s*\{", s, re.M)]
    for a, z in spans:
        for k in re.finditer(STUB, s[a:z]):
            if impl == "-" and m[:a + k.start()].count("{") - m[:a + k.start()].count("}") != inc.endswith(".rs"): continue
            e = a + k.end()
            b = re.compile(r"\{ (unimplemented!\(\)|[^{}]*) \}[ ]*$", re.M).search(s, e)
            r[k.group(2)] = ("unsafe" in k.group(1), s[a + k.start(2):b.start()].strip())
    return r


def links(path):
    """(include, impl, function, call, types with an invariant, impl header in this unit) of every //@link block of a unit."""
    t = unroll(open(path).read(), path)
    out = []
    for k in re.finditer(r"^//@link (.*)\n((?:.*\n)*?)//@end$", t, re.M):
        p = [x.strip() for x in k.group(1).split(" :: ")]
        opts = dict((x.split(" ", 1) + [""])[:2] for x in p[2:])
        for l in k.group(2).split("\n"):
            if not l.strip(): continue
            if " = " in l: n, call = [x.strip() for x in l.split(" = ", 1)]; out.append((p[0], p[1], n, call, opts))
            else: out += [(p[0], p[1], n, None, opts) for n in l.split()]
    return out


def split_top(s, sep=","):
    r, d, cur, ang = [], 0, "", 0
    for i, ch in enumerate(s):
        if ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        elif ch == "<": ang += 1
        elif ch == ">" and s[i - 1] not in "-=": ang -= 1
        if ch == sep and d == 0 and ang == 0: r.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): r.append(cur)
    return [x.strip() for x in r]


def link_text(inc, impl, name, call, opts):
    """A function with the contract the include file assumes of `name`, whose body calls the function proved here."""
    st = stubs(inc, impl)
    if name not in st: raise ValueError(f"//@link: no contract of {name} in {inc} :: {impl}")
    unsafe, t = st[name]
    inv = opts.get("inv", "").split()
    m = mask(t)
    k = re.search(r"\b(requires|ensures|no_unwind)\b", m)
    sig, spec = (t[:k.start()], t[k.start():]) if k else (t, "")
    ms = mask(spec)
    q = re.search(r"\bensures\b", ms); q2 = re.search(r"\brequires\b", ms); nu = re.search(r"\bno_unwind\b", ms)
    end = nu.start() if nu else len(spec)
    req = spec[q2.end():(q.start() if q else end)].strip().rstrip(",") if q2 else ""
    ens = spec[q.end():end].strip().rstrip(",") if q else ""
    # The parameter list.
    a = sig.index("(") if "<" not in sig[:sig.index("(")] else None
    if a is None:
        d = 0
        for i, ch in enumerate(sig):
            if ch == "<": d += 1
            elif ch == ">" and sig[i - 1] not in "-=": d -= 1
            elif ch == "(" and d == 0: a = i; break
    z = match_brace(sig, a, "(", ")")
    params = split_top(sig[a + 1:z])
    own = re.sub(r"^impl\s*", "", impl)
    if own.startswith("<"):
        d = 0
        for i, ch in enumerate(own):
            d += (ch == "<") - (ch == ">" and own[i - 1] not in "-=")
            if d == 0: break
        own = own[i + 1:].strip()
    own = re.match(r"\w+", re.sub(r".* for ", "", own)).group(0) if impl != "-" else ""
    base = lambda ty: (lambda b: own if b == "Self" else b)((re.match(r"(?:&\s*)?(?:'\w+\s+)?(?:mut\s+)?(?:\w+::)*(\w+)", ty.strip()) or re.match("()", "")).group(1))
    R, E, args, me = [], [], [], None
    for p in params:
        if re.match(r"(&\s*('\w+\s+)?)?(mut\s+)?self$", p):
            me = p
            n, ty, mutable = "self", own, bool(re.match(r"&.*mut", p))
        else:
            n, ty = [x.strip() for x in p.split(":", 1)]
            mutable = bool(re.match(r"&\s*('\w+\s+)?mut\b", ty))
            args.append(n)
            ty = base(ty)
        if ty in inv:
            R.append(f"old({n}).inv()" if mutable else f"{n}.inv()")
            if mutable and "lent" not in opts: E.append(f"final({n}).inv()")
    rt = re.search(r"->\s*\(\s*(\w+)\s*:\s*(.*)\)\s*(where.*)?$", sig[z + 1:].strip(), re.S)
    if rt:
        rn, ty = rt.group(1), rt.group(2)
        if base(ty) in inv: E.append(f"{rn}.inv()")
        g = re.match(r"(Result|Option)<(.*)>$", ty.strip())
        if g and base(split_top(g.group(2))[0]) in inv: E.append(f"{rn} matches {'Ok' if g.group(1) == 'Result' else 'Some'}(x_) ==> x_.inv()")
    gen = [re.match(r"(?:const\s+)?(\w+)", g).group(1) for g in split_top(sig[sig.index("<") + 1:a].rsplit(">", 1)[0]) if not g.startswith("'")] if "<" in sig[:a] else []
    tf = f"::<{', '.join(gen)}>" if gen else ""
    if call is None: call = (f"self.{name}" if me else f"Self::{name}" if own else name) + tf + "(" + ", ".join(args) + ")"
    if unsafe: call = "unsafe { " + call + " }"
    R = [req] * bool(req) + R
    E = [ens] * bool(ens) + E
    for l in opts.get("sub", "").split(";"):
        if l.strip():
            x, y = l.split("->")
            R = [r.replace(x.strip(), y.strip()) for r in R]; E = [r.replace(x.strip(), y.strip()) for r in E]; sig = sig.replace(x.strip(), y.strip())
    head = opts.get("head", "")
    body = f"    fn link_{sig}\n" + (f"        requires {', '.join(R)}\n" if R else "") + (f"        ensures {', '.join(E)}\n" if E else "") + f"    {{ {head} {call} }}\n"
    hd = opts.get("as", impl)
    return body if impl == "-" else f"{hd} {{\n{body}}}\n"


class Unit:
    def __init__(self, path):
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.text = ""
        self.lost = []          # anchors of annotations that no longer match
        self.unapplied = []     # rewrites that no longer match: harmless if the verifier accepts the text without them
        self.functions = []     # (emitted name, where it was taken from)
        self.rewrites = []      # stated rewrites that were applied
        self.first_body = {}    # emitted name -> offset marker for the vacuity probe
        self.meta = {}
        lines = each(unroll(open(path).read(), path)).split("\n")
        out, i = [], 0
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st.startswith("//@meta "):
                k, v = st[8:].split(" ", 1)
                self.meta.setdefault(k, []).append(v)
            elif st.startswith("//@link "):
                j = i + 1
                while lines[j].strip() != "//@end": j += 1
                i = j
            elif st.startswith("//@fn ") or st.startswith("//@item "):
                j, blk = i + 1, []
                while lines[j].strip() != "//@end":
                    blk.append(lines[j]); j += 1
                out.append(self.block(st, blk))
                i = j
            else:
                out.append(l)
            i += 1
        self.links = links(path)
        # Before the last `}` (that of verus!): the contracts assumed elsewhere, each proved from the contract proved here.
        t = "\n".join(out)
        if self.links:
            at = re.search(r"\}\s*(fn main\(\)[^\n]*)?\s*$", t).start()
            t = t[:at] + "// ---- Contracts other units assume, from those proved here ----\n" + "".join(link_text(*l).replace("fn link_", f"fn link{i}_", 1) for i, l in enumerate(self.links)) + t[at:]
        self.text = t

    def block(self, head, blk):
        kind, where = head[3:].split(" ", 1)
        parts = [p.strip() for p in where.split(" :: ")]
        opts = {"spec": [], "head": [], "attr": [], "post": [], "loops": {}, "subs": [], "before": [], "after": [], "drop": []}
        cur = None
        for l in blk:
            st = l.strip()
            if st.startswith("//@"):
                d, _, arg = st[3:].partition(" ")
                arg = arg.strip()
                if d == "ret": opts["ret"] = arg; cur = None
                elif d == "name": opts["name"] = arg; cur = None
                elif d in ("spec", "head", "attr", "post"): cur = opts[d]
                elif d == "drop": opts["drop"].append(arg); cur = None
                elif d == "loop": cur = opts["loops"].setdefault(int(arg), [])
                elif d in ("sub", "opt"): opts["subs"].append((d, *parse_sub(arg))); cur = None
                elif d in ("before", "after"):
                    cur = []
                    opts[d].append((re.match(r"/(.*)/$", arg).group(1), cur))
                else: raise ValueError("unknown directive " + st)
            elif cur is not None: cur.append(l)
        tag = " :: ".join(parts)
        if kind == "item":
            t = find_item(parts[0], parts[1])
            for d, rx, rep, why in opts["subs"]:
                t, n = re.subn(rx, rep, t)
                if n: self.rewrites.append((tag, rx, rep, why, n))
                elif d == "sub": self.unapplied.append(f"{tag}: /{rx}/")
            return "\n".join(opts["attr"]) + ("\n" if opts["attr"] else "") + t
        nested = None
        if len(parts) == 4: parts, nested = parts[:3], parts[3]
        impl, name = (parts[1], parts[2]) if len(parts) == 3 else (None, parts[1])
        pre, sig, body, line = find_fn(parts[0], impl, name)
        if nested:
            pre, name = "", nested
            sig, body = nested_fn(body, nested)[2:]
        for n in opts["drop"]:
            a, z, _, _ = nested_fn(body, n)
            body = body[:a] + body[z:]
            self.rewrites.append((tag, f"fn {n}", "", "nested function, extracted on its own", 1))
        sig = re.sub(r"#\[[^\]]*\]\s*", "", sig)
        body = re.sub(r"#!?\[(cfg|allow|inline|must_use|expect|doc|rustfmt)[^\]]*\]\s*", "", body) if "#[" in body else body
        marks = []
        # Annotations are placed by marks, so that rewrites do not move them.
        ls = loops(body)
        ins = []
        want = opts["loops"]
        if want or ls:
            if (max(want) + 1 if want else 0) > len(ls): self.lost.append(f"{tag}: {len(ls)} loops")
        for n, inv in want.items():
            if n < len(ls): ins.append((ls[n][1], "\n" + "\n".join(inv) + "\n"))
        for side in ("before", "after"):
            for rx, code in opts[side]:
                k = re.search(rx, body)
                if not k: self.lost.append(f"{tag}: /{rx}/"); continue
                a, z = stmt_bounds(body, k.start())
                ins.append((a if side == "before" else z, "\n" + "\n".join(code) + "\n"))
        if opts["head"] and not opts["post"]: ins.append((1, "\n" + "\n".join(opts["head"]) + "\n"))
        ins.sort(key=lambda x: -x[0])
        stash = []
        for pos, t in ins:
            stash.append(t)
            body = body[:pos] + f"\x01{len(stash) - 1}\x01" + body[pos:]
        full = (pre + " " if pre else "") + sig + " \x02" + body
        for d, rx, rep, why in opts["subs"]:
            full, n = re.subn(rx, rep, full)
            if n: self.rewrites.append((tag, rx, rep, why, n))
            elif d == "sub": self.unapplied.append(f"{tag}: /{rx}/")
        # Verus has no byte string literals: b"ab" is written &[97u8, 98u8].
        full, n = re.subn(r"""(?<![\w'])b"((?:[^"\\]|\\.)*)"(?!\s*(?:=>|\|))""", lambda k: "&[" + ", ".join(f"{c}u8" for c in ast.literal_eval(k.group(0))) + "]", full)
        if n: self.rewrites.append((tag, 'b"..."', "&[...]", "byte string literals as arrays", n))
        sig, body = full.split("\x02")
        body = re.sub("\x01(\\d+)\x01", lambda k: stash[int(k.group(1))], body)
        if "ret" in opts:
            k = re.search(r"->\s*(.*?)(\s+where\b.*)?\s*$", sig, re.S)
            # The last `->` outside parentheses is the return type.
            ms, d, at = mask(sig), 0, None
            for x in range(len(ms)):
                if ms[x] in "([": d += 1
                elif ms[x] in ")]": d -= 1
                elif ms.startswith("->", x) and d == 0: at = x
            if at is None: raise LostAnchor(f"{tag}: no return type")
            rest = sig[at + 2:]
            w = re.search(r"\bwhere\b", rest)
            ty, wh = (rest[:w.start()], rest[w.start():]) if w else (rest, "")
            sig = f"{sig[:at]}-> ({opts['ret']}: {ty.strip()}) {wh}"
        if "name" in opts: sig = re.sub(r"\bfn\s+\w+", "fn " + opts["name"], sig, count=1)
        self.functions.append((opts.get("name", name), f"{parts[0]}:{line} {tag}"))
        if opts["post"]:
            # Ghost code behind the whole body: `{ let r = { body }; proof; r }` (not reached by early returns).
            r = opts.get("ret")
            body = "{ " + "\n".join(opts["head"]) + "\n" + (f"let {r} = " if r else "") + body + (";" if r else "") + "\n" + "\n".join(opts["post"]) + "\n" + (r or "") + " }"
        spec = "\n".join(opts["spec"])
        attr = "\n".join(opts["attr"])
        return f"{attr}\n{sig}\n{spec}\n/*BODY:{opts.get('name', name)}*/ {body}"
