//! C01, C02, C08, C09, C24: messages, arguments, CTCP.
use crate::common::*;
use crate::{ck, ckeq};
use std::collections::BTreeMap;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Kind { Num(u16), Cmd(B) }
pub type Src = (B, Option<(Option<B>, B)>);

#[derive(Clone, Debug, Hash)]
pub struct M { pub tags: Vec<(B, B)>, pub src: Option<Src>, pub kind: Kind, pub words: Vec<B>, pub last: Option<B> }

/// What a message means, as plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V { pub tags: BTreeMap<B, B>, pub src: Option<Src>, pub kind: B, pub args: Vec<B>, pub long: bool }

pub fn mk_src(s: &Src) -> Source<'static> {
    Source {
        nick: Nick::from_bytes(s.0 .0.clone()).unwrap(),
        userhost: s.1.as_ref().map(|(u, h)| UserHost {
            user: u.as_ref().map(|u| User::from_bytes(u.0.clone()).unwrap()),
            host: Word::from_bytes(h.0.clone()).unwrap(),
        }),
    }
}
pub fn view_src(s: &Source) -> Src {
    (b(&s.nick), s.userhost.as_ref().map(|uh| (uh.user.as_ref().map(b), b(&uh.host))))
}
pub fn mk_tags(t: &[(B, B)]) -> Tags<'static> {
    let mut tags = Tags::new();
    let mut e = tags.edit();
    for (k, v) in t {
        e.insert_pair(Key::from_bytes(k.0.clone()).unwrap(), NoNul::from_bytes(v.0.clone()).unwrap());
    }
    drop(e);
    tags
}
pub fn mk_args(words: &[B], last: &Option<B>) -> Args<'static> {
    let mut a = Args::empty();
    let mut e = a.edit();
    for w in words {
        e.add_word(Arg::from_bytes(w.0.clone()).unwrap());
    }
    if let Some(l) = last {
        e.add(Line::from_bytes(l.0.clone()).unwrap());
    }
    a
}
pub fn view_args(a: &Args) -> (Vec<B>, bool) {
    let (w, l) = a.split_last();
    let mut v: Vec<B> = w.iter().map(b).collect();
    v.extend(l.map(b));
    (v, a.is_last_long())
}
/// All the tag values for `keys`, plus the length, so that nothing extra hides in the map.
pub fn view_tags(t: &Tags<'_>, keys: impl Iterator<Item = B>) -> Result<BTreeMap<B, B>, String> {
    // Serialization is the only public enumeration of a tag map.
    let mut m = BTreeMap::new();
    for k in keys {
        if let Ok(key) = Key::from_bytes(k.0.clone()) {
            if let Some(v) = t.get(key) {
                m.insert(k, b(v));
            }
        }
    }
    ck!(m.len() == t.len(), "tag map reports {} entries, {} of them reachable by the expected keys", t.len(), m.len());
    ck!(t.is_empty() == m.is_empty(), "is_empty wrong");
    Ok(m)
}
pub fn mk_client(m: &M) -> ClientMsg<'static> {
    let Kind::Cmd(c) = &m.kind else { unreachable!() };
    let mut r = ClientMsg::new_cmd(Cmd::from_bytes(c.0.clone()).unwrap());
    r.tags = mk_tags(&m.tags);
    r.args = mk_args(&m.words, &m.last);
    r
}
pub fn mk_server(m: &M) -> ServerMsg<'static> {
    let kind: ServerMsgKindRaw<'static> = match &m.kind {
        Kind::Num(n) => Numeric::from_int(*n).unwrap().into(),
        Kind::Cmd(c) => Cmd::from_bytes(c.0.clone()).unwrap().into(),
    };
    ServerMsg { tags: mk_tags(&m.tags), source: m.src.as_ref().map(|s| SharedSource::new(mk_src(s))), kind, args: mk_args(&m.words, &m.last) }
}
pub fn view_m(m: &M, server: bool) -> V {
    let mut args = m.words.clone();
    let mut long = false;
    if let Some(l) = &m.last {
        long = !valid(T::Arg, l);
        args.push(l.clone());
    }
    let kind = match &m.kind { Kind::Num(n) => b(format!("{n:03}")), Kind::Cmd(c) => c.clone() };
    V { tags: m.tags.iter().cloned().collect(), src: if server { m.src.clone() } else { None }, kind, args, long }
}
pub fn view_client(m: &ClientMsg, keys: impl Iterator<Item = B>) -> Result<V, String> {
    let (args, long) = view_args(&m.args);
    Ok(V { tags: view_tags(&m.tags, keys)?, src: None, kind: b(&m.cmd), args, long })
}
pub fn view_server(m: &ServerMsg, keys: impl Iterator<Item = B>) -> Result<V, String> {
    let (args, long) = view_args(&m.args);
    Ok(V { tags: view_tags(&m.tags, keys)?, src: m.source.as_ref().map(|s| view_src(s)), kind: b(m.kind.as_str()), args, long })
}

pub fn gen_src(r: &mut Rng) -> Src {
    let n = B(gen(r, T::Nick));
    let uh = if r.chance(3, 4) {
        let u = r.chance(3, 4).then(|| B(gen(r, T::User)));
        let h = loop { let h = gen(r, T::Word); if !h.is_empty() { break h } };
        Some((u, B(h)))
    } else { None };
    (n, uh)
}
pub fn gen_msg(r: &mut Rng, server: bool) -> M {
    let small = r.chance(1, 3);
    let nt = if r.chance(1, 2) { 0 } else { r.below(6) };
    let tags = (0..nt).map(|_| {
        let k = if small { gen_small(r, T::Key) } else { gen(r, T::Key) };
        (B(k), B(if r.chance(1, 4) { vec![] } else { gen(r, T::NoNul) }))
    }).collect();
    let src = (server && r.chance(2, 3)).then(|| gen_src(r));
    let kind = if server && r.chance(1, 2) { Kind::Num(r.below(1000) as u16) } else { Kind::Cmd(B(gen(r, T::Cmd))) };
    let nw = if r.chance(1, 12) { r.below(40) } else { r.below(5) };
    let words = (0..nw).map(|_| B(if small { gen_small(r, T::Arg) } else { gen(r, T::Arg) })).collect();
    let last = r.chance(2, 3).then(|| {
        let mut l = gen(r, T::Line);
        if r.chance(1, 4) { let p = r.below(l.len() + 1); l.insert(p, *r.pick(b" ::\t")); }
        if r.chance(1, 6) { l.insert(0, *r.pick(b" :")); }
        B(l)
    });
    M { tags, src, kind, words, last }
}

pub fn roundtrip(m: &M, server: bool) -> R {
    let want = view_m(m, server);
    let keys = || want.tags.keys().cloned().collect::<Vec<_>>().into_iter();
    let mut out = Vec::new();
    let mut sent = Vec::new();
    if server {
        let msg = mk_server(m);
        ckeq!(view_server(&msg, keys())?, want, "message as built");
        ServerCodec::write_to(&msg, &mut out).map_err(|e| e.to_string())?;
        let mut tmp = Vec::new();
        ServerCodec::send_to(&msg, &mut sent, &mut tmp).map_err(|e| e.to_string())?;
        ck!(tmp.is_empty(), "send_to left bytes in its buffer");
    } else {
        let msg = mk_client(m);
        ckeq!(view_client(&msg, keys())?, want, "message as built");
        ClientCodec::write_to(&msg, &mut out).map_err(|e| e.to_string())?;
        let mut tmp = Vec::new();
        ClientCodec::send_to(&msg, &mut sent, &mut tmp).map_err(|e| e.to_string())?;
        ck!(tmp.is_empty(), "send_to left bytes in its buffer");
    }
    let line = b(&out);
    ck!(!out.iter().any(|c| matches!(c, 0 | 10 | 13)), "written line {line:?} contains CR, LF or NUL");
    let mut crlf = out.clone();
    crlf.extend_from_slice(b"\r\n");
    ckeq!(b(&sent), b(&crlf), "bytes sent, versus written line plus CRLF");
    if server {
        let back = ServerMsg::parse(out.clone()).map_err(|e| format!("written line {line:?} does not parse: {e}"))?;
        ckeq!(view_server(&back, keys())?, want, "message parsed back from {line:?}");
        ck!(back == mk_server(m), "message parsed back from {line:?} is not == to the one written");
    } else {
        let back = ClientMsg::parse(out.clone()).map_err(|e| format!("written line {line:?} does not parse: {e}"))?;
        ckeq!(view_client(&back, keys())?, want, "message parsed back from {line:?}");
        ck!(back == mk_client(m), "message parsed back from {line:?} is not == to the one written");
    }
    Ok(!m.tags.is_empty() || m.src.is_some() || m.last.is_some())
}

pub fn c01(c: &mut Ctx) {
    let cmd = |w: Vec<B>, l: Option<B>| M { tags: vec![], src: None, kind: Kind::Cmd(b("X")), words: w, last: l };
    let mut ins = vec![];
    exhaustive(b" :a\xff\t\\;@", 4, |s| { ins.push(b(s)); true });
    for s in &ins {
        c.run("last argument, exhaustive", cmd(vec![], Some(s.clone())), |m| roundtrip(m, false));
        c.run("last argument after word, exhaustive", cmd(vec![b("w")], Some(s.clone())), |m| roundtrip(m, true));
        if valid(T::Arg, s) {
            c.run("word, exhaustive", cmd(vec![s.clone(), b("z")], None), |m| roundtrip(m, false));
        }
    }
    ins.clear();
    exhaustive(b"; \\\r\na:s", 5, |s| { ins.push(b(s)); true });
    for s in &ins {
        let m = M { tags: vec![(b("k"), s.clone())], src: None, kind: Kind::Cmd(b("X")), words: vec![], last: None };
        c.run("tag value, exhaustive", m, |m| roundtrip(m, false));
    }
    ins.clear();
    exhaustive(b"!@:a%,", 4, |s| { ins.push(b(s)); true });
    for s in &ins {
        for which in 0..3 {
            let src = match which {
                0 if valid(T::Nick, s) => (s.clone(), None),
                1 if valid(T::User, s) => (b("n"), Some((Some(s.clone()), b("h")))),
                2 if !s.is_empty() => (b("n"), Some((None, s.clone()))),
                _ => continue,
            };
            let m = M { tags: vec![], src: Some(src), kind: Kind::Num(1), words: vec![], last: None };
            c.run("source part, exhaustive", m, |m| roundtrip(m, true));
        }
        if !s.is_empty() {
            let m = M { tags: vec![], src: Some((b("n"), Some((Some(b("u")), s.clone())))), kind: Kind::Num(1), words: vec![], last: None };
            c.run("source host, exhaustive", m, |m| roundtrip(m, true));
        }
        if valid(T::Key, s) {
            let m = M { tags: vec![(s.clone(), b("")), (b("b"), b("v"))], src: None, kind: Kind::Cmd(b("X")), words: vec![], last: None };
            c.run("tag key, exhaustive", m, |m| roundtrip(m, true));
        }
    }
    for n in 0..1000 {
        let m = M { tags: vec![], src: None, kind: Kind::Num(n), words: vec![b("a")], last: None };
        c.run("every numeric", m, |m| roundtrip(m, true));
    }
    // Every byte at the start, middle and end of every part.
    for x in 0..=255u8 {
        for s in [vec![x], vec![x, b'a'], vec![b'a', x], vec![b'a', x, b'a']] {
            let base = M { tags: vec![], src: None, kind: Kind::Num(433), words: vec![b("q")], last: None };
            if valid(T::NoNul, &s) { let mut m = base.clone(); m.tags = vec![(b("k"), b(&s))]; c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::Key, &s) { let mut m = base.clone(); m.tags = vec![(b(&s), b("v"))]; c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::Line, &s) { let mut m = base.clone(); m.last = Some(b(&s)); c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::Arg, &s) { let mut m = base.clone(); m.words = vec![b(&s), b("y")]; c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::Nick, &s) { let mut m = base.clone(); m.src = Some((b(&s), None)); c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::User, &s) { let mut m = base.clone(); m.src = Some((b("n"), Some((Some(b(&s)), b("h"))))); c.run("byte sweep", m, |m| roundtrip(m, true)); }
            if valid(T::Word, &s) { let mut m = base.clone(); m.src = Some((b("n"), Some((Some(b("u")), b(&s))))); c.run("byte sweep", m, |m| roundtrip(m, true)); }
        }
    }
    for i in 0..c.iters(120_000) {
        let server = i % 2 == 0;
        let m = gen_msg(&mut c.rng, server);
        c.run(if server { "random server message" } else { "random client message" }, m, |m| roundtrip(m, server));
        if c.over() || c.failed() { break; }
    }
}

// ---- C02: an independent reference parser ---------------------------------------------------

pub fn ref_unescape(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\\' {
            if i + 1 < v.len() {
                o.push(match v[i + 1] { b':' => b';', b's' => b' ', b'r' => 13, b'n' => 10, x => x });
            }
            i += 2;
        } else {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}
fn ref_tags(w: &[u8]) -> BTreeMap<B, B> {
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < w.len() {
        // Stray separators before a key carry no information; a key cannot start with ':'.
        if w[i] == b'=' || w[i] == b';' { i += 1; continue; }
        if w[i] == b':' { while i < w.len() && w[i] != b';' { i += 1; } continue; }
        let ks = i;
        while i < w.len() && w[i] != b'=' && w[i] != b';' { i += 1; }
        let key = b(&w[ks..i]);
        let mut val = vec![];
        if i < w.len() && w[i] == b'=' {
            i += 1;
            let vs = i;
            while i < w.len() && w[i] != b';' { i += 1; }
            val = ref_unescape(&w[vs..i]);
        }
        if i < w.len() { i += 1; }
        m.insert(key, B(val));
    }
    m
}
pub fn ref_src(w: &[u8]) -> Option<Src> {
    let e = w.iter().position(|c| matches!(c, b'!' | b'@' | b',')).unwrap_or(w.len());
    let nick = &w[..e];
    if !valid(T::Nick, nick) { return None; }
    match w.get(e) {
        Some(b'!') => {
            let r = &w[e + 1..];
            let at = r.iter().position(|c| *c == b'@')?;
            let (u, h) = (&r[..at], &r[at + 1..]);
            if !valid(T::User, u) || h.is_empty() { return None; }
            Some((b(nick), Some((Some(b(u)), b(h)))))
        }
        Some(b'@') => {
            let h = &w[e + 1..];
            if h.is_empty() { return None; }
            Some((b(nick), Some((None, b(h)))))
        }
        _ => Some((b(nick), None)),
    }
}
fn ref_args(r: &[u8]) -> (Vec<B>, bool) {
    let mut v = vec![];
    let mut i = 0;
    loop {
        while i < r.len() && r[i] == b' ' { i += 1; }
        if i >= r.len() { return (v, false); }
        if r[i] == b':' {
            let l = b(&r[i + 1..]);
            let long = !valid(T::Arg, &l);
            v.push(l);
            return (v, long);
        }
        let s = i;
        while i < r.len() && r[i] != b' ' { i += 1; }
        v.push(b(&r[s..i]));
    }
}
pub fn ref_parse(l: &[u8], server: bool) -> Option<V> {
    if l.iter().any(|c| matches!(c, 0 | 10 | 13)) { return None; }
    let mut i = 0;
    let (mut tags, mut src) = (BTreeMap::new(), None);
    let (mut et, mut es) = (true, true);
    let kind = loop {
        while i < l.len() && l[i].is_ascii_whitespace() { i += 1; }
        let s = i;
        while i < l.len() && l[i] != b' ' { i += 1; }
        let w = &l[s..i];
        match w.first()? {
            b'@' if et => { et = false; tags = ref_tags(&w[1..]); }
            b':' if es => { et = false; es = false; if server { src = Some(ref_src(&w[1..])?); } }
            _ => break w,
        }
    };
    let num = server && kind.len() == 3 && kind.iter().all(u8::is_ascii_digit);
    if !num && !kind.iter().all(u8::is_ascii_alphabetic) { return None; }
    let (args, long) = ref_args(&l[i..]);
    Some(V { tags, src, kind: B(kind.to_ascii_uppercase()), args, long })
}
pub fn check_parse(l: &[u8]) -> R {
    let mut nt = false;
    for server in [false, true] {
        let want = ref_parse(l, server);
        let keys: Vec<B> = want.iter().flat_map(|w| w.tags.keys().cloned()).collect();
        let what = if server { "server" } else { "client" };
        // As a borrowed line, as an owned one, and as a slice that goes through a conversion.
        for how in 0..3 {
            let line = Line::from_bytes(Bytes::from_bytes(l));
            let got = match (server, how) {
                (_, 0) if line.is_err() => None,
                (true, 0) => ServerMsg::parse(line.unwrap()).ok().map(|m| (view_server(&m, keys.clone().into_iter()), parts_valid(&m.tags, m.source.as_deref(), &m.args, keys.iter()))),
                (false, 0) => ClientMsg::parse(line.unwrap()).ok().map(|m| (view_client(&m, keys.clone().into_iter()), parts_valid(&m.tags, None, &m.args, keys.iter()))),
                (true, 1) => ServerMsg::parse(l.to_vec()).ok().map(|m| (view_server(&m, keys.clone().into_iter()), Ok(()))),
                (false, 1) => ClientMsg::parse(l.to_vec()).ok().map(|m| (view_client(&m, keys.clone().into_iter()), Ok(()))),
                (true, _) => match std::str::from_utf8(l) {
                    Ok(s) => ServerMsg::parse(s).ok().map(|m| (view_server(&m, keys.clone().into_iter()), parts_valid(&m.tags, m.source.as_deref(), &m.args, keys.iter()))),
                    Err(_) => continue,
                },
                (false, _) => match std::str::from_utf8(l) {
                    Ok(s) => ClientMsg::parse(s).ok().map(|m| (view_client(&m, keys.clone().into_iter()), parts_valid(&m.tags, None, &m.args, keys.iter()))),
                    Err(_) => continue,
                },
            };
            match (&want, got) {
                (None, None) => (),
                (Some(w), Some((g, pv))) => { nt = true; ckeq!(g?, *w, "parsed as a {what} message"); pv?; }
                (None, Some((g, _))) => return Err(format!("parsed as a {what} message although malformed: {g:?}")),
                (Some(w), None) => return Err(format!("rejected as a {what} message, expected {w:?}")),
            }
        }
    }
    Ok(nt)
}
fn parts_valid<'k>(t: &Tags, s: Option<&Source>, a: &Args, keys: impl Iterator<Item = &'k B>) -> Result<(), String> {
    for k in keys {
        if let Some(v) = t.get(Key::from_bytes(k.0.clone()).unwrap()) {
            if !valid(T::NoNul, v) { return Err(format!("tag value {v:?} contains NUL")); }
            utf8_consistent(v)?;
        }
    }
    if let Some(s) = s {
        if !valid(T::Nick, &s.nick) { return Err(format!("invalid nick {:?}", s.nick)); }
        utf8_consistent(&s.nick)?;
        if let Some(uh) = &s.userhost {
            if let Some(u) = &uh.user { if !valid(T::User, u) { return Err(format!("invalid user {u:?}")); } utf8_consistent(u)?; }
            if !valid(T::Word, &uh.host) { return Err(format!("invalid host {:?}", uh.host)); }
            utf8_consistent(&uh.host)?;
        }
    }
    let (w, l) = a.split_last();
    for x in w { if !valid(T::Arg, x) { return Err(format!("invalid argument {x:?}")); } utf8_consistent(x)?; }
    if let Some(x) = l { if !valid(T::Line, x) { return Err(format!("invalid last argument {x:?}")); } utf8_consistent(x)?; }
    Ok(())
}
/// The cached encoding, if any, agrees with the bytes.
pub fn utf8_consistent(s: &Bytes) -> Result<(), String> {
    let ok = std::str::from_utf8(s).is_ok();
    if let Some(k) = s.is_utf8_lazy() {
        if k != ok { return Err(format!("{:?} is marked as UTF-8={k}", b(s.as_bytes()))); }
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    let alpha = b" :@=;!A1a\\,\t";
    let max = if c.thorough { 6 } else { 5 };
    let mut stop = false;
    exhaustive(alpha, max, |s| {
        c.run("line, exhaustive", b(s), |s| check_parse(s));
        stop = c.failed() || c.over();
        !stop
    });
    // Fixed shells with an exhaustive hole.
    for (pre, post) in [("@", " A"), ("@k=", " A x"), ("@a;", ";z=1 :n A"), (":", " A"), (":n!", " 001"), (":n!u@", " 001 a"), ("A", ""), ("A ", ""), ("A b ", ""), ("A :", ""), ("", " b :c d"), (":s 00", " *")] {
        let mut v = vec![];
        exhaustive(b" :@=;!%,a0\\s", 3, |s| { v.push([pre.as_bytes(), s, post.as_bytes()].concat()); true });
        for x in 0..=255u8 {
            for m in [vec![x], vec![x, x], vec![b'a', x], vec![x, b'A'], vec![x, b' ']] { v.push([pre.as_bytes(), &m, post.as_bytes()].concat()); }
        }
        for s in v { c.run("hole in a line", B(s), |s| check_parse(s)); }
    }
    for _ in 0..c.iters(60_000) {
        let server = c.rng.chance(1, 2);
        let m = gen_msg(&mut c.rng, server);
        let mut line = vec![];
        if server { let _ = ServerCodec::write_to(&mk_server(&m), &mut line); } else { let _ = ClientCodec::write_to(&mk_client(&m), &mut line); }
        for _ in 0..c.rng.below(4) {
            let p = c.rng.below(line.len() + 1);
            match c.rng.below(4) {
                0 => line.insert(p, *c.rng.pick(b" :@=;!%,\\\t\x0c")),
                1 => { if p < line.len() { line.remove(p); } }
                2 => { if p < line.len() { line[p] = c.rng.next() as u8; } }
                _ => { let q = c.rng.below(line.len() + 1); let (p, q) = (p.min(q), p.max(q)); let d = line[p..q].to_vec(); if d.len() < 50 { line.splice(p..p, d); } }
            }
        }
        c.run("mutated message", B(line), |s| check_parse(s));
        let l = c.rng.bytes(b" :@=;!%,a0\\", |_| true);
        c.run("random bytes", B(l), |s| check_parse(s));
        if c.over() || c.failed() { break; }
    }
    // Very long lines.
    for n in [511usize, 512, 513, 4096, 8703, 70000] {
        for pat in ["a", "@a;", ":a", "A ", "A :x ", "@a=\\", "A é"] {
            c.run("long line", B(pat.as_bytes().iter().copied().cycle().take(n).collect()), |s| check_parse(s));
        }
    }
}

// ---- C08 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash)]
pub enum AOp { Word(B), Before(B), Add(B), Lit(u8), EClear, Clear, Set(Vec<B>, Option<B>), New(Vec<B>, Option<B>), FromVec(Vec<B>), Parse(B), Own, Clone, With(Vec<B>, Option<B>), Serde }
const LITS: [&str; 5] = ["", "x", "a b", ":c", "word"];

fn model_add(v: &mut Vec<B>, long: &mut bool, s: &B) -> Option<B> {
    let out = if *long { v.pop() } else { None };
    *long = !valid(T::Arg, s);
    v.push(s.clone());
    out
}
fn model_set(w: &[B], l: &Option<B>) -> (Vec<B>, bool) {
    let mut v = w.to_vec();
    let mut long = false;
    if let Some(l) = l { model_add(&mut v, &mut long, l); }
    (v, long)
}
fn args_of(w: &[B]) -> Vec<Arg<'static>> { w.iter().map(|x| Arg::from_bytes(x.0.clone()).unwrap()).collect() }
fn line_of(l: &Option<B>) -> Option<Line<'static>> { l.as_ref().map(|l| Line::from_bytes(l.0.clone()).unwrap()) }

pub fn check_args(a: &Args<'_>, v: &[B], long: bool) -> Result<(), String> {
    ckeq!(view_args(a), (v.to_vec(), long), "argument list");
    ck!(a.len() == v.len(), "len() is {}, expected {}", a.len(), v.len());
    ck!(a.is_empty() == v.is_empty(), "is_empty() is {}", a.is_empty());
    let nw = v.len() - long as usize;
    ckeq!(a.words().iter().map(b).collect::<Vec<_>>(), v[..nw].to_vec(), "words()");
    ckeq!(a.all().map(|s| s.iter().map(b).collect::<Vec<_>>()), (!long).then(|| v.to_vec()), "all()");
    for (i, x) in v.iter().enumerate() {
        if i + 1 < v.len() { ck!(valid(T::Arg, x), "argument {i} is {x:?}, which is not a word"); }
    }
    for x in a.words() { ck!(valid(T::Arg, x), "word {x:?} is not a valid Arg"); }
    // The written form.
    let mut want = b"X".to_vec();
    for (i, x) in v.iter().enumerate() {
        want.push(b' ');
        if i + 1 == v.len() && long { want.push(b':'); }
        want.extend_from_slice(x);
    }
    let mut m = ClientMsg::new_cmd(Cmd::from_str("X"));
    m.args = a.clone().owning();
    let mut out = vec![];
    ClientCodec::write_to(&m, &mut out).unwrap();
    ckeq!(b(&out), b(&want), "written argument list");
    if let Ok(s) = std::str::from_utf8(&want) {
        ckeq!(a.to_string(), s[1..].trim_start_matches(' ').to_string(), "displayed argument list");
    }
    Ok(())
}
pub fn run_args(ops: &Vec<AOp>) -> R {
    let mut a: Args<'static> = Args::empty();
    let (mut v, mut long): (Vec<B>, bool) = (vec![], false);
    let mut nt = 0;
    for op in ops {
        match op {
            AOp::Word(w) => {
                let mut e = a.edit();
                e.add_word(Arg::from_bytes(w.0.clone()).unwrap());
                let p = v.len() - long as usize;
                v.insert(p, w.clone());
                ck!(e.args_left() == 15 - (v.len() - long as usize) as isize, "args_left is {}", e.args_left());
            }
            AOp::Before(w) => {
                a.edit().add_before_last(Arg::from_bytes(w.0.clone()).unwrap());
                let p = v.len().saturating_sub(1);
                v.insert(p, w.clone());
            }
            AOp::Add(s) => {
                let got = a.edit().add(Line::from_bytes(s.0.clone()).unwrap());
                let want = model_add(&mut v, &mut long, s);
                ckeq!(got.map(b), want, "evicted argument");
                nt += long as u32;
            }
            AOp::Lit(i) => {
                let s = LITS[*i as usize % LITS.len()];
                a.edit().add_literal(s);
                model_add(&mut v, &mut long, &b(s));
            }
            AOp::EClear => { let mut e = a.edit(); e.clear(); v.clear(); long = false; }
            AOp::Clear => { a.clear(); v.clear(); long = false; }
            AOp::Set(w, l) => { a.set(args_of(w), line_of(l)); (v, long) = model_set(w, l); }
            AOp::New(w, l) => { a = Args::new(args_of(w), line_of(l)); (v, long) = model_set(w, l); }
            AOp::With(w, l) => { a = ClientMsg::new_cmd(Cmd::from_str("X")).with_args(args_of(w), line_of(l)).args; (v, long) = model_set(w, l); }
            AOp::FromVec(w) => { a = args_of(w).into(); v = w.clone(); long = false; }
            AOp::Parse(s) => { a = Args::parse(Line::from_bytes(s.0.clone()).unwrap()); (v, long) = ref_args(s); }
            AOp::Own => a = a.owning(),
            AOp::Clone => { let x = a.clone(); ck!(x == a && h64(&x) == h64(&a), "clone differs"); a = x; }
            AOp::Serde => if let Ok(s) = serde_json::to_string(&a) {
                if let Ok(x) = serde_json::from_str::<Args>(&s) { check_args(&x, &v, long).map_err(|e| format!("after serialize/deserialize {s}: {e}"))?; }
                else if v.iter().all(|x| std::str::from_utf8(x).is_ok()) { return Err(format!("cannot deserialize {s}")); }
            },
        }
        // The guard's own views.
        {
            let mut e = a.edit();
            let nw = v.len() - long as usize;
            ckeq!(e.words().iter().map(b).collect::<Vec<_>>(), v[..nw].to_vec(), "guard words()");
            ckeq!(e.all().map(|s| s.iter().map(b).collect::<Vec<_>>()), (!long).then(|| v.to_vec()), "guard all()");
            let (w, l) = e.split_last();
            let mut g: Vec<B> = w.iter().map(b).collect();
            g.extend(l.map(b));
            ckeq!(g, v, "guard split_last()");
        }
        check_args(&a, &v, long).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    Ok(nt > 0 || v.len() > 1)
}
fn gen_line(r: &mut Rng) -> B {
    match r.below(6) {
        0 => b(""), 1 => b(":x"), 2 => b("a b"), 3 => B(gen_small(r, T::Arg)),
        _ => B(gen(r, T::Line)),
    }
}
fn gen_aop(r: &mut Rng) -> AOp {
    let w = |r: &mut Rng| B(if r.chance(1, 2) { gen_small(r, T::Arg) } else { gen(r, T::Arg) });
    let ws = |r: &mut Rng| (0..r.below(4)).map(|_| w(r)).collect::<Vec<_>>();
    let l = |r: &mut Rng| r.chance(2, 3).then(|| gen_line(r));
    match r.below(18) {
        0..=2 => AOp::Word(w(r)), 3..=4 => AOp::Before(w(r)), 5..=8 => AOp::Add(gen_line(r)), 9 => AOp::Lit(r.below(5) as u8),
        10 => if r.chance(1, 2) { AOp::EClear } else { AOp::Clear },
        11 => AOp::Set(ws(r), l(r)), 12 => AOp::New(ws(r), l(r)), 13 => AOp::With(ws(r), l(r)), 14 => AOp::FromVec(ws(r)),
        15 => AOp::Parse(gen_line(r)), 16 => AOp::Own, _ => if r.chance(1, 2) { AOp::Clone } else { AOp::Serde },
    }
}
pub fn c08(c: &mut Ctx) {
    exhaustive(b" :a\tb\xff", 5, |s| { c.run("parse, exhaustive", b(s), |s| run_args(&vec![AOp::Parse(s.clone())])); !c.failed() });
    for x in 0..=255u8 {
        for s in [vec![x], vec![x, b'a'], vec![b'a', x], vec![b'a', x, b'b'], vec![b'a', b' ', x], vec![b':', x]] {
            if valid(T::Line, &s) {
                let s = B(s);
                c.run("byte sweep", s, |s| run_args(&vec![AOp::Add(b("p")), AOp::Add(s.clone()), AOp::Parse(s.clone()), AOp::Set(vec![b("q")], Some(s.clone())), AOp::New(vec![b("q")], Some(s.clone()))]));
            }
        }
    }
    // All short programs over a small set of operations.
    let ops = [AOp::Word(b("w")), AOp::Before(b("f")), AOp::Add(b("x")), AOp::Add(b("")), AOp::Add(b("p q")), AOp::Add(b(":c")), AOp::EClear, AOp::Set(vec![b("s")], Some(b("l m"))), AOp::New(vec![b("s")], Some(b("t"))), AOp::Parse(b("a b :c d"))];
    let idx: Vec<u8> = (0..ops.len() as u8).collect();
    exhaustive(&idx, 4, |p| { let prog: Vec<AOp> = p.iter().map(|i| ops[*i as usize].clone()).collect(); c.run("program, exhaustive", prog, run_args); !c.failed() });
    for _ in 0..c.iters(30_000) {
        let n = c.rng.range(1, 14);
        let prog: Vec<AOp> = (0..n).map(|_| gen_aop(&mut c.rng)).collect();
        c.run("random program", prog, run_args);
        if c.over() || c.failed() { break; }
    }
    let many: Vec<AOp> = (0..600).map(|i| AOp::Word(b(format!("w{i}")))).chain([AOp::Add(b("l l")), AOp::Word(b("k")), AOp::Add(b("z"))]).collect();
    c.run("long list", many, run_args);
}

// ---- C09 --------------------------------------------------------------------------------------

pub fn check_len(m: &M) -> R {
    let mut x = m.clone();
    x.tags.clear();
    let pess = |a: &Args| (!a.is_empty() && !a.is_last_long()) as isize;
    if let Some(s) = &m.src {
        let s = mk_src(s);
        let mut o = vec![];
        s.write_to(&mut o).unwrap();
        ck!(s.len() == o.len(), "Source::len() is {}, but {} bytes are written: {:?}", s.len(), o.len(), b(&o));
        ck!(s.len_nonzero().get() == o.len(), "Source::len_nonzero() is {}, but {} bytes are written", s.len_nonzero(), o.len());
        if std::str::from_utf8(&o).is_ok() { ckeq!(b(s.to_string()), b(&o), "displayed source"); }
        if let Some(uh) = &s.userhost {
            let mut o = vec![];
            uh.write_to(&mut o).unwrap();
            ck!(uh.len() == o.len(), "UserHost::len() is {}, but {} bytes are written", uh.len(), o.len());
        }
    }
    let srv = mk_server(&x);
    let mut o = vec![];
    ServerCodec::write_to(&srv, &mut o).unwrap();
    let full = mk_server(m);
    let want = 512 - (o.len() + 2) as isize - pess(&srv.args);
    ck!(full.bytes_left() == want, "ServerMsg::bytes_left() is {}, expected {want} for {:?}", full.bytes_left(), b(&o));
    ck!(srv.kind.len() == srv.kind.as_str().len(), "kind length {} for {:?}", srv.kind.len(), srv.kind.as_str());
    let argbytes = o.len() - { let mut y = x.clone(); y.words.clear(); y.last = None; let mut o = vec![]; ServerCodec::write_to(&mk_server(&y), &mut o).unwrap(); o.len() };
    let wl = if srv.args.is_empty() { 0 } else { argbytes as isize - 1 + pess(&srv.args) };
    ck!(srv.args.len_bytes() as isize == wl, "Args::len_bytes() is {}, expected {wl}", srv.args.len_bytes());
    if let Kind::Cmd(_) = m.kind {
        let cl = mk_client(m);
        let mut y = x.clone();
        y.src = None;
        let mut o0 = vec![];
        ServerCodec::write_to(&mk_server(&y), &mut o0).unwrap();
        let w0 = 512 - (o0.len() + 2) as isize - pess(&cl.args);
        ck!(cl.bytes_left(None) == w0, "ClientMsg::bytes_left(None) is {}, expected {w0} for {:?}", cl.bytes_left(None), b(&o0));
        if let Some(s) = &m.src {
            let s = mk_src(s);
            ck!(cl.bytes_left(Some(&s)) == want, "ClientMsg::bytes_left(source) is {}, expected {want} for {:?}", cl.bytes_left(Some(&s)), b(&o));
        }
    }
    Ok(true)
}
pub fn c09(c: &mut Ctx) {
    let srcs = [None, Some((b("n"), None)), Some((b("nick"), Some((None, b("host"))))), Some((b("nick"), Some((Some(b("~u")), b("h"))))), Some((b("n"), Some((Some(b("user")), b("h@x")))))];
    let lasts = [None, Some(b("")), Some(b("x")), Some(b(":")), Some(b("a b")), Some(b(b"\xff\xfe"))];
    for s in &srcs { for l in &lasts { for nw in 0..4 { for k in [Kind::Num(1), Kind::Num(999), Kind::Cmd(b("A")), Kind::Cmd(b("PRIVMSG"))] { for t in 0..2 {
        let m = M { tags: (0..t).map(|_| (b("key"), b("v;v"))).collect(), src: s.clone(), kind: k.clone(), words: (0..nw).map(|i| b(&"words"[..i + 1])).collect(), last: l.clone() };
        c.run("shape, exhaustive", m, check_len);
    }}}}}
    for s in srcs.iter().flatten() { c.run("source length after a reset", s.clone(), crate::reg::reset_len); }
    for _ in 0..c.iters(60_000) {
        let mut m = gen_msg(&mut c.rng, true);
        if c.rng.chance(1, 8) { let n = c.rng.range(400, 1200); m.last = Some(B(vec![b'x'; n])); }
        c.run("random message", m, check_len);
        if c.over() || c.failed() { break; }
    }
    let m = M { tags: vec![], src: None, kind: Kind::Cmd(b("A")), words: (0..5000).map(|_| b("abc")).collect(), last: None };
    c.run("huge message", m, check_len);
}

// ---- C24 --------------------------------------------------------------------------------------

fn ctcp_rt(x: &(B, B)) -> R {
    let (cmd, body) = x;
    let m = MaybeCtcp { cmd: Word::from_bytes(cmd.0.clone()).unwrap(), body: Line::from_bytes(body.0.clone()).unwrap() };
    ck!(m.is_ctcp() && !m.is_empty(), "is_ctcp/is_empty wrong");
    let want = [b"\x01".as_slice(), cmd, b" ", body, b"\x01"].concat();
    ck!(m.len() == want.len(), "len() is {}, expected {}", m.len(), want.len());
    let line: Line = m.clone().into_line();
    ckeq!(b(&line), b(&want), "written CTCP body");
    utf8_consistent(&line)?;
    ckeq!(b(&Line::from(m.clone())), b(&want), "written CTCP body (From)");
    for sec in [false, true] {
        let l = if sec { line.clone().secret() } else { line.clone() };
        let p = MaybeCtcp::parse(l);
        ckeq!((b(&p.cmd), b(&p.body)), (cmd.clone(), body.clone()), "parsed back");
        utf8_consistent(&p.cmd)?;
        utf8_consistent(&p.body)?;
        ck!(p.is_ctcp(), "not recognised");
    }
    let p: MaybeCtcp<Line> = line.into();
    ck!(p == m, "parsed CTCP != written CTCP");
    // A missing closing delimiter is tolerated.
    let open = &want[..want.len() - 1];
    let p = MaybeCtcp::parse(Line::from_bytes(open.to_vec()).unwrap());
    ckeq!((b(&p.cmd), b(&p.body)), (cmd.clone(), body.clone()), "parsed back without closing delimiter");
    Ok(!body.is_empty())
}
fn ctcp_plain(s: &B) -> R {
    let p = MaybeCtcp::parse(Line::from_bytes(s.0.clone()).unwrap());
    ck!(!p.is_ctcp() && p.cmd.is_empty(), "reported as CTCP {:?}", b(&p.cmd));
    ckeq!(b(&p.body), *s, "body");
    ck!(p.len() == s.len() && p.is_empty() == s.is_empty(), "len/is_empty");
    ckeq!(b(&p.into_line()), *s, "written back");
    Ok(!s.is_empty())
}
fn ctcp_any(s: &B) -> R {
    // Commands come out upper-cased; the body starts after the first space and ends before the next \x01.
    let p = MaybeCtcp::parse(Line::from_bytes(s.0.clone()).unwrap());
    let t = &s[1..];
    let t = &t[..t.iter().position(|c| *c == 1).unwrap_or(t.len())];
    let e = t.iter().position(|c| *c == b' ').unwrap_or(t.len());
    let body = if e < t.len() { &t[e + 1..] } else { &[] };
    ckeq!((b(&p.cmd), b(&p.body)), (B(t[..e].to_ascii_uppercase()), b(body)), "parsed");
    utf8_consistent(&p.cmd)?;
    utf8_consistent(&p.body)?;
    Ok(true)
}
pub fn c24(c: &mut Ctx) {
    let up = |v: &[u8]| v.to_ascii_uppercase();
    let mut ws = vec![];
    exhaustive(b"A:\xc3\xa9-a", 3, |s| { let u = up(s); if valid(T::Word, &u) && !u.is_empty() { ws.push(B(u)); } true });
    let mut bs = vec![];
    exhaustive(b" a:\xff\t", 3, |s| { bs.push(b(s)); true });
    for w in &ws { for x in &bs { c.run("command and body, exhaustive", (w.clone(), x.clone()), ctcp_rt); } if c.failed() { break; } }
    exhaustive(b"\x01 aA\xff:", 5, |s| {
        if s.first() == Some(&1) { c.run("framed line, exhaustive", b(s), ctcp_any) } else { c.run("unframed line, exhaustive", b(s), ctcp_plain) }
        !c.failed()
    });
    for _ in 0..c.iters(40_000) {
        let w = loop { let w: Vec<u8> = up(&gen(&mut c.rng, T::Word)).into_iter().filter(|x| *x != 1).collect(); if !w.is_empty() { break w } };
        let body: Vec<u8> = gen(&mut c.rng, T::Line).into_iter().filter(|x| *x != 1).collect();
        c.run("random command and body", (B(w), B(body)), ctcp_rt);
        let l = gen(&mut c.rng, T::Line);
        if l.first() == Some(&1) { c.run("random framed line", B(l), ctcp_any) } else { c.run("random unframed line", B(l), ctcp_plain) }
        if c.over() || c.failed() { break; }
    }
}
