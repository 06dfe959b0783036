//! C19: nickname generators, against a reference that lists what each one may yield.
use crate::common::*;
use crate::{ck, ckeq};
use std::collections::BTreeSet;
use vinezombie::client::nick::*;
use vinezombie::client::register::{default_bot_nicks, default_client_nicks, NT_FALLBACK};
use vinezombie::string::{Nick, User};

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum S { Letter(bool), B8, B10, B16(bool), N8, N10, N16(bool), Choice(Vec<B>), Char(char) }
#[derive(Clone, Debug, Hash)]
pub struct Cfg { prefix: B, suffixes: Vec<S>, seed: Option<Option<u32>> }
/// A generator, by how it is put together.
#[derive(Clone, Debug, Hash)]
pub enum G { One(B), Iter(Vec<B>), Unbounded(Vec<B>), IterOr(B, Vec<B>), Suffix(Cfg), Chain(Box<G>, Box<G>), ChainUsing(Box<G>, Vec<S>), Boxed(Box<G>) }

fn nick(x: &B) -> Nick<'static> { Nick::from_bytes(x.0.clone()).unwrap() }
fn ty(s: &S) -> SuffixType {
    match s {
        S::Letter(u) => SuffixType::Letter(*u),
        S::B8 => SuffixType::Base8,
        S::B10 => SuffixType::Base10,
        S::B16(u) => SuffixType::Base16(*u),
        S::N8 => SuffixType::NonZeroBase8,
        S::N10 => SuffixType::NonZeroBase10,
        S::N16(u) => SuffixType::NonZeroBase16(*u),
        S::Choice(v) => SuffixType::Choice(v.iter().map(nick).collect()),
        S::Char(c) => SuffixType::Char(*c),
    }
}
/// The values of a suffix, in order. A character that no nick may contain contributes nothing.
fn values(s: &S) -> Vec<B> {
    let ch = |r: &str| r.bytes().map(|c| b([c])).collect::<Vec<_>>();
    match s {
        S::Letter(true) => ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        S::Letter(false) => ch("abcdefghijklmnopqrstuvwxyz"),
        S::B8 => ch("01234567"),
        S::B10 => ch("0123456789"),
        S::B16(true) => ch("0123456789ABCDEF"),
        S::B16(false) => ch("0123456789abcdef"),
        S::N8 => ch("1234567"),
        S::N10 => ch("123456789"),
        S::N16(true) => ch("123456789ABCDEF"),
        S::N16(false) => ch("123456789abcdef"),
        S::Choice(v) => v.iter().take(256).cloned().collect(),
        S::Char(c) => {
            let t = b(c.to_string());
            vec![if t.iter().all(|c| byte_ok(T::Nick, *c)) { t } else { b(b"") }]
        }
    }
}
/// The nicks of a sequential generator: all values of the first suffix, then of the first two,
/// and so on, up to as many as there are values altogether (at most 255).
pub fn sequence(prefix: &B, sfx: &[S]) -> Vec<B> {
    let vals: Vec<Vec<B>> = sfx.iter().map(values).map(|mut v| { v.truncate(255); v }).filter(|v| !v.is_empty()).collect();
    let limit = vals.iter().map(|v| v.len()).sum::<usize>().clamp(1, 255);
    let mut out = vec![];
    if vals.is_empty() { return vec![prefix.clone()]; }
    'all: for k in 1..=vals.len() {
        let mut idx = vec![0usize; k];
        loop {
            let mut n = prefix.0.clone();
            for (i, v) in idx.iter().zip(&vals) { n.extend_from_slice(&v[*i]); }
            out.push(B(n));
            if out.len() == limit { break 'all; }
            let mut j = 0;
            loop {
                if j == k { continue 'all; }
                idx[j] += 1;
                if idx[j] < vals[j].len() { break; }
                idx[j] = 0;
                j += 1;
            }
        }
    }
    out
}
fn matches(prefix: &B, sfx: &[S], n: &[u8]) -> bool {
    let Some(rest) = n.strip_prefix(&prefix.0[..]) else { return false };
    let mut at: BTreeSet<usize> = [0].into();
    for s in sfx {
        let vals = values(s);
        let mut next = BTreeSet::new();
        for p in &at {
            if vals.is_empty() { next.insert(*p); }
            for v in &vals { if rest[*p..].starts_with(&v.0) { next.insert(p + v.len()); } }
        }
        at = next;
    }
    at.contains(&rest.len())
}
/// The part of a generator's output that is still to come.
#[derive(Clone, Debug)]
enum Item { Exact(B), Random(B, Vec<S>) }
#[derive(Clone, Debug)]
pub enum Part { One(B), List(Vec<B>, bool), Seq(B, Vec<B>), Rng(B, Vec<S>) }

pub fn build(g: &G) -> (Box<dyn NickGen>, Vec<Part>) {
    match g {
        G::One(n) => (Box::new(nick(n)), vec![Part::One(n.clone())]),
        G::Iter(v) => {
            let v = if v.is_empty() { vec![b(b"x")] } else { v.clone() };
            (Box::new(from_iter(v.iter().map(nick).collect::<Vec<_>>()).unwrap()), vec![Part::List(v, true)])
        }
        G::Unbounded(v) => {
            let v = if v.is_empty() { vec![b(b"x")] } else { v.clone() };
            let mut it = v.clone().into_iter();
            (Box::new(from_iter(std::iter::from_fn(move || it.next().map(|n| nick(&n)))).unwrap()), vec![Part::List(v, false)])
        }
        G::IterOr(d, v) => {
            let g = from_iter_or(nick(d), v.iter().map(nick).collect::<Vec<_>>());
            (Box::new(g), vec![Part::List(if v.is_empty() { vec![d.clone()] } else { v.clone() }, true)])
        }
        G::Suffix(c) => {
            let s = Suffix {
                strategy: match c.seed { Some(s) => SuffixStrategy::Rng(s), None => SuffixStrategy::Seq },
                suffixes: c.suffixes.iter().map(ty).collect::<Vec<_>>().into(),
            };
            let g = s.transform(nick(&c.prefix));
            let p = if c.suffixes.is_empty() { Part::Seq(c.prefix.clone(), vec![c.prefix.clone()]) }
                else if c.seed.is_some() { Part::Rng(c.prefix.clone(), c.suffixes.clone()) }
                else { Part::Seq(c.prefix.clone(), sequence(&c.prefix, &c.suffixes)) };
            (g, vec![p])
        }
        G::Boxed(g) => { let (g, p) = build(g); (Box::new(g), p) }
        G::Chain(x, y) => {
            let ((gx, mut px), (gy, py)) = (build(x), build(y));
            px.extend(py);
            (Box::new(gx).chain(gy), px)
        }
        G::ChainUsing(x, s) => {
            let (gx, mut px) = build(x);
            // A random first part would leave the stem unknown; the caller avoids that.
            let stem = match &px[0] { Part::One(n) => n.clone(), Part::List(v, _) | Part::Seq(_, v) => v[0].clone(), Part::Rng(..) => b(gx.peek()) };
            let t = Suffix { strategy: SuffixStrategy::Seq, suffixes: s.iter().map(ty).collect::<Vec<_>>().into() };
            let c = Box::new(gx).chain_using(&t);
            px.push(Part::Seq(stem.clone(), if s.is_empty() { vec![stem] } else { sequence(&stem, s) }));
            (c, px)
        }
    }
}
fn items(p: &Part) -> Option<Vec<Item>> {
    match p {
        Part::One(n) => Some(vec![Item::Exact(n.clone())]),
        Part::List(v, _) | Part::Seq(_, v) => Some(v.iter().cloned().map(Item::Exact).collect()),
        Part::Rng(..) => None,
    }
}
/// Drops the parts that an invalid nick rules out.
pub fn invalid(parts: &mut Vec<Part>, n: &B) {
    parts.retain(|p| match p {
        Part::One(x) => x != n,
        Part::List(_, finite) => *finite,
        Part::Seq(x, _) | Part::Rng(x, _) => !n.starts_with(&x.0),
    });
}
/// With random parts, where one part ends and the next begins can be ambiguous: follow every reading.
fn drive_random(g: &G) -> R {
    let (gen, parts) = build(g);
    let (mut gen, mut n) = (Some(gen), 0usize);
    let mut states: BTreeSet<(usize, usize)> = [(0, 0)].into();
    while let Some(cur) = gen.take() {
        let peeked = b(cur.peek());
        let (x, next) = cur.next_nick();
        let x = b(x);
        ckeq!(x, peeked, "nick after a peek");
        ck!(valid(T::Nick, &x), "{x:?} is not a valid nick");
        n += 1;
        ck!(n < 6000, "does not end");
        gen = next;
        let mut to = BTreeSet::new();
        for (p, k) in &states {
            // Continue in this part, or begin the next one if this one may be over.
            let mut starts = vec![(*p, *k)];
            let over = match &parts[*p] { Part::One(_) => *k == 1, Part::List(v, _) | Part::Seq(_, v) => *k == v.len(), Part::Rng(..) => *k > 0 };
            if over { starts.push((p + 1, 0)); }
            for (p, k) in starts {
                let ok = match parts.get(p) {
                    None => false,
                    Some(Part::One(e)) => k == 0 && *e == x,
                    Some(Part::List(v, _) | Part::Seq(_, v)) => v.get(k) == Some(&x),
                    Some(Part::Rng(stem, s)) => k < 255 && matches(stem, s, &x),
                };
                if ok { to.insert((p, k + 1)); }
            }
        }
        ck!(!to.is_empty(), "nick {n} is {x:?}, reached {states:?} in {parts:?}");
        states = to;
    }
    let end = states.iter().any(|(p, k)| p + 1 == parts.len() && match &parts[*p] { Part::One(_) => *k == 1, Part::List(v, _) | Part::Seq(_, v) => *k == v.len(), Part::Rng(..) => *k > 0 });
    ck!(end, "ended at {states:?} in {parts:?}");
    Ok(n > 1)
}
fn drive(g: &G, ops: &[(u8, B)]) -> R {
    if has_rng(g) { return drive_random(g); }
    let (gen, mut parts) = build(g);
    let mut gen = Some(gen);
    let (mut k, mut rng_run, mut nt) = (0usize, 0usize, false);
    let mut total = 0;
    loop {
        // How many nicks have come from the current part is `rng_run`.
        while let Some(Part::List(v, _) | Part::Seq(_, v)) = parts.first() {
            if v.is_empty() { parts.remove(0); } else { break }
        }
        let Some(cur) = gen.take() else {
            // A random part may end by itself after its first nick.
            while matches!(parts.first(), Some(Part::Rng(..))) && rng_run > 0 { parts.remove(0); rng_run = 0; }
            ck!(parts.is_empty(), "ended with {parts:?} to come");
            return Ok(nt);
        };
        if k < ops.len() && rng_run == 0 {
            let (op, n) = &ops[k];
            k += 1;
            if op % 3 == 0 {
                invalid(&mut parts, n);
                gen = cur.handle_invalid(&nick(n));
                ckeq!(gen.is_some(), !parts.is_empty(), "continues after {n:?} was invalid");
                nt = true;
                continue;
            }
        }
        let peeked = b(cur.peek());
        ckeq!(b(cur.peek()), peeked, "second peek");
        let (n, next) = cur.next_nick();
        let n = b(n);
        ckeq!(n, peeked, "nick after a peek");
        ck!(valid(T::Nick, &n), "{n:?} is not a valid nick");
        total += 1;
        nt |= total > 1;
        ck!(total < 6000, "does not end");
        gen = next;
        loop {
            match parts.first_mut() {
                None => return Err(format!("{n:?} after the end")),
                Some(Part::Rng(p, s)) => {
                    if matches(p, s, &n) && rng_run < 255 { rng_run += 1; break; }
                    ck!(rng_run > 0, "{n:?} is not {p:?} with one of each of {s:?}");
                    parts.remove(0);
                    rng_run = 0;
                }
                Some(p) => {
                    let Some(Item::Exact(e)) = items(p).unwrap().first().cloned() else { parts.remove(0); continue };
                    ckeq!(n, e, "nick {total}");
                    match p { Part::One(_) => { parts.remove(0); } Part::List(v, _) | Part::Seq(_, v) => { v.remove(0); } Part::Rng(..) => unreachable!() }
                    break;
                }
            }
        }
    }
}
/// The same seed gives the same nicks, and they end.
fn repeatable(c: &Cfg) -> R {
    let all = || {
        let (g, _) = build(&G::Suffix(c.clone()));
        let (mut g, mut v) = (Some(g), vec![]);
        while let Some(x) = g.take() { let (n, next) = x.next_nick(); v.push(b(n)); g = next; if v.len() > 300 { break } }
        v
    };
    let v = all();
    ck!(!v.is_empty() && v.len() <= 255, "{} nicks", v.len());
    ckeq!(all(), v, "second run");
    for n in &v { ck!(valid(T::Nick, n) && matches(&c.prefix, &c.suffixes, n), "{n:?} is not {:?} with one of each of {:?}", c.prefix, c.suffixes); }
    Ok(v.len() > 1)
}
fn gen_suffix(r: &mut Rng) -> S {
    match r.below(12) {
        0 => S::Letter(r.chance(1, 2)),
        1 => S::B8,
        2 => S::B10,
        3 => S::B16(r.chance(1, 2)),
        4 => S::N8,
        5 => S::N10,
        6 => S::N16(r.chance(1, 2)),
        7..=9 => {
            let n = *r.pick(&[0, 1, 1, 2, 2, 3, 7, 12, 100, 255, 256, 257, 300]);
            S::Choice((0..n).map(|i| if n > 12 { b(format!("{i}x")) } else { B(gen(r, T::Nick)) }).collect())
        }
        _ => S::Char(*r.pick(&['_', '`', '-', 'é', ' ', '!', '@', ',', ':', '\0', '\n', '漢', '0'])),
    }
}
fn gen_nick(r: &mut Rng) -> B { B(if r.chance(2, 3) { gen_small(r, T::Nick) } else { gen(r, T::Nick) }) }
fn gen_cfg(r: &mut Rng) -> Cfg {
    let n = r.below(5);
    Cfg { prefix: gen_nick(r), suffixes: (0..n).map(|_| gen_suffix(r)).collect(), seed: *r.pick(&[None, None, Some(Some(7)), Some(Some(0xffff_ffff)), Some(None)]) }
}
fn gen_g(r: &mut Rng, depth: usize) -> G {
    let list = |r: &mut Rng| { let n = r.below(5); (0..n).map(|_| gen_nick(r)).collect::<Vec<_>>() };
    match r.below(if depth == 0 { 8 } else { 13 }) {
        0 => G::One(gen_nick(r)),
        1..=2 => G::Iter(list(r)),
        3 => G::Unbounded(list(r)),
        4 => { let d = gen_nick(r); G::IterOr(d, list(r)) }
        5..=7 => G::Suffix(gen_cfg(r)),
        8..=10 => { let x = gen_g(r, depth - 1); G::Chain(Box::new(x), Box::new(gen_g(r, depth - 1))) }
        11 => { let x = gen_g(r, depth - 1); let n = r.below(3); G::ChainUsing(Box::new(x), (0..n).map(|_| gen_suffix(r)).collect()) }
        _ => G::Boxed(Box::new(gen_g(r, depth - 1))),
    }
}
fn has_rng(g: &G) -> bool {
    match g { G::Suffix(c) => c.seed.is_some(), G::Chain(x, y) => has_rng(x) || has_rng(y), G::ChainUsing(x, _) | G::Boxed(x) => has_rng(x), _ => false }
}

fn defaults(nicks: &Vec<B>, bot: bool) -> R {
    let v: Vec<Nick<'static>> = nicks.iter().map(nick).collect();
    let mut g = Some(if bot { default_bot_nicks(v) } else { default_client_nicks(v) });
    let mut got = vec![];
    while let Some(x) = g.take() { let (n, next) = x.next_nick(); got.push(b(n)); g = next; ck!(got.len() < 1000, "does not end"); }
    for n in &got { ck!(valid(T::Nick, n), "{n:?} is not a valid nick"); }
    ck!(got.len() > nicks.len(), "no fallback");
    ckeq!(got[..nicks.len()].to_vec(), *nicks, "configured nicks");
    let rest = &got[nicks.len()..];
    if bot {
        let s = [S::B10, S::B16(false), S::B16(false), S::B16(false), S::B16(false), S::B16(false)];
        for n in rest { ck!(matches(&b(b"VNZB"), &s, n), "fallback {n:?}"); }
    } else if let Some(first) = nicks.first() {
        ckeq!(rest.to_vec(), sequence(first, &[S::Char('`'), S::B10, S::B8]), "fallbacks");
        let (mut g, mut f) = (Some(NT_FALLBACK.transform(nick(first))), vec![]);
        while let Some(x) = g.take() { let (n, next) = x.next_nick(); f.push(b(n)); g = next; }
        ckeq!(f, rest.to_vec(), "NT_FALLBACK");
        ckeq!(rest.iter().collect::<BTreeSet<_>>().len(), rest.len(), "distinct fallbacks");
    } else {
        ckeq!(rest[0], b(b"Guest"), "first nick");
        for n in &rest[1..] { ck!(matches(&b(b"Guest"), &[S::B10, S::B8, S::B10, S::B8], n), "fallback {n:?}"); }
    }
    Ok(nicks.len() > 1)
}
fn users(id: u32) -> R {
    let u = b(User::from_id(id));
    ck!(valid(T::User, &u), "{u:?} is not a valid user");
    ckeq!(u, b(format!("i{id:08x}")), "from_id");
    let s = b(User::from_id_short(id as u16));
    ck!(valid(T::User, &s), "{s:?} is not a valid user");
    ckeq!(s, b(format!("i{:05}", id as u16)), "from_id_short");
    Ok(true)
}

pub fn c19(c: &mut Ctx) {
    // Every kind of suffix, alone and in pairs, in both strategies.
    let kinds = || {
        vec![S::Letter(true), S::Letter(false), S::B8, S::B10, S::B16(true), S::B16(false), S::N8, S::N10, S::N16(true), S::N16(false), S::Choice(vec![]), S::Choice(vec![b(b"p"), b(b"q")]),
            S::Choice((0..300).map(|i| b(format!("c{i:03}"))).collect()), S::Char('_'), S::Char(' '), S::Char('é')]
    };
    for x in kinds() {
        let one = Cfg { prefix: b(b"Foo"), suffixes: vec![x.clone()], seed: None };
        c.run("suffix", one, |c| drive(&G::Suffix(c.clone()), &[]));
        for y in kinds() {
            for seed in [None, Some(Some(1337))] {
                let cfg = Cfg { prefix: b(b"Foo"), suffixes: vec![x.clone(), y.clone(), S::B8], seed };
                c.run("suffixes", cfg, |c| drive(&G::Suffix(c.clone()), &[]));
            }
        }
    }
    for seed in 0..if c.thorough { 10000u32 } else { 800 } {
        let k = kinds();
        let cfg = Cfg { prefix: b(b"N"), suffixes: k, seed: Some(Some(seed.wrapping_mul(2654435761))) };
        c.run("seeds", cfg, repeatable);
        if c.failed() || c.over() { return; }
    }
    for i in 0..c.iters(3000) {
        let r = &mut c.rng;
        let n = r.below(5);
        let v: Vec<B> = (0..n).map(|_| gen_nick(r)).collect();
        c.run("defaults", (v, i % 2 == 0), |(v, k)| defaults(v, *k));
        let id = c.rng.next() as u32;
        c.run("users", if i < 40 { [0, 1, 9, 10, 15, 16, 255, 256, 65535, 65536, 99999, u32::MAX, 1 << 31][i as usize % 13] } else { id }, |i| users(*i));
        if c.failed() || c.over() { return; }
    }
    for _ in 0..c.iters(5000) {
        let r = &mut c.rng;
        let g = gen_g(r, 3);
        let k = if has_rng(&g) { 0 } else { r.below(5) };
        let ops: Vec<(u8, B)> = (0..k).map(|_| (r.below(9) as u8, gen_nick(r))).collect();
        c.run(if k > 0 { "invalid" } else { "generators" }, (g, ops), |(g, o)| drive(g, o));
        if c.failed() || c.over() { return; }
    }
}
