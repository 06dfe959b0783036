//! C15: modes.
use crate::common::*;
use crate::{ck, ckeq};
use std::collections::BTreeSet;
use std::num::NonZeroU8;
use vinezombie::names::{ISupport, NameMap};
use vinezombie::state::*;
use vinezombie::string::{Bytes, Key, Word};

fn rank(c: u8) -> (u8, bool) { (c.to_ascii_lowercase(), c.is_ascii_uppercase()) }
fn letters() -> impl Iterator<Item = u8> { (b'a'..=b'z').chain(b'A'..=b'Z') }
fn md(c: u8) -> Mode { Mode::new(c).unwrap() }
fn set_of(s: &[u8]) -> ModeSet { s.iter().map(|c| md(*c)).collect() }
type S = BTreeSet<(u8, bool)>;
fn model(s: &[u8]) -> S { s.iter().map(|c| rank(*c)).collect() }
fn ch(r: (u8, bool)) -> u8 { if r.1 { r.0.to_ascii_uppercase() } else { r.0 } }

fn same(what: &str, s: &ModeSet, m: &S) -> Result<(), String> {
    let want: Vec<u8> = m.iter().map(|r| ch(*r)).collect();
    let got: Vec<u8> = s.into_iter().map(u8::from).collect();
    ckeq!(b(&got), b(&want), "{what}: members");
    let mut back: Vec<u8> = s.into_iter().rev().map(u8::from).collect();
    back.reverse();
    ckeq!(b(&back), b(&want), "{what}: members from the back");
    ckeq!(s.len(), m.len(), "{what}: len");
    ckeq!(s.is_empty(), m.is_empty(), "{what}: is_empty");
    for c in letters() { ckeq!(s.contains(md(c)), m.contains(&rank(c)), "{what}: contains {}", c as char); }
    ckeq!(s.to_string(), String::from_utf8(want.clone()).unwrap(), "{what}: text");
    let mut it = s.into_iter();
    let (mut lo, mut hi) = (0, want.len());
    loop {
        ckeq!(it.len(), hi - lo, "{what}: iterator length");
        match it.next() { Some(x) => { ckeq!(u8::from(x), want[lo], "{what}: next"); lo += 1; } None => { ck!(lo == hi, "{what}: iterator ended early"); break; } }
        match it.next_back() { Some(x) => { ck!(hi > lo, "{what}: too many"); hi -= 1; ckeq!(u8::from(x), want[hi], "{what}: next_back"); } None => { ck!(lo == hi, "{what}: iterator ended early"); break; } }
    }
    ck!(it.next().is_none() && it.next_back().is_none(), "{what}: iterator restarted");
    Ok(())
}
fn check_sets(x: &(B, B)) -> R {
    let (a, z) = (set_of(&x.0), set_of(&x.1));
    let (ma, mz) = (model(&x.0), model(&x.1));
    same("set", &a, &ma)?;
    same("union", &a.union(z), &ma.union(&mz).copied().collect())?;
    same("intersection", &a.intersection(z), &ma.intersection(&mz).copied().collect())?;
    same("difference", &a.difference(z), &ma.difference(&mz).copied().collect())?;
    let o = match (ma.is_subset(&mz), mz.is_subset(&ma)) { (true, true) => Some(std::cmp::Ordering::Equal), (true, false) => Some(std::cmp::Ordering::Less), (false, true) => Some(std::cmp::Ordering::Greater), _ => None };
    ckeq!(a.partial_cmp(&z), o, "ordering");
    ckeq!(a == z, ma == mz, "equality");
    let (mut s, mut m) = (a, ma.clone());
    for c in x.1.iter() { ckeq!(s.set(md(*c)), m.insert(rank(*c)), "set({}) reported", *c as char); same("after set", &s, &m)?; }
    for c in x.0.iter() { ckeq!(s.unset(md(*c)), m.remove(&rank(*c)), "unset({}) reported", *c as char); same("after unset", &s, &m)?; }
    let w = x.1.iter().fold(a, |s, c| s.with(md(*c)));
    same("with", &w, &ma.union(&mz).copied().collect())?;
    Ok(!ma.is_empty() && !mz.is_empty())
}

const TT: [ModeType; 4] = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
fn check_table(t: &ModeTypes, m: &dyn Fn(u8) -> Option<ModeType>) -> Result<(), String> {
    let mut text = vec![vec![]; 4];
    for c in letters() {
        ckeq!(t.get(md(c)), m(c), "type of {}", c as char);
        if let Some(x) = m(c) { text[TT.iter().position(|t| *t == x).unwrap()].push(c); }
    }
    for t in &mut text { t.sort_by_key(|c| rank(*c)); }
    ckeq!(b(t.to_string()), b(text.join(&b','.to_owned())), "text of the table");
    Ok(())
}
fn check_four(x: &[B; 4]) -> R {
    let ms: Vec<S> = x.iter().map(|s| model(s)).collect();
    let (t, over) = ModeTypes::from_sets(set_of(&x[0]), set_of(&x[1]), set_of(&x[2]), set_of(&x[3]));
    let count = |c: u8| ms.iter().filter(|m| m.contains(&rank(c))).count();
    let mo: S = letters().filter(|c| count(*c) > 1).map(rank).collect();
    same("overlap", &over, &mo)?;
    check_table(&t, &|c| if count(c) == 1 { Some(TT[ms.iter().position(|m| m.contains(&rank(c))).unwrap()]) } else { None })?;
    for (i, ty) in TT.iter().enumerate() {
        let one = ModeTypes::from_set(set_of(&x[i]), *ty);
        check_table(&one, &|c| ms[i].contains(&rank(c)).then_some(*ty))?;
        // Inserting afterwards.
        let mut t2 = t;
        t2.insert_set(over, *ty);
        check_table(&t2, &|c| match count(c) { 0 => None, 1 => Some(TT[ms.iter().position(|m| m.contains(&rank(c))).unwrap()]), _ => Some(*ty) })?;
        for c in x[(i + 1) % 4].iter().take(3) {
            let before = t2;
            t2.insert(md(*c), *ty);
            check_table(&t2, &|d| if d == *c { Some(*ty) } else { before.get(md(d)) })?;
        }
        let before = t2;
        t2.insert_set(set_of(&x[(i + 2) % 4]), *ty);
        check_table(&t2, &|d| if ms[(i + 2) % 4].contains(&rank(d)) { Some(*ty) } else { before.get(md(d)) })?;
    }
    Ok(!mo.is_empty())
}

type Prefix = Option<Vec<(u8, Option<u8>)>>;
fn ref_prefix(s: &[u8]) -> Prefix {
    let s = s.strip_prefix(b"(")?;
    let end = s.iter().position(|c| *c == b')')?;
    let (modes, pre) = (&s[..end], &s[end + 1..]);
    let mut out: Vec<(u8, Option<u8>)> = vec![];
    for (i, m) in modes.iter().enumerate() {
        let p = (i < pre.len() && pre[..=i].is_ascii()).then(|| pre[i]).filter(|c| *c != 0);
        if !m.is_ascii_alphabetic() { continue; }
        if out.iter().any(|(n, q)| n == m || (p.is_some() && *q == p)) { return None; }
        out.push((*m, p));
    }
    Some(out)
}
fn same_prefix(s: &StatusModes, m: &[(u8, Option<u8>)]) -> Result<(), String> {
    for c in letters() {
        let e = m.iter().find(|x| x.0 == c);
        ckeq!(s.contains(md(c)), e.is_some(), "status mode {}", c as char);
        ckeq!(s.get_prefix(md(c)).map(|p| p.get()), e.and_then(|e| e.1), "prefix of {}", c as char);
    }
    for p in 1..=255u8 {
        ckeq!(s.get_mode(NonZeroU8::new(p).unwrap()).map(u8::from), m.iter().find(|x| x.1 == Some(p)).map(|x| x.0), "mode of prefix {p}");
    }
    Ok(())
}
fn check_prefix(s: &B) -> R {
    let want = ref_prefix(s);
    match (StatusModes::parse(s), &want) {
        (Ok(g), Some(w)) => same_prefix(&g, w)?,
        (Err(_), None) => (),
        (Ok(g), None) => return Err(format!("accepted as {g:?}")),
        (Err(e), Some(w)) => return Err(format!("rejected: {e}, expected {w:?}")),
    }
    Ok(want.is_some_and(|w| !w.is_empty()))
}
fn ref_chan(s: &[u8]) -> (Vec<S>, Vec<u8>) {
    let mut sets = vec![S::new(); 4];
    let mut k = 0;
    for (i, c) in s.iter().enumerate() {
        if *c == b',' { k += 1; if k == 4 { return (sets, s[i + 1..].to_vec()); } } else if c.is_ascii_alphabetic() { sets[k].insert(rank(*c)); }
    }
    (sets, vec![])
}
fn check_chan(x: &(B, B)) -> R {
    let (s, p) = x;
    let (sets, rest) = ref_chan(s);
    let (t, over, r) = ModeTypes::parse(s);
    let count = |c: u8| sets.iter().filter(|m| m.contains(&rank(c))).count();
    let ty = |c: u8| if count(c) == 1 { Some(TT[sets.iter().position(|m| m.contains(&rank(c))).unwrap()]) } else { None };
    check_table(&t, &ty)?;
    same("overlap", &over, &letters().filter(|c| count(*c) > 1).map(rank).collect())?;
    ckeq!(b(r), b(&rest), "unparsed rest");
    if valid(T::Word, s) && valid(T::Word, p) {
        let mut map: NameMap<ISupport> = NameMap::new();
        map.edit().insert((Key::from_str("CHANMODES"), Word::from_bytes(Bytes::from(s.0.clone())).unwrap()), ());
        map.edit().insert((Key::from_str("PREFIX"), Word::from_bytes(Bytes::from(p.0.clone())).unwrap()), ());
        let m = ServerChanModes::from_isupport(&map);
        let st = ref_prefix(p).unwrap_or_default();
        for c in letters() {
            let w = if st.iter().any(|x| x.0 == c) { Some(ModeType::Status) } else { ty(c) };
            ckeq!(m.get(md(c)), w, "server mode type of {}", c as char);
        }
        if let Some(Ok(t)) = map.get_parsed(vinezombie::names::isupport::CHANMODES) { check_table(&t, &ty)?; } else { return Err("CHANMODES not parsed".into()); }
        ck!(matches!(map.get_parsed(vinezombie::names::isupport::PREFIX), Some(Ok(_))) == ref_prefix(p).is_some(), "PREFIX parsed");
    }
    Ok(sets.iter().filter(|s| !s.is_empty()).count() > 1)
}
fn some_letters(r: &mut Rng) -> B {
    let n = match r.below(4) { 0 => r.below(3), 1 => r.below(6), 2 => r.below(20), _ => r.below(53) };
    let wide = r.chance(1, 2);
    B((0..n).map(|_| if wide { let l: Vec<u8> = letters().collect(); *r.pick(&l) } else { *r.pick(b"aAbBzZqv") }).collect())
}
pub fn c15(c: &mut Ctx) {
    // Modes themselves: every byte, every pair.
    for x in 0..=255u8 {
        c.run("mode letter", x, |x| {
            let m = Mode::new(*x);
            ckeq!(m.is_some(), x.is_ascii_alphabetic(), "validity");
            if let Some(m) = m {
                ckeq!(u8::from(m), *x, "letter");
                ckeq!(m.into_char(), *x as char, "char");
                ckeq!(char::from(m), *x as char, "char");
                ckeq!(NonZeroU8::from(m).get(), *x, "nonzero");
                ckeq!(m.to_string(), (*x as char).to_string(), "text");
                ckeq!(b(vinezombie::string::Arg::from(m)), b([*x]), "argument");
                for y in letters() { ckeq!(m.cmp(&md(y)), rank(*x).cmp(&rank(y)), "order against {}", y as char); ckeq!(m.partial_cmp(&md(y)), Some(rank(*x).cmp(&rank(y))), "partial order"); ckeq!(m == md(y), *x == y, "equality"); }
                same("singleton", &ModeSet::new().with(m), &[rank(*x)].into_iter().collect())?;
            }
            Ok(m.is_some())
        });
    }
    for (t, l, s, u) in [(ModeType::TypeA, true, true, true), (ModeType::TypeB, false, true, true), (ModeType::TypeC, false, true, false), (ModeType::TypeD, false, false, false), (ModeType::Status, true, true, true)] {
        c.run("mode type", format!("{t:?}"), |_| { ckeq!((t.is_listlike(), t.needs_arg_to_set(), t.needs_arg_to_unset()), (l, s, u), "argument rules"); Ok(true) });
    }
    // Every pair of sets over a few letters, every quadruple over three.
    exhaustive(b"0123", 4, |p| {
        let d = |i: u8| p.iter().enumerate().filter(|(_, v)| (**v - b'0') & (1 << i) != 0).map(|(k, _)| b"aAzQ"[k]).collect::<Vec<u8>>();
        c.run("two sets, exhaustive", (B(d(0)), B(d(1))), check_sets);
        !c.failed()
    });
    for bits in 0..4096u32 {
        let d = |i: u32| B((0..3).filter(|k| bits >> (i * 3 + k) & 1 == 1).map(|k| b"mMk"[k as usize]).collect());
        c.run("four sets, exhaustive", [d(0), d(1), d(2), d(3)], check_four);
    }
    exhaustive(b"()ab@+\xe9 ", 6, |s| { c.run("PREFIX, exhaustive", b(s), check_prefix); !c.failed() && !c.over() });
    exhaustive(b"ab,A=", 6, |s| { c.run("CHANMODES, exhaustive", (b(s), b("(ov)@+")), check_chan); !c.failed() && !c.over() });
    let n = c.iters(3_000);
    for _ in 0..n {
        let r = &mut c.rng;
        let x = (some_letters(r), some_letters(r));
        let four = [some_letters(r), some_letters(r), some_letters(r), some_letters(r)];
        let modes: Vec<u8> = if r.chance(1, 2) { r.bytes_n(4, b"ovhqab", |c| c != b')') } else { b"qaohv".to_vec() };
        let pre: Vec<u8> = if r.chance(1, 2) { r.bytes_n(4, b"~&@%+\0", |_| true) } else { b"~&@%+"[..r.below(6)].to_vec() };
        let p = B([b"(".as_slice(), &modes, b")", &pre].concat());
        let ch = B(r.bytes(b"ab,ZQ,,kl,m9-", |_| true));
        let ch2 = B([some_letters(r).0, some_letters(r).0, some_letters(r).0, some_letters(r).0, some_letters(r).0].join(&b','));
        c.run("two sets", x, check_sets);
        c.run("four sets", four, check_four);
        c.run("PREFIX", p.clone(), check_prefix);
        c.run("CHANMODES", (ch, p.clone()), check_chan);
        c.run("CHANMODES", (ch2, p), check_chan);
        if c.over() || c.failed() { break; }
    }
}
