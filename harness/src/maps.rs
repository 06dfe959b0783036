//! C05: tag lists and name maps behave as maps.
use crate::common::*;
use crate::{ck, ckeq};
use std::collections::BTreeMap;
use std::rc::Rc;
use vinezombie::ircmsg::{ServerMsg, Tags};
use vinezombie::names::{Cap, ISupport, NameMap};
use vinezombie::string::{Bytes, Key, Line, NoNul, Word};

#[derive(Clone, Debug, Hash)]
pub enum Op { Insert(B, B), InsertKey(B), Try(B, B), Upd(B, B), Remove(B), GetMut(B, B), Get(B), Clear, Commit, CloneMap, Own, ClearMap, GetMutMap(B, B), Forget }

fn key(k: &B) -> Key<'static> { Key::from_bytes(Bytes::from(k.0.clone())).unwrap() }
fn val(k: &B) -> NoNul<'static> { NoNul::from_bytes(Bytes::from(k.0.clone())).unwrap() }
fn word(k: &B) -> Word<'static> { Word::from_bytes(Bytes::from(k.0.clone())).unwrap() }

fn ref_esc(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in v {
        match c { b';' => o.extend(b"\\:"), b' ' => o.extend(b"\\s"), b'\r' => o.extend(b"\\r"), b'\n' => o.extend(b"\\n"), b'\\' => o.extend(b"\\\\"), c => o.push(*c) }
    }
    o
}
fn render(m: &BTreeMap<B, B>) -> B {
    let mut o = vec![];
    for (i, (k, v)) in m.iter().enumerate() {
        o.push(if i == 0 { b'@' } else { b';' });
        o.extend_from_slice(k);
        if !v.is_empty() { o.push(b'='); o.extend_from_slice(&ref_esc(v)); }
    }
    B(o)
}
fn written(t: &Tags) -> B { let mut o = vec![]; t.write_to(&mut o).unwrap(); B(o) }

fn same_tags(t: &Tags, m: &BTreeMap<B, B>, pool: &[B]) -> Result<(), String> {
    ckeq!(t.len(), m.len(), "length");
    ckeq!(t.is_empty(), m.is_empty(), "is_empty");
    for k in pool {
        ckeq!(t.get(key(k)).map(|v| b(v)), m.get(k).cloned(), "get({k:?})");
    }
    ckeq!(written(t), render(m), "written form");
    Ok(())
}

fn run_tags(x: &(Vec<B>, Vec<Op>)) -> R {
    let (pool, ops) = x;
    let mut t: Tags<'static> = Tags::new();
    let mut m: BTreeMap<B, B> = BTreeMap::new();
    let mut it = ops.iter();
    let mut changes = 0;
    let mut done = false;
    while !done {
        {
            let mut g = t.edit();
            let mut stop = None;
            loop {
                let Some(op) = it.next() else { done = true; break };
                match op {
                    Op::Insert(k, v) => { changes += 1; ckeq!(g.insert_pair(key(k), val(v)).map(b), m.insert(k.clone(), v.clone()), "insert({k:?}) returned") }
                    Op::InsertKey(k) => { changes += 1; ckeq!(g.insert_key(key(k)).map(b), m.insert(k.clone(), B(vec![])), "insert_key({k:?}) returned") }
                    Op::Remove(k) => ckeq!(g.remove(key(k)).map(b), m.remove(k), "remove({k:?}) returned"),
                    Op::Get(k) => ckeq!(g.get(key(k)).map(|v| b(v)), m.get(k).cloned(), "guard.get({k:?})"),
                    Op::GetMut(k, v) => {
                        let r = g.get_mut(key(k));
                        ck!(r.is_some() == m.contains_key(k), "guard.get_mut({k:?})");
                        if let Some(r) = r { *r = val(v); m.insert(k.clone(), v.clone()); }
                    }
                    Op::Clear => { g.clear(); m.clear(); }
                    Op::Commit => { stop = Some(0); }
                    Op::CloneMap => { stop = Some(1); }
                    Op::Own => { stop = Some(2); }
                    Op::GetMutMap(k, v) => { stop = Some(3); drop(g); 
                        let r = t.get_mut(key(k));
                        ck!(r.is_some() == m.contains_key(k), "get_mut({k:?})");
                        if let Some(r) = r { *r = val(v); m.insert(k.clone(), v.clone()); }
                        break;
                    }
                    Op::Forget => {
                        std::mem::forget(g);
                        // The rest of the edit is lost, but what is left must still be a map.
                        let sub: BTreeMap<B, B> = m.iter().filter(|(k, _)| t.get(key(k)).is_some()).map(|(k, v)| (k.clone(), v.clone())).collect();
                        same_tags(&t, &sub, pool)?;
                        m = sub;
                        break;
                    }
                    _ => (),
                }
                if let Some(s) = stop {
                    drop(g);
                    match s { 1 => { let c = t.clone(); ck!(c == t, "clone differs"); t = c; } 2 => t = t.clone().owning(), _ => () }
                    break;
                }
                ckeq!(g.len(), m.len(), "guard length");
                ckeq!(g.is_empty(), m.is_empty(), "guard is_empty");
                for k in pool { ckeq!(g.get(key(k)).map(|v| b(v)), m.get(k).cloned(), "guard.get({k:?})"); }
            }
        }
        same_tags(&t, &m, pool)?;
    }
    // Equal contents are equal maps, whatever the order they were built in.
    let fwd: Tags = m.iter().map(|(k, v)| (key(k), val(v))).collect();
    let rev: Tags = m.iter().rev().map(|(k, v)| (key(k), val(v))).collect();
    same_tags(&fwd, &m, pool)?;
    same_tags(&rev, &m, pool)?;
    ck!(fwd == rev && fwd == t && h64(&fwd) == h64(&t) && h64(&rev) == h64(&t), "equal contents compare or hash differently");
    ck!(fwd.cmp(&t).is_eq(), "equal contents are ordered");
    if let Some((k, _)) = m.iter().next() {
        let mut o = t.clone();
        o.edit().remove(key(k));
        ck!(o != t, "different contents compare equal");
        let mut o = t.clone();
        *o.get_mut(key(k)).unwrap() = val(&B(b"...other".to_vec()));
        ck!(o != t, "different values compare equal");
    }
    let js: bool = m.iter().all(|(k, v)| std::str::from_utf8(k).is_ok() && std::str::from_utf8(v).is_ok());
    if js {
        let j = serde_json::to_string(&t).unwrap();
        let back: Tags = serde_json::from_str(&j).unwrap();
        same_tags(&back, &m, pool)?;
        let as_map: BTreeMap<String, String> = serde_json::from_str(&j).unwrap();
        ck!(as_map.len() == m.len() && as_map.iter().all(|(k, v)| m.get(&b(k)) == Some(&b(v))), "serialized as {j}");
    }
    let mut line = written(&t).0;
    if !m.is_empty() {
        // The trip through a message.
        line.extend_from_slice(b" X");
        let p = ServerMsg::parse(Line::from_bytes(Bytes::from(line)).unwrap()).unwrap();
        same_tags(&p.tags, &m, pool)?;
        ck!(p.tags == t, "parsed tags compare different");
    }
    Ok(changes > 1)
}

/// Duplicate keys in a parsed or collected list: the last one counts.
fn check_dups(x: &Vec<(B, B)>) -> R {
    let mut m = BTreeMap::new();
    let mut text = vec![];
    for (i, (k, v)) in x.iter().enumerate() {
        if i > 0 { text.push(b';'); }
        text.extend_from_slice(k);
        if !v.is_empty() { text.push(b'='); text.extend_from_slice(&ref_esc(v)); }
        m.insert(k.clone(), v.clone());
    }
    let pool: Vec<B> = x.iter().map(|p| p.0.clone()).collect();
    same_tags(&Tags::parse(Word::from_bytes(Bytes::from(text)).unwrap()), &m, &pool)?;
    let t: Tags = x.iter().map(|(k, v)| (key(k), val(v))).collect();
    same_tags(&t, &m, &pool)?;
    Ok(m.len() < x.len() && m.len() > 1)
}

/// A value that counts how many of its copies are alive.
#[derive(Clone, Debug)]
struct Counted(Rc<()>, B);

fn same_map(t: &NameMap<Cap, Counted>, m: &BTreeMap<B, (B, B)>, pool: &[B], live: &Rc<()>) -> Result<(), String> {
    ckeq!(t.len(), m.len(), "length");
    ckeq!(t.is_empty(), m.is_empty(), "is_empty");
    let ks: Vec<B> = t.keys().map(|k| b(k)).collect();
    ckeq!(ks, m.keys().cloned().collect::<Vec<_>>(), "keys()");
    let mut bk: Vec<B> = t.keys().rev().map(|k| b(k)).collect();
    bk.reverse();
    ckeq!(bk, ks, "keys() from the back");
    let mut it = t.keys();
    let mut n = m.len();
    loop {
        ckeq!(it.len(), n, "keys().len()");
        if it.next().is_none() { break; }
        n -= 1;
        ckeq!(it.size_hint(), (n, Some(n)), "keys().size_hint()");
        if it.next_back().is_none() { break; }
        n -= 1;
    }
    ck!(n == 0 && it.next().is_none() && it.next_back().is_none(), "keys() met in the middle wrongly");
    for k in pool {
        ckeq!(t.get_union_raw(&key(k)).map(|(kk, v)| (b(kk), b(v))), m.get(k).map(|v| (k.clone(), v.0.clone())), "get_union_raw({k:?})");
        ckeq!(t.get_extra_raw(&key(k)).map(|v| v.1.clone()), m.get(k).map(|v| v.1.clone()), "get_extra_raw({k:?})");
    }
    ckeq!(Rc::strong_count(live) - 1, m.len(), "values alive");
    Ok(())
}
fn run_names(x: &(Vec<B>, Vec<Op>)) -> R {
    let (pool, ops) = x;
    let live = Rc::new(());
    let cv = |v: &B| Counted(live.clone(), B([b"x".as_slice(), v].concat()));
    let xv = |v: &B| B([b"x".as_slice(), v].concat());
    let mut t: NameMap<Cap, Counted> = NameMap::new();
    let mut m: BTreeMap<B, (B, B)> = BTreeMap::new();
    let mut it = ops.iter();
    let mut changes = 0;
    let mut done = false;
    let pair = |e: Option<((Key<'static>, Word<'static>), Counted)>| e.map(|((_, w), c)| (b(w), c.1.clone()));
    while !done {
        {
            let mut g = t.edit();
            loop {
                let Some(op) = it.next() else { done = true; break };
                match op {
                    Op::Insert(k, v) => { changes += 1; ckeq!(pair(g.insert((key(k), word(v)), cv(v))), m.insert(k.clone(), (v.clone(), xv(v))), "insert({k:?}) returned") }
                    Op::InsertKey(k) => { changes += 1; let e = B(vec![]); ckeq!(pair(g.insert((key(k), word(&e)), cv(&e))), m.insert(k.clone(), (e.clone(), xv(&e))), "insert({k:?}) returned") }
                    Op::Try(k, v) => {
                        changes += 1;
                        let r = pair(g.try_insert((key(k), word(v)), cv(v)));
                        if m.contains_key(k) { ckeq!(r, Some((v.clone(), xv(v))), "try_insert({k:?}) returned") } else { ck!(r.is_none(), "try_insert({k:?}) refused"); m.insert(k.clone(), (v.clone(), xv(v))); }
                    }
                    Op::Upd(k, v) => {
                        changes += 1;
                        let r = g.insert_or_update((key(k), word(v)), cv(v)).map(|(kk, w)| (b(kk), b(w)));
                        match m.get_mut(k) {
                            Some(e) => { ckeq!(r, Some((k.clone(), v.clone())), "insert_or_update({k:?}) returned"); e.1 = xv(v); }
                            None => { ck!(r.is_none(), "insert_or_update({k:?}) returned {r:?}"); m.insert(k.clone(), (v.clone(), xv(v))); }
                        }
                    }
                    Op::Remove(k) => ckeq!(pair(g.remove_raw(&key(k))), m.remove(k), "remove({k:?}) returned"),
                    Op::Get(k) => ckeq!(g.get_union_raw(&key(k)).map(|v| b(&v.1)), m.get(k).map(|v| v.0.clone()), "guard.get({k:?})"),
                    Op::GetMut(k, v) => {
                        let r = g.get_extra_raw_mut(&key(k));
                        ck!(r.is_some() == m.contains_key(k), "guard.get_extra_raw_mut({k:?})");
                        if let Some(r) = r { *r = cv(v); m.get_mut(k).unwrap().1 = xv(v); }
                    }
                    Op::Clear => { g.clear(); m.clear(); }
                    Op::Commit | Op::Own => break,
                    Op::Forget => break, // leaks by design; covered for tags
                    Op::CloneMap => {
                        drop(g);
                        let c = t.clone();
                        ckeq!(Rc::strong_count(&live) - 1, 2 * m.len(), "values alive after clone");
                        t = c;
                        break;
                    }
                    Op::ClearMap => { drop(g); t.clear(); m.clear(); break; }
                    Op::GetMutMap(k, v) => {
                        drop(g);
                        let r = t.get_extra_raw_mut(&key(k));
                        ck!(r.is_some() == m.contains_key(k), "get_extra_raw_mut({k:?})");
                        if let Some(r) = r { *r = cv(v); m.get_mut(k).unwrap().1 = xv(v); }
                        break;
                    }
                }
                ckeq!(g.len(), m.len(), "guard length");
                ckeq!(g.is_empty(), m.is_empty(), "guard is_empty");
                for k in pool {
                    ckeq!(g.get_union_raw(&key(k)).map(|v| b(&v.1)), m.get(k).map(|v| v.0.clone()), "guard.get_union_raw({k:?})");
                    ckeq!(g.get_extra_raw(&key(k)).map(|v| v.1.clone()), m.get(k).map(|v| v.1.clone()), "guard.get_extra_raw({k:?})");
                }
                ckeq!(Rc::strong_count(&live) - 1, m.len(), "values alive during the edit");
            }
        }
        same_map(&t, &m, pool, &live)?;
    }
    drop(t);
    ckeq!(Rc::strong_count(&live), 1, "references left after dropping the map");
    // Typed lookups agree with raw ones.
    use vinezombie::names::cap::{SASL, SERVER_TIME};
    let mut p: NameMap<Cap, u8> = NameMap::new();
    p.edit().insert((SASL::NAME, Word::from_str("PLAIN,EXTERNAL")), 3);
    ck!(p.get_union(SASL).is_some() && p.get_union(SERVER_TIME).is_none(), "get_union");
    ck!(p.get_extra(SASL) == Some(&3) && p.get_extra(SERVER_TIME).is_none(), "get_extra");
    let mut i: NameMap<ISupport> = NameMap::new();
    i.edit().insert((Key::from_str("NICKLEN"), Word::from_str("30")), ());
    ck!(matches!(i.get_parsed(vinezombie::names::isupport::NICKLEN), Some(Ok(n)) if n.get() == 30), "get_parsed");
    ck!(i.edit().remove(vinezombie::names::isupport::NICKLEN).is_some() && i.is_empty(), "remove by name");
    Ok(changes > 1)
}

fn pool(r: &mut Rng) -> Vec<B> {
    let n = r.range(1, 9);
    let mut v: Vec<B> = (0..n).map(|_| B(if r.chance(2, 3) { gen_small(r, T::Key) } else { gen(r, T::Key) })).collect();
    if r.chance(1, 2) { v.sort(); }
    v
}
fn prog(r: &mut Rng, pool: &[B], t: T, max: usize) -> Vec<Op> {
    let n = r.below(max);
    (0..n).map(|_| {
        let k = r.pick(pool).clone();
        let v = B(if r.chance(1, 4) { gen(r, t) } else { gen_small(r, t) });
        match r.below(24) {
            0..=6 => Op::Insert(k, v), 7 => Op::InsertKey(k), 8..=9 => Op::Try(k, v), 10..=11 => Op::Upd(k, v), 12..=14 => Op::Remove(k), 15 => Op::GetMut(k, v), 16 => Op::Get(k),
            17 => if r.chance(1, 3) { Op::Clear } else { Op::Get(k) },
            18 => Op::CloneMap, 19 => if r.chance(1, 4) { Op::ClearMap } else { Op::Own }, 20 => Op::GetMutMap(k, v), 21 => if r.chance(1, 5) { Op::Forget } else { Op::Commit }, _ => Op::Commit,
        }
    }).collect()
}

pub fn c05(c: &mut Ctx) {
    // Every program of up to four operations over three keys.
    let ks = [B(b"a".to_vec()), B(b"b".to_vec()), B(b"c".to_vec())];
    let mut alpha: Vec<Op> = vec![];
    for (i, k) in ks.iter().enumerate() { alpha.push(Op::Insert(k.clone(), B(vec![b'0' + i as u8]))); alpha.push(Op::Remove(k.clone())); }
    alpha.push(Op::Commit);
    alpha.push(Op::Clear);
    let idx: Vec<u8> = (0..alpha.len() as u8).collect();
    exhaustive(&idx, 5, |p| {
        let ops: Vec<Op> = p.iter().map(|i| alpha[*i as usize].clone()).collect();
        c.run("tags, every program", (ks.to_vec(), ops.clone()), run_tags);
        c.run("name map, every program", (ks.to_vec(), ops), run_names);
        !c.failed() && !c.over()
    });
    let mut beta: Vec<Op> = vec![Op::Commit];
    for k in &ks { for v in [b"p", b"q"] { beta.push(Op::Try(k.clone(), b(v))); beta.push(Op::Upd(k.clone(), b(v))); } beta.push(Op::Remove(k.clone())); }
    let idx: Vec<u8> = (0..beta.len() as u8).collect();
    exhaustive(&idx, 4, |p| {
        let ops: Vec<Op> = p.iter().map(|i| beta[*i as usize].clone()).collect();
        c.run("name map, conditional inserts", (ks.to_vec(), ops), run_names);
        !c.failed() && !c.over()
    });
    // Runs of duplicate keys, every pattern.
    exhaustive(b"abc", 6, |p| {
        let x: Vec<(B, B)> = p.iter().enumerate().map(|(i, k)| (b([*k]), b(i.to_string()))).collect();
        c.run("duplicate keys, every pattern", x, check_dups);
        !c.failed()
    });
    let n = c.iters(15_000);
    for _ in 0..n {
        let p = pool(&mut c.rng);
        let ops = prog(&mut c.rng, &p, T::NoNul, 40);
        c.run("tags, random program", (p.clone(), ops), run_tags);
        let ops = prog(&mut c.rng, &p, T::Word, 40);
        c.run("name map, random program", (p.clone(), ops), run_names);
        let k = c.rng.below(14);
        let x: Vec<(B, B)> = (0..k).map(|_| (c.rng.pick(&p).clone(), B(if c.rng.chance(1, 2) { gen_small(&mut c.rng, T::NoNul) } else { gen(&mut c.rng, T::NoNul) }))).collect();
        c.run("duplicate keys", x, check_dups);
        if c.over() || c.failed() { break; }
    }
    c.run("no memory corruption", 0u8, |_| { ck!(crate::alloc::corrupt() == 0, "{} heap blocks were written out of bounds", crate::alloc::corrupt()); Ok(true) });
}
