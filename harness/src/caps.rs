//! C20: capability requests and CAP replies.
use crate::common::*;
use crate::msg::*;
use crate::{ck, ckeq};
use std::collections::BTreeMap;
use vinezombie::client::cap::{req, ServerMsgArgs, SubCmd};
use vinezombie::client::queue::Queue;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Key};

fn written(m: &ClientMsg) -> Vec<u8> { let mut v = vec![]; m.write_to(&mut v).unwrap(); v }

fn check_req(x: &(Vec<B>, Option<B>, Option<Src>, bool)) -> R {
    let (caps, client, src, via_queue) = x;
    let source = src.as_ref().map(mk_src);
    let keys: Vec<Key<'static>> = caps.iter().map(|k| Key::from_bytes(k.0.clone()).unwrap()).collect();
    let cl = client.as_ref().map(|c| Arg::from_bytes(c.0.clone()).unwrap());
    let mut out: Vec<ClientMsg<'static>> = vec![];
    if *via_queue {
        let mut q = Queue::new();
        q.set_rate_limit(std::time::Duration::ZERO, 0);
        req(keys, cl, source.as_ref(), &mut q.edit());
        while let Some(m) = q.pop(|_| ()) { out.push(m); }
    } else {
        req(keys, cl, source.as_ref(), |m| out.push(m));
    }
    ck!(!out.is_empty(), "nothing was sent");
    let mut got: Vec<B> = vec![];
    // What the server puts around the list when it acknowledges the request.
    let prefix = source.as_ref().map(|s| { let mut v = b":".to_vec(); s.write_to(&mut v).unwrap(); v.push(b' '); v.len() }).unwrap_or(0);
    let nick = client.as_ref().map(|c| c.len()).unwrap_or(1);
    let fits = |k: usize| prefix + 3 + 1 + nick + 4 + 2 + k + 2 <= 500;
    let all_fit = fits(0) && caps.iter().all(|c| fits(c.len()));
    for m in &out {
        ckeq!(m.cmd.as_bytes(), b"CAP" as &[u8], "command");
        let (w, last) = m.args.split_last();
        ck!(w.len() == 1 && w[0] == "REQ", "subcommand: {:?}", m);
        let last = last.ok_or("no capabilities")?.as_bytes().to_vec();
        let names: Vec<B> = last.split(|c| *c == b' ').filter(|s| !s.is_empty()).map(b).collect();
        ck!(!names.is_empty() || caps.is_empty(), "an empty request was sent");
        let joined = names.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(&b' ');
        ckeq!(b(&last), B(joined), "list of capabilities");
        if all_fit {
            let l = written(m).len() + 2;
            ck!(l <= 512, "request of {l} bytes");
            let ack = prefix + 3 + 1 + nick + 4 + 2 + last.len() + 2;
            ck!(ack <= 512, "acknowledgement of {ack} bytes");
        }
        got.extend(names);
    }
    ckeq!(got, *caps, "requested capabilities");
    Ok(caps.len() > 1)
}

pub type CapV = (B, SubCmd, bool, BTreeMap<B, B>);
fn view(a: &ServerMsgArgs) -> CapV {
    (b(a.nick.as_bytes()), a.subcmd, a.is_last, a.caps.iter().map(|(k, v)| (b(k.as_bytes()), b(v.as_bytes()))).collect())
}
fn sub(s: &[u8]) -> Option<SubCmd> {
    Some(match s.to_ascii_uppercase().as_slice() { b"LS" => SubCmd::Ls, b"LIST" => SubCmd::List, b"ACK" => SubCmd::Ack, b"NAK" => SubCmd::Nak, b"NEW" => SubCmd::New, b"DEL" => SubCmd::Del, _ => return None })
}
fn ref_caps(last: &[u8]) -> BTreeMap<B, B> {
    let mut out = BTreeMap::new();
    let mut i = 0;
    while i < last.len() {
        while i < last.len() && last[i].is_ascii_whitespace() { i += 1; }
        let s = i;
        while i < last.len() && last[i] != b' ' { i += 1; }
        let w = &last[s..i];
        let k = w.iter().position(|c| !byte_ok(T::Key, *c)).unwrap_or(w.len());
        let (key, rest) = w.split_at(k);
        if !valid(T::Key, key) { continue; }
        match rest.first() {
            None => { out.insert(b(key), b(b"")); }
            Some(b'=') => { out.insert(b(key), b(&rest[1..])); }
            _ => (),
        }
    }
    out
}
pub fn ref_cap(words: &[B]) -> Option<CapV> {
    let (last, w) = words.split_last()?;
    if w.len() < 2 || !valid(T::Nick, &w[0]) { return None; }
    let s = sub(&w[1])?;
    let is_last = match w.get(2) { None => true, Some(x) if x.0 == b"*" => false, _ => return None };
    Some((w[0].clone(), s, is_last, ref_caps(last)))
}
fn check_parse_cap(words: &Vec<B>) -> R {
    let args = mk_args(&words[..words.len().saturating_sub(1)], &words.last().cloned());
    let got = ServerMsgArgs::parse(&args).ok();
    ckeq!(got.as_ref().map(view), ref_cap(words), "parsed CAP");
    if let Some(a) = &got {
        for (k, _) in &a.caps { ck!(a.contains(k.as_bytes()), "contains({k:?}) is false"); }
        ck!(!a.contains(b"no such;cap"), "contains an absent capability");
        ckeq!(a.subcmd.into_arg().as_bytes().to_vec(), words[1].to_ascii_uppercase(), "subcommand as argument");
        ckeq!(SubCmd::from_bytes(a.subcmd.into_cmd().as_bytes()), Some(a.subcmd), "subcommand");
    }
    Ok(got.is_some())
}
/// Folds a multi-line reply.
fn check_combine(msgs: &Vec<Vec<B>>) -> R {
    let mut parsed = vec![];
    for words in msgs {
        let args = mk_args(&words[..words.len() - 1], &words.last().cloned());
        parsed.push((ServerMsgArgs::parse(&args).map_err(|e| e.to_string())?, ref_cap(words).unwrap()));
    }
    let mut it = parsed.into_iter();
    let (mut acc, mut model) = it.next().unwrap();
    let mut nt = false;
    for (m, mv) in it {
        let refused = model.2 || model.1 != mv.1 || model.0 != mv.0;
        let r = acc.combine(m);
        ckeq!(r.is_some(), refused, "refusal of {mv:?}");
        if let Some(back) = r {
            ckeq!(view(&back), mv, "refused message");
        } else {
            nt = true;
            model.2 = mv.2;
            model.3.extend(mv.3);
        }
        ckeq!(view(&acc), model, "combined reply");
    }
    Ok(nt)
}

pub fn c20(c: &mut Ctx) {
    // Lists of equally long names around the limit.
    for len in [1usize, 2, 3, 7, 50, 100, 240, 245, 248] {
        for n in 0..=(1200 / len).min(300) {
            for (nick, host) in [(0usize, 0usize), (1, 1), (9, 20), (30, 63)] {
                if c.failed() || c.over() { return; }
                let caps: Vec<B> = (0..n).map(|i| { let mut v = vec![b'a' + (i % 26) as u8; len]; v[0] = b'A' + (i % 26) as u8; B(v) }).collect();
                let src = (host > 0).then(|| (B(vec![b's'; host]), None));
                c.run("req-uniform", (caps, (nick > 0).then(|| B(vec![b'n'; nick])), src, n % 2 == 0), check_req);
            }
        }
        if !c.thorough && len > 100 { continue; }
    }
    for _ in 0..c.iters(20000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.below(60);
        let caps = (0..n).map(|_| { let mut k = gen(r, T::Key); k.truncate(*r.pick(&[5, 20, 60, 400])); B(k) }).collect();
        let client = r.chance(2, 3).then(|| { let mut a = gen(r, T::Arg); a.truncate(60); B(a) });
        let src = r.chance(2, 3).then(|| { let mut s = gen_src(r); s.0 .0.truncate(30); s });
        let q = r.chance(1, 2);
        c.run("req", (caps, client, src, q), check_req);
    }
    let frags: [&[u8]; 14] = [b" ", b"  ", b"=", b"sasl", b"a", b"sasl=PLAIN,EXTERNAL", b"-x", b":", b";", b"\t", b"draft/x=\\", b"\xff", b"=v", b"a=b=c"];
    exhaustive(&[0, 2, 4, 6, 7, 8, 9], 5, |s| {
        let last: Vec<u8> = s.iter().flat_map(|i| frags[*i as usize].to_vec()).collect();
        c.run("reply-small", vec![b(b"*"), b(b"LS"), B(last)], check_parse_cap);
        !c.failed()
    });
    for _ in 0..c.iters(60000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let mut words: Vec<B> = vec![];
        if r.chance(19, 20) { words.push(match r.below(4) { 0 => b(b"*"), 1 => B(gen(r, T::Arg)), _ => B(gen(r, T::Nick)) }); }
        if r.chance(19, 20) { words.push(match r.below(12) { 0 => B(gen(r, T::Arg)), 1 => b(b"REQ"), 2 => b(b"END"), k => { let mut v = [&b"LS"[..], b"LIST", b"ACK", b"NAK", b"NEW", b"DEL"][k % 6].to_vec(); if r.chance(1, 4) { v.make_ascii_lowercase() } B(v) } }); }
        match r.below(4) { 0 => words.push(b(b"*")), 1 if r.chance(1, 4) => words.push(B(gen(r, T::Arg))), _ => () }
        if r.chance(1, 20) { words.push(b(b"*")); }
        let last: Vec<u8> = if r.chance(3, 4) { (0..r.below(12)).flat_map(|_| { let f = r.below(14); frags[f].to_vec() }).collect() } else { gen(r, T::Line) };
        words.push(B(last));
        c.run("reply", words, check_parse_cap);
    }
    for _ in 0..c.iters(20000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.range(2, 6);
        let msgs = (0..n).map(|_| {
            let mut w = vec![b(*r.pick(&[&b"*"[..], b"*", b"*", b"n"])), b(*r.pick(&[&b"LS"[..], b"LS", b"ls", b"LIST"]))];
            if r.chance(4, 5) { w.push(b(b"*")); }
            let k = r.below(5);
            w.push(B((0..k).map(|_| { let key = *r.pick(&["a", "b", "c", "d"]); if r.chance(1, 2) { format!("{key}={}", r.below(9)) } else { key.into() } }).collect::<Vec<_>>().join(" ").into_bytes()));
            w
        }).collect();
        c.run("multi-line", msgs, check_combine);
    }
    // The whole way: the reply read off the wire.
    for _ in 0..c.iters(2000) {
        let r = &mut c.rng;
        let n = r.below(8);
        let caps: Vec<(B, B)> = (0..n).map(|_| (B(gen(r, T::Key)), if r.chance(1, 2) { B(gen(r, T::Word)) } else { b(b"") })).collect();
        c.run("wire", caps, |caps| {
            if caps.iter().any(|(k, _)| k[0].is_ascii_whitespace()) { return Ok(false); }
            let mut line = b"CAP * LS :".to_vec();
            for (k, v) in caps { line.extend_from_slice(k); if !v.is_empty() { line.push(b'='); line.extend_from_slice(v); } line.push(b' '); }
            let msg = ServerMsg::parse(line).map_err(|e| e.to_string())?;
            let a = ServerMsgArgs::parse(&msg.args).map_err(|e| e.to_string())?;
            ckeq!(view(&a).3, caps.iter().cloned().collect::<BTreeMap<_, _>>(), "capabilities");
            Ok(!caps.is_empty())
        });
    }
}
