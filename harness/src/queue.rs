//! C17: the rate-limited queue, on a virtual clock.
use crate::common::*;
use crate::msg::*;
use crate::{ck, ckeq, vclock};
use std::collections::VecDeque;
use std::time::Duration;
use vinezombie::client::queue::{Adjuster, MultiAdjuster, Queue, QueueEditGuard};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Key, NoNul, Word};

#[derive(Clone, Debug, Hash)]
pub enum Op {
    Push,
    /// Pushed with a label tag, if there is a labeler. The flag: the message already has tags.
    Labeled(bool),
    Extend(usize),
    /// Pushes, pushes from a nested session, then clears (0 nothing, 1 the nested one's, 2 all, 3 nested then one more push).
    Session(usize, usize, u8),
    Pop,
    /// Pops until refused.
    Drain,
    Advance(u64),
    /// Waits as long as the queue says, less one nanosecond; then that nanosecond.
    WaitOut,
    Limit(u64, u32),
    Clear,
    Reset,
    Labeler(u8),
    /// Adjusters: each (modulus, remainder to remove, remainder to mark, active on messages divisible by).
    Adjusters(Vec<(u32, u32, u32, u32)>, bool),
    NoAdjuster,
    Adjust(u32),
}

struct Adj { m: u32, rm: u32, mark: u32, on: u32, resets: std::sync::Arc<std::sync::atomic::AtomicU32> }
fn id_of(msg: &ClientMsg) -> u32 {
    msg.args.words().first().and_then(|a| std::str::from_utf8(a.as_bytes()).ok().and_then(|s| s.parse().ok())).unwrap_or(u32::MAX)
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        let n: u32 = msg.args.words().first().and_then(|a| std::str::from_utf8(a.as_bytes()).ok().and_then(|s| s.parse().ok())).unwrap();
        n % self.on == 0
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let id = id_of(msg);
        if id % self.m == self.mark {
            msg.args.edit().add_literal("m");
        }
        id % self.m != self.rm
    }
    fn reset(&mut self) { self.resets.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
}

#[derive(Clone, Debug, PartialEq)]
struct QM { id: u32, label: Option<Vec<u8>>, tagged: bool, marks: usize }

fn mk(id: u32) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(vinezombie::string::Cmd::from_str("TEST"));
    m.args.edit().add_word(vinezombie::string::Arg::try_from(id.to_string()).unwrap());
    m
}
fn same(got: &ClientMsg, m: &QM) -> Result<(), String> {
    let args = view_args(&got.args).0;
    ckeq!(id_of(got), m.id, "released message");
    ckeq!(args.len(), 1 + m.marks, "arguments of message {}", m.id);
    let label = got.tags.get("label").map(|p| p.as_bytes().to_vec());
    ckeq!(label, m.label, "label of message {}", m.id);
    let keep = got.tags.get("keep").map(|p| p.as_bytes().to_vec());
    ckeq!(keep, m.tagged.then(|| b"v".to_vec()), "other tag of message {}", m.id);
    ckeq!(got.tags.len(), m.tagged as usize + m.label.is_some() as usize, "tags of message {}", m.id);
    ckeq!(got.cmd.as_bytes(), b"TEST" as &[u8], "command");
    Ok(())
}

struct Model { q: VecDeque<QM>, delay: u128, sub: u128, tp: u128, burst: u64, since: Vec<u128> }

fn run(init: usize, ops: &[Op]) -> R {
    vclock::frozen(|| run_inner(init, ops))
}
fn pop(q: &mut Queue, m: &mut Model) -> Result<Option<Option<u128>>, String> {
    let now = vclock::now() as u128;
    let mut called = 0;
    let mut wait: Option<Duration> = None;
    let got = q.pop(|w| { called += 1; wait = w; });
    let room = m.tp.saturating_sub(now).saturating_sub(m.sub);
    match (m.q.front().cloned(), got) {
        (None, None) => {
            ckeq!(called, 1, "calls of the timeout function");
            ckeq!(wait, None, "wait on an empty queue");
            Ok(Some(None))
        }
        (Some(f), Some(g)) => {
            ck!(room == 0, "message {} was released {room} ns too early", f.id);
            ckeq!(called, 0, "calls of the timeout function on success");
            same(&g, &f)?;
            m.q.pop_front();
            m.tp = m.tp.max(now) + m.delay;
            m.since.push(now);
            // The bound of the rate limit over every interval that ends here.
            if m.delay > 0 {
                for (k, t) in m.since.iter().rev().enumerate().take(400) {
                    ck!((k + 1) as u128 <= m.burst as u128 + 1 + (now - t) / m.delay, "{} messages were released within {} ns (delay {}, burst {})", k + 1, now - t, m.delay, m.burst);
                }
            }
            Ok(None)
        }
        (Some(f), None) => {
            ckeq!(called, 1, "calls of the timeout function");
            let Some(w) = wait else { return Err("no wait given although messages are queued".into()) };
            ck!(!w.is_zero(), "zero wait");
            ck!(room != 0, "message {} was refused although the limit permits it", f.id);
            ckeq!(w.as_nanos(), room, "wait");
            Ok(Some(Some(w.as_nanos())))
        }
        (None, Some(g)) => Err(format!("released {g} from an empty queue")),
    }
}
fn run_inner(init: usize, ops: &[Op]) -> R {
    let mut next = init as u32;
    let msgs: Vec<_> = (0..init as u32).map(mk).collect();
    let mut q = match init % 3 { 0 => Queue::from(msgs), 1 => Queue::from_iter(msgs), _ => Queue::from(VecDeque::from(msgs)) };
    if init == 0 { q = Queue::new(); }
    let mut m = Model { q: (0..init as u32).map(|id| QM { id, label: None, tagged: false, marks: 0 }).collect(), delay: 2_000_000_000, sub: 8_000_000_000, tp: vclock::now() as u128, burst: 4, since: vec![] };
    let mut labeler = 0u8;
    let mut count = 0u32;
    let mut labels_seen: std::collections::HashSet<Vec<u8>> = Default::default();
    let mut adj: Option<Vec<(u32, u32, u32, u32)>> = None;
    let mut counters: Vec<std::sync::Arc<std::sync::atomic::AtomicU32>> = vec![];
    let mut resets = 0;
    let mut nontrivial = false;
    for op in ops {
        match op {
            Op::Push => { q.edit().push(mk(next)); m.q.push_back(QM { id: next, label: None, tagged: false, marks: 0 }); next += 1; }
            Op::Labeled(t) => {
                let mut msg = mk(next);
                if *t { msg.tags.edit().insert_pair(Key::from_str("keep"), NoNul::from_str("v")); }
                let l = q.edit().push_labeled(msg).map(|l| l.as_bytes().to_vec());
                match (labeler, &l) {
                    (0, None) => (),
                    (0, Some(_)) => return Err("a label was made without a labeler".into()),
                    (_, None) => return Err("no label was made".into()),
                    (1, Some(l)) => { ck!(!l.is_empty() && labels_seen.insert(l.clone()), "default labels repeat: {:?}", b(l)); }
                    (_, Some(l)) => { ckeq!(l.clone(), format!("L {count};").into_bytes(), "label"); count += 1; }
                }
                nontrivial |= l.is_some();
                m.q.push_back(QM { id: next, label: l, tagged: *t, marks: 0 });
                next += 1;
            }
            Op::Extend(n) => {
                q.extend((0..*n as u32).map(|i| mk(next + i)));
                for _ in 0..*n { m.q.push_back(QM { id: next, label: None, tagged: false, marks: 0 }); next += 1; }
            }
            Op::Session(a, bb, how) => {
                let base = m.q.len();
                let mut g: QueueEditGuard = q.edit();
                ck!(g.is_empty() && g.len() == 0, "a new session is not empty");
                ckeq!(g.is_using_labeler(), labeler != 0, "session labeler");
                for _ in 0..*a { g.push(mk(next)); m.q.push_back(QM { id: next, label: None, tagged: false, marks: 0 }); next += 1; }
                ckeq!(g.len(), *a, "session length");
                {
                    let mut h = g.edit();
                    ck!(h.is_empty(), "a nested session is not empty");
                    for _ in 0..*bb { h.push(mk(next)); m.q.push_back(QM { id: next, label: None, tagged: false, marks: 0 }); next += 1; }
                    ckeq!(h.len(), *bb, "nested session length");
                    ckeq!(h.is_empty(), *bb == 0, "nested session emptiness");
                    if *how == 1 || *how == 3 { h.clear(); m.q.truncate(base + a); ckeq!(h.len(), 0, "nested length after clear"); }
                    if *how == 3 { h.push(mk(next)); m.q.push_back(QM { id: next, label: None, tagged: false, marks: 0 }); next += 1; }
                }
                if *how == 2 { g.clear(); m.q.truncate(base); }
                ckeq!(g.len(), m.q.len() - base, "session length at the end");
            }
            Op::Pop => { nontrivial |= pop(&mut q, &mut m)?.is_some_and(|w| w.is_some()); }
            Op::Drain => {
                let mut n = 0;
                while pop(&mut q, &mut m)?.is_none() { n += 1; if n > 3000 { break; } }
                nontrivial |= n > 1;
            }
            Op::Advance(ns) => vclock::advance(*ns),
            Op::WaitOut => {
                if let Some(Some(w)) = pop(&mut q, &mut m)? {
                    nontrivial = true;
                    vclock::advance((w - 1) as u64);
                    ckeq!(pop(&mut q, &mut m)?, Some(Some(1)), "one nanosecond before the end of the wait");
                    vclock::advance(1);
                    ck!(pop(&mut q, &mut m)?.is_none(), "refused after the wait");
                }
            }
            Op::Limit(d, k) => {
                q.set_rate_limit(Duration::from_nanos(*d), *k);
                m.delay = *d as u128;
                m.sub = *d as u128 * *k as u128;
                m.burst = *k as u64;
                m.tp = vclock::now() as u128 + m.sub + m.delay;
                m.since.clear();
            }
            Op::Clear => { q.clear(); m.q.clear(); }
            Op::Reset => { q.reset(); m.q.clear(); labeler = 0; m.tp = vclock::now() as u128; m.since.clear(); if adj.is_some() { resets += 1; } }
            Op::Labeler(k) => {
                labeler = *k;
                match k {
                    0 => { q.use_no_labeler(); }
                    1 => { q.use_labeler_default(); labels_seen.clear(); }
                    _ => { let mut n = 0; count = 0; q.use_labeler(move || { n += 1; NoNul::from_bytes(format!("L {};", n - 1)).unwrap() }); }
                }
            }
            Op::Adjusters(v, multi) => {
                resets = 0;
                counters.clear();
                let mut mk = |a: &(u32, u32, u32, u32)| { let c = std::sync::Arc::<std::sync::atomic::AtomicU32>::default(); counters.push(c.clone()); Adj { m: a.0, rm: a.1, mark: a.2, on: a.3, resets: c } };
                if *multi || v.len() != 1 {
                    let mut ma = MultiAdjuster::new();
                    ck!(ma.is_empty(), "a new MultiAdjuster is not empty");
                    for a in v { ma.add(mk(a)); }
                    ckeq!(ma.len(), v.len(), "adjusters");
                    q.use_adjuster(ma);
                } else {
                    q.use_adjuster(mk(&v[0]));
                }
                adj = Some(v.clone());
            }
            Op::NoAdjuster => { q.use_no_adjuster(); adj = None; counters.clear(); }
            Op::Adjust(n) => {
                let mut msg = ServerMsg::parse("X").unwrap();
                msg.args.edit().add_word(vinezombie::string::Arg::try_from(n.to_string()).unwrap());
                q.adjust(&msg);
                if let Some(v) = &adj {
                    let active: Vec<_> = v.iter().filter(|a| n % a.3 == 0).collect();
                    m.q.retain_mut(|x| {
                        let mut keep = true;
                        for a in &active {
                            if x.id % a.0 == a.2 { x.marks += 1; }
                            keep &= x.id % a.0 != a.1;
                        }
                        keep
                    });
                }
            }
        }
        ckeq!(q.len(), m.q.len(), "queue length after {op:?}");
        ckeq!(q.is_empty(), m.q.is_empty(), "queue emptiness after {op:?}");
        ckeq!(q.is_using_labeler(), labeler != 0, "labeler after {op:?}");
        for c in &counters { ckeq!(c.load(std::sync::atomic::Ordering::Relaxed), resets, "adjuster resets"); }
    }
    // Whatever is left comes out in order.
    while !m.q.is_empty() {
        if let Some(Some(w)) = pop(&mut q, &mut m)? { vclock::advance(w as u64); }
    }
    Ok(nontrivial)
}

pub fn c17(c: &mut Ctx) {
    c.run("clock", 0u8, |_| { ck!(vclock::works(), "the virtual clock is not in effect"); Ok(false) });
    // Every schedule of pushes, pops and waits of a given length, under small limits.
    let alpha = [Op::Push, Op::Pop, Op::Advance(1), Op::Advance(3), Op::WaitOut, Op::Drain];
    let depth = if c.thorough { 6 } else { 5 };
    for (d, k) in [(2u64, 1u32), (3, 0), (1, 2), (0, 3)] {
        let mut idx: Vec<u8> = vec![];
        exhaustive(&[0, 1, 2, 3, 4, 5], depth, |s| {
            idx.clear();
            idx.extend_from_slice(s);
            let mut ops = vec![Op::Limit(d, k), Op::Extend(2), Op::Advance(d * (k as u64 + 1) / 2)];
            ops.extend(idx.iter().map(|i| alpha[*i as usize].clone()));
            c.run("small-schedules", ops, |ops| run(0, ops));
            !c.failed() && !c.over()
        });
    }
    let n = c.iters(1500);
    crate::codec::client_streams(c, n as u64);
    for _ in 0..c.iters(20000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.range(1, 40);
        let unit = *r.pick(&[1u64, 1000, 1_000_000, 1_000_000_000, 7_777_777, 60_000_000_000]);
        let mut ops = vec![];
        if r.chance(2, 3) { ops.push(Op::Limit(r.below(9) as u64 * unit, r.below(8) as u32)); }
        for _ in 0..n {
            ops.push(match r.below(40) {
                0..=5 => Op::Push,
                6..=8 => Op::Labeled(r.chance(1, 2)),
                9..=10 => Op::Extend(r.below(9)),
                11..=13 => Op::Session(r.below(4), r.below(4), r.below(4) as u8),
                14..=20 => Op::Pop,
                21..=23 => Op::Drain,
                24..=28 => Op::Advance(match r.below(3) { 0 => r.below(4) as u64, 1 => r.below(10) as u64 * unit, _ => r.next() % (unit * 10) }),
                29..=30 => Op::WaitOut,
                31 => match r.below(6) { 0 => Op::Limit(r.next() % 1_000_000_000_000_000, r.next() as u32 % 1000), _ => Op::Limit(r.below(9) as u64 * unit, r.below(8) as u32) },
                32 => if r.chance(1, 2) { Op::Clear } else { Op::Reset },
                33..=34 => Op::Labeler(r.below(3) as u8),
                35..=36 => { let k = r.range(0, 3); let v = (0..k).map(|_| { let m = r.range(1, 4) as u32; (m + 1, r.below(m as usize + 2) as u32, r.below(m as usize + 2) as u32, r.range(1, 3) as u32) }).collect(); Op::Adjusters(v, r.chance(1, 2)) }
                37 => Op::NoAdjuster,
                _ => Op::Adjust(r.below(12) as u32),
            });
        }
        let init = r.below(6);
        c.run("histories", (init, ops), |(i, o)| run(*i, o));
    }
    // Long bursts.
    for _ in 0..c.iters(20) {
        let r = &mut c.rng;
        let ops = vec![Op::Limit(r.next() % 5_000_000_000, r.below(600) as u32), Op::Extend(r.range(0, 1500)), Op::Drain, Op::Advance(r.next() % 10_000_000_000_000), Op::Drain, Op::WaitOut, Op::Drain];
        c.run("bursts", ops, |o| run(0, o));
    }
}
