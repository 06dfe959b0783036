//! C18 and C23: handlers, run through a client on an in-memory connection.
use crate::common::*;
use crate::msg::*;
use crate::{ck, ckeq};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufReader, Read, Write};
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use vinezombie::client::channel::{ChannelSpec, ClosedSender, Sender, SenderRef, Sent, SyncChannels, TokioChannels};
use vinezombie::client::conn::{ReadTimeout, WriteTimeout};
use vinezombie::client::handlers::{AutoPong, CtcpVersion, Ping};
use vinezombie::string::Line;
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::{Client, ClientState, Handler, SelfMadeHandler};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};

/// Both ends of an in-memory connection: bytes to the client, bytes from the client.
#[derive(Clone, Default)]
pub struct Pipe(pub Arc<Mutex<(VecDeque<u8>, Vec<u8>)>>);
impl Pipe {
    pub fn feed(&self, line: &[u8]) { let mut l = self.0.lock().unwrap(); l.0.extend(line); l.0.extend(b"\r\n"); }
    /// The lines written by the client since the last call.
    pub fn sent(&self) -> Vec<B> {
        let out = std::mem::take(&mut self.0.lock().unwrap().1);
        let mut v: Vec<B> = out.split(|c| *c == b'\n').map(|l| b(l.strip_suffix(b"\r").unwrap_or(l))).collect();
        v.pop();
        v
    }
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut l = self.0.lock().unwrap();
        if l.0.is_empty() { return Err(std::io::ErrorKind::WouldBlock.into()); }
        let n = buf.len().min(l.0.len());
        for x in &mut buf[..n] { *x = l.0.pop_front().unwrap(); }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().1.extend_from_slice(buf); Ok(buf.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl ReadTimeout for Pipe { fn set_read_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> { Ok(()) } }
impl WriteTimeout for Pipe { fn set_write_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> { Ok(()) } }
impl tokio::io::AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut tmp = vec![0; buf.remaining()];
        Poll::Ready(Read::read(&mut *self, &mut tmp).map(|n| buf.put_slice(&tmp[..n])))
    }
}
impl tokio::io::AsyncWrite for Pipe {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Ready(Write::write(&mut *self, buf)) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}

pub type Results = Option<(Vec<usize>, Vec<usize>)>;
/// A client on the synchronous or on the asynchronous interface.
pub enum Cl { Sync(Client<BufReader<Pipe>, SyncChannels>), Async(Client<tokio::io::BufReader<Pipe>, SyncChannels>, tokio::runtime::Runtime) }
#[macro_export]
macro_rules! with_client {
    ($c:expr, $i:ident, $e:expr) => { match $c { $crate::client::Cl::Sync($i) => $e, $crate::client::Cl::Async($i, _) => $e } };
}
impl Cl {
    pub fn new(pipe: &Pipe, is_async: bool) -> Self {
        let mut c = if is_async {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            Cl::Async(Client::new(tokio::io::BufReader::new(pipe.clone()), SyncChannels), rt)
        } else {
            Cl::Sync(Client::new(BufReader::new(pipe.clone()), SyncChannels))
        };
        with_client!(&mut c, c, { c.queue_mut().set_rate_limit(Duration::ZERO, 0); });
        c
    }
    pub fn run(&mut self) -> Result<Results, String> {
        let r = match self {
            Cl::Sync(c) => c.run(),
            Cl::Async(c, rt) => rt.block_on(c.run_tokio()),
        };
        r.map(|o| o.map(|(a, b)| (a.to_vec(), b.to_vec()))).map_err(|e| format!("run: {e}"))
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct Act { values: u8, push: u8, discard: bool, finish: bool, owning: bool }
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Chan { Open, Closed, Once }
#[derive(Clone, Debug, Hash)]
pub enum Op { Add { script: Vec<Act>, chan: Chan, init: u8, owning: bool }, Feed(u8), Run, Reset }

#[derive(Default)]
struct Log { calls: Vec<(u32, Vec<u8>)>, pushed: Vec<Vec<u8>>, values: Vec<u32>, next_push: u32, dropped: BTreeSet<u32> }
struct H { uid: u32, script: VecDeque<Act>, init: u8, owning: bool, log: Arc<Mutex<Log>> }
impl Drop for H { fn drop(&mut self) { let uid = self.uid; self.log.lock().unwrap().dropped.insert(uid); } }
fn note(k: u32, log: &mut Log) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(vinezombie::string::Cmd::from_str("X"));
    m.args.edit().add_word(vinezombie::string::Arg::try_from(k.to_string()).unwrap());
    log.pushed.push(format!("X {k}").into_bytes());
    m
}
impl Handler for H {
    type Value = u32;
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut ClientState, mut queue: QueueEditGuard<'_>, mut channel: SenderRef<'_, u32>) -> ControlFlow<()> {
        let mut w = vec![];
        let _ = msg.write_to(&mut w);
        let mut log = self.log.lock().unwrap();
        log.calls.push((self.uid, w));
        let a = self.script.pop_front().unwrap_or(Act { values: 0, push: 0, discard: false, finish: false, owning: self.owning });
        self.owning = a.owning;
        let before = log.pushed.len();
        for _ in 0..a.push { log.next_push += 1; let k = log.next_push; let m = note(k, &mut log); queue.push(m); }
        if a.discard { queue.clear(); log.pushed.truncate(before); }
        for _ in 0..a.values {
            let _ = channel.send(self.uid);
        }
        if a.finish { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
    }
    fn wants_owning(&self) -> bool { self.owning }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = ();
    fn queue_msgs(&self, _: &ClientState, mut queue: QueueEditGuard<'_>) {
        let mut log = self.log.lock().unwrap();
        for _ in 0..self.init { log.next_push += 1; let k = log.next_push; let m = note(k, &mut log); queue.push(m); }
    }
    fn make_channel<S: ChannelSpec>(_: &S) -> (Box<dyn Sender<Value = u32> + Send>, ()) { (Box::<ClosedSender<_>>::default(), ()) }
}
struct Send1(Chan, u32, Arc<Mutex<Log>>);
impl Sender for Send1 {
    type Value = u32;
    fn send(&mut self, v: u32) -> ControlFlow<Sent> {
        self.1 += 1;
        match self.0 {
            Chan::Open => { lock_values(&self.2, v); ControlFlow::Continue(()) }
            Chan::Closed => ControlFlow::Break(Sent::Closed),
            Chan::Once if self.1 == 1 => { lock_values(&self.2, v); ControlFlow::Break(Sent::Ok) }
            Chan::Once => ControlFlow::Break(Sent::Closed),
        }
    }
}
/// The log is locked by the handler that is sending; values go through a list of their own.
fn lock_values(_: &Arc<Mutex<Log>>, v: u32) { VALUES.with(|x| x.borrow_mut().push(v)); }
thread_local!(static VALUES: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(vec![]) });

struct Live { uid: u32, id: usize, script: VecDeque<Act>, chan: Chan, sends: u32 }

fn run(ops: &Vec<Op>, is_async: bool) -> R {
    VALUES.with(|v| v.borrow_mut().clear());
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let log: Arc<Mutex<Log>> = Default::default();
    let mut live: Vec<Live> = vec![];
    let mut pending: VecDeque<Vec<u8>> = Default::default();
    let mut sent_upto = 0usize;
    let (mut next_uid, mut next_msg) = (0u32, 0u32);
    let mut nt = false;
    for op in ops {
        match op {
            Op::Add { script, chan, init, owning } => {
                let uid = next_uid;
                next_uid += 1;
                let h = H { uid, script: script.iter().copied().collect(), init: *init, owning: *owning, log: log.clone() };
                let s = Box::new(Send1(*chan, 0, log.clone()));
                let id = with_client!(&mut cl, c, c.add_with_sender(s, (), h)).unwrap();
                ck!(!live.iter().any(|l| l.id == id), "handler {uid} got the identifier {id} of a live handler");
                live.push(Live { uid, id, script: script.iter().copied().collect(), chan: *chan, sends: 0 });
            }
            Op::Feed(k) => for _ in 0..*k {
                let line = format!(":s!u@h MSG {next_msg} :text {next_msg}").into_bytes();
                next_msg += 1;
                pipe.feed(&line);
                pending.push_back(line);
            },
            Op::Run => {
                let first_call = log.lock().unwrap().calls.len();
                let r = cl.run()?;
                // Follow the messages until one has results.
                let (calls, pushed) = { let l = log.lock().unwrap(); (l.calls[first_call..].to_vec(), l.pushed.clone()) };
                let mut at = 0;
                let expected: Results = loop {
                    if live.is_empty() { break Some((vec![], vec![])); }
                    let Some(msg) = pending.pop_front() else { break None };
                    let n = live.len();
                    ck!(calls.len() >= at + n, "message {:?}: {} handlers are live, but only {} were called", b(&msg), n, calls.len() - at);
                    let these = &calls[at..at + n];
                    at += n;
                    let (mut y, mut f) = (vec![], vec![]);
                    let mut uids: Vec<u32> = these.iter().map(|c| c.0).collect();
                    uids.sort();
                    let mut want: Vec<u32> = live.iter().map(|l| l.uid).collect();
                    want.sort();
                    ckeq!(uids, want, "handlers called for {:?}", b(&msg));
                    for (_, m) in these { ckeq!(b(m), b(&msg), "message seen by a handler"); }
                    live.retain_mut(|l| {
                        let a = l.script.pop_front();
                        let mut yielded = false;
                        for _ in 0..a.map(|a| a.values).unwrap_or(0) {
                            l.sends += 1;
                            yielded |= match l.chan { Chan::Open => true, Chan::Closed => false, Chan::Once => l.sends == 1 };
                        }
                        if yielded { y.push(l.id); }
                        let fin = a.is_some_and(|a| a.finish);
                        if fin { f.push(l.id); }
                        !fin
                    });
                    nt |= !f.is_empty() && n > 1;
                    if !y.is_empty() || !f.is_empty() {
                        y.sort();
                        f.sort();
                        break Some((y, f));
                    }
                };
                ckeq!(calls.len(), at, "handler calls");
                let r = r.map(|(mut a, mut b)| { a.sort(); b.sort(); (a, b) });
                ckeq!(r, expected, "reported results (yielded, finished)");
                // Everything queued by handlers was sent, once and in order.
                let out: Vec<Vec<u8>> = pipe.sent().into_iter().map(|x| x.0).collect();
                ckeq!(out.iter().map(b).collect::<Vec<_>>(), pushed[sent_upto..].iter().map(b).collect::<Vec<_>>(), "messages sent");
                sent_upto = pushed.len();
            }
            Op::Reset => {
                with_client!(&mut cl, c, c.reset());
                live.clear();
                let mut l = log.lock().unwrap();
                let n = sent_upto;
                l.pushed.truncate(n);
            }
        }
        let queued = log.lock().unwrap().pushed.len() > sent_upto;
        ckeq!(with_client!(&cl, c, c.needs_run()), !live.is_empty() || queued, "needs_run after {op:?}");
        let dropped = log.lock().unwrap().dropped.clone();
        for l in &live { ck!(!dropped.contains(&l.uid), "live handler {} was dropped", l.uid); }
        ckeq!(dropped.len() + live.len(), next_uid as usize, "handlers that are live or gone");
    }
    Ok(nt)
}

/// One handler on a channel of the library's own: it counts as having yielded exactly if a value arrived.
enum Rx { SyncOne((vinezombie::client::channel::oneshot::Receiver<u32>, vinezombie::client::channel::parker::Parker)), Mpsc(std::sync::mpsc::Receiver<u32>), One(tokio::sync::oneshot::Receiver<u32>), Unbounded(tokio::sync::mpsc::UnboundedReceiver<u32>), Weak(tokio::sync::mpsc::UnboundedSender<u32>, tokio::sync::mpsc::UnboundedReceiver<u32>), Nothing }
impl Rx {
    /// Everything that arrived.
    fn drain(self) -> Vec<u32> {
        match self {
            Rx::SyncOne((r, _)) => r.recv_now().into_iter().collect(),
            Rx::Mpsc(r) => r.try_iter().collect(),
            Rx::One(mut r) => r.try_recv().ok().into_iter().collect(),
            Rx::Unbounded(mut r) | Rx::Weak(_, mut r) => std::iter::from_fn(|| r.try_recv().ok()).collect(),
            Rx::Nothing => vec![],
        }
    }
}
const KINDS: u8 = 9;
fn make_chan(kind: u8) -> (Box<dyn Sender<Value = u32> + Send>, Rx) {
    match kind {
        0 => { let (s, r) = SyncChannels.new_oneshot(); (s, Rx::SyncOne(r)) }
        1 => { let (s, r) = SyncChannels.new_queue(); (s, Rx::Mpsc(r)) }
        2 => { let (s, r) = TokioChannels.new_oneshot(); (s, Rx::One(r)) }
        3 => { let (s, r) = TokioChannels.new_queue(); (s, Rx::Unbounded(r)) }
        4 => { let (s, r) = std::sync::mpsc::channel(); (Box::new(s), Rx::Mpsc(r)) }
        5 => { let (s, r) = tokio::sync::oneshot::channel(); (Box::new(Some(s)), Rx::One(r)) }
        6 => { let (s, r) = tokio::sync::mpsc::unbounded_channel(); (Box::new(s), Rx::Unbounded(r)) }
        7 => { let (s, r) = tokio::sync::mpsc::unbounded_channel(); (Box::new(s.downgrade()), Rx::Weak(s, r)) }
        _ => (Box::<ClosedSender<u32>>::default(), Rx::Nothing),
    }
}
/// `steps`: how many values are sent on each message; the receiver goes before message `gone`.
fn chans(kind: u8, steps: &[u8], gone: usize, is_async: bool) -> R {
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let log: Arc<Mutex<Log>> = Default::default();
    let script = steps.iter().map(|v| Act { values: *v, push: 0, discard: false, finish: false, owning: false }).collect();
    let (s, rx) = make_chan(kind);
    let mut rx = Some(rx);
    let once = matches!(kind, 0 | 2 | 5);
    let id = with_client!(&mut cl, c, c.add_with_sender(s, (), H { uid: 7, script, init: 0, owning: false, log: log.clone() })).unwrap();
    let mut arrived = 0;
    for (i, v) in steps.iter().enumerate() {
        if i == gone { if let Some(r) = rx.take() { ckeq!(r.drain().len(), arrived, "values that arrived on channel {kind}"); } }
        let n = if rx.is_none() || kind == 8 { 0 } else if once { (arrived == 0 && *v > 0) as usize } else { *v as usize };
        arrived += n;
        pipe.feed(b":s!u@h MSG");
        let expected = (n > 0).then(|| (vec![id], vec![]));
        ckeq!(cl.run()?, expected, "results on message {i}, {v} values sent on channel {kind}, of which {n} arrived");
    }
    if let Some(r) = rx.take() { ckeq!(r.drain(), vec![7; arrived], "values that arrived on channel {kind}"); }
    Ok(gone < steps.len())
}

fn gen_act(r: &mut Rng) -> Act {
    Act { values: *r.pick(&[0, 0, 0, 0, 1, 2]), push: *r.pick(&[0, 0, 0, 1, 3]), discard: r.chance(1, 5), finish: r.chance(1, 5), owning: r.chance(1, 2) }
}
pub fn c18(c: &mut Ctx) {
    for kind in 0..KINDS {
        for code in 0..27u8 {
            for gone in 0..4 {
                if c.failed() || c.over() { return; }
                let steps = vec![code % 3, code / 3 % 3, code / 9];
                let a = code % 2 == 1;
                c.run("channels", (kind, steps, gone, a), |(k, s, g, a)| chans(*k, s, *g, *a));
            }
        }
    }
    // Every pattern of when each of up to four handlers finishes, over three messages.
    for n in 1..=4usize {
        let total = 4usize.pow(n as u32);
        for code in 0..total {
            for re_add in 0..3u8 {
                if c.failed() || c.over() { return; }
                let mut ops = vec![];
                let mut x = code;
                for _ in 0..n {
                    let when = x % 4;
                    x /= 4;
                    let script = (0..3).map(|i| Act { values: (i == 1) as u8, push: 1, discard: false, finish: i == when, owning: i % 2 == 0 }).collect();
                    ops.push(Op::Add { script, chan: Chan::Open, init: 0, owning: false });
                }
                for i in 0..3 {
                    ops.extend([Op::Feed(1), Op::Run]);
                    if re_add > i { ops.push(Op::Add { script: vec![], chan: Chan::Open, init: 1, owning: true }); }
                }
                ops.extend([Op::Feed(2), Op::Run, Op::Run]);
                c.run("finish-patterns", ops, |o| run(o, false));
            }
        }
    }
    for i in 0..c.iters(12000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.range(2, 30);
        let ops = (0..n).map(|_| match r.below(12) {
            0..=3 => Op::Add { script: (0..r.below(6)).map(|_| gen_act(r)).collect(), chan: *r.pick(&[Chan::Open, Chan::Open, Chan::Once, Chan::Closed]), init: *r.pick(&[0, 0, 1, 2]), owning: r.chance(1, 2) },
            4..=6 => Op::Feed(r.below(4) as u8),
            11 if r.chance(1, 2) => Op::Reset,
            _ => Op::Run,
        }).collect::<Vec<_>>();
        let a = i % 4 == 3;
        c.run(if a { "histories-async" } else { "histories" }, (ops, a), |(o, a)| run(o, *a));
    }
}

// ---- C23 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash)]
pub enum POp { Line(B), AddPing, AddPong, Reply(u8) }

fn pings(ops: &Vec<POp>, is_async: bool) -> R {
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let mut pongs = 0usize;
    // Outstanding pings: identifier, token, receiver.
    let mut out: Vec<(usize, B, _)> = vec![];
    let mut nt = false;
    let mut queue: Vec<Vec<u8>> = vec![];
    for op in ops {
        match op {
            POp::AddPong => { let _ = with_client!(&mut cl, c, c.add((), AutoPong)).unwrap(); pongs += 1; continue; }
            POp::AddPing => {
                let (id, recv) = with_client!(&mut cl, c, c.add((), Ping::default())).unwrap();
                cl.run()?;
                let sent = pipe.sent();
                ck!(sent.len() == 1, "a ping sent {sent:?}");
                let v = ref_parse(&sent[0], false).ok_or("bad message")?;
                ck!(v.kind.0 == b"PING" && v.args.len() == 1, "a ping sent {sent:?}");
                out.push((id, v.args[0].clone(), recv));
                std::thread::sleep(Duration::from_nanos(1));
                continue;
            }
            POp::Line(l) => queue.push(l.0.clone()),
            POp::Reply(how) => {
                let Some((_, tok, _)) = out.first() else { continue };
                let mut l = match how % 10 {
                    0 | 1 => b"PONG s ".to_vec(),
                    2 => b":s PONG ".to_vec(),
                    3 => b"PONG s :".to_vec(),
                    4 => b"PONG s x".to_vec(),
                    5 => b"PING ".to_vec(),
                    6 => b"PONG ".to_vec(),
                    7 => b"PONG s 0".to_vec(),
                    8 => b"PONG s :+".to_vec(),
                    _ => b"PONG s :".to_vec(),
                };
                l.extend_from_slice(tok);
                match how / 10 { 0 | 1 => (), 2 => l.push(b'0'), 3 => { l.pop(); } 4 => l.extend_from_slice(b" x"), _ => l.extend_from_slice(b" :") }
                queue.push(l);
            }
        }
        for l in queue.drain(..) {
            // With no handlers nothing is read.
            if pongs + out.len() == 0 { continue }
            pipe.feed(&l);
            let Some(v) = ref_parse(&l, true) else { return Ok(nt) };
            let r = cl.run()?;
            let mut expect = vec![];
            if v.kind.0 == b"PING" { for _ in 0..pongs { expect.push(v.args.last().cloned()); nt = true; } }
            let sent = pipe.sent();
            ckeq!(sent.len(), expect.len(), "number of replies to {:?} ({sent:?})", b(&l));
            for (s, e) in sent.iter().zip(&expect) {
                let p = ref_parse(s, false).ok_or("bad reply")?;
                ck!(p.kind.0 == b"PONG" && p.src.is_none() && p.tags.is_empty(), "reply to {:?}: {s:?}", b(&l));
                ckeq!(p.args, e.iter().cloned().collect::<Vec<_>>(), "arguments of the reply to {:?}", b(&l));
            }
            let mut done: Vec<usize> = vec![];
            if v.kind.0 == b"PONG" {
                if let Some(last) = v.args.last() {
                    let mut i = 0;
                    while i < out.len() {
                        if out[i].1 == *last {
                            let (id, _, recv) = out.remove(i);
                            done.push(id);
                            let got = recv.0.recv_now().ok_or("a completed ping sent nothing")?;
                            ckeq!(got.0.as_ref().map(view_src), v.src, "source of the reply");
                            ck!(got.1 < Duration::from_secs(600), "round trip of {:?}", got.1);
                            nt = true;
                        } else { i += 1; }
                    }
                }
            }
            done.sort();
            let want: Results = (!done.is_empty()).then(|| (done.clone(), done.clone()));
            let r = r.map(|(mut a, mut b)| { a.sort(); b.sort(); (a, b) });
            ckeq!(r, want, "results after {:?}", b(&l));
        }
    }
    Ok(nt)
}
pub fn c23(c: &mut Ctx) {
    let fixed: [&[u8]; 14] = [b"PING", b"PING :", b"PING a", b"PING :a b", b"PING a b", b"PING :::", b":s PING x", b"@a=b :s!u@h PING \xff", b"ping low", b"PINGX a", b"PONG a", b"PING  spaced  :last one", b"001 n :PING x", b"PING \x01\x7f,%"];
    for l in fixed {
        for n in 0..3 {
            let mut ops = vec![POp::AddPong; n];
            ops.push(POp::Line(b(l)));
            ops.push(POp::Line(b(l)));
            c.run("pings", (ops, n == 2), |(o, a)| pings(o, *a));
        }
    }
    for i in 0..c.iters(8000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.range(1, 14);
        let mut ops = vec![];
        if r.chance(4, 5) { ops.push(POp::AddPong); }
        for _ in 0..n {
            ops.push(match r.below(12) {
                0 => POp::AddPong,
                1..=2 if n < 8 => POp::AddPing,
                3..=5 => POp::Reply(r.below(60) as u8),
                k => {
                    let mut m = gen_msg(r, true);
                    m.kind = match k { 6..=9 => Kind::Cmd(b(b"PING")), 10 => Kind::Cmd(b(b"PONG")), _ => m.kind };
                    m.tags.truncate(2);
                    let mut w = vec![];
                    mk_server(&m).write_to(&mut w).unwrap();
                    POp::Line(B(w))
                }
            });
        }
        let a = i % 4 == 3;
        c.run(if a { "histories-async" } else { "histories" }, (ops, a), |(o, a)| pings(o, *a));
    }
}
// ---- C24: the automatic reply ---------------------------------------------------------------

/// The CTCP command of a body, by its definition.
fn ctcp_cmd(s: &[u8]) -> Option<Vec<u8>> {
    let t = s.strip_prefix(b"\x01")?;
    let t = t.split(|c| *c == 1).next().unwrap();
    Some(t.split(|c| *c == b' ').next().unwrap().to_ascii_uppercase())
}
fn auto_reply(lines: &Vec<B>, version: &B, source: &B, is_async: bool) -> R {
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let h = CtcpVersion { version: Line::from_bytes(version.0.clone()).unwrap(), source: Line::from_bytes(source.0.clone()).unwrap() };
    let _ = with_client!(&mut cl, c, c.add((), h)).unwrap();
    let mut nt = false;
    for l in lines {
        let Some(v) = ref_parse(l, true) else { continue };
        pipe.feed(l);
        ck!(cl.run()?.is_none(), "the handler finished at {l:?}");
        let mut want = vec![];
        if v.kind.0 == b"PRIVMSG" && v.args.len() == 2 {
            if let (Some(src), Some(cmd)) = (&v.src, ctcp_cmd(&v.args[1])) {
                let body = match &cmd[..] { b"VERSION" => version, b"SOURCE" => source, _ => &B(vec![]) };
                if !body.is_empty() { nt = true; want.push(vec![src.0.clone(), B([b"\x01", &cmd[..], b" ", body, b"\x01"].concat())]); }
            }
        }
        let sent = pipe.sent();
        ckeq!(sent.len(), want.len(), "number of replies to {l:?} ({sent:?})");
        for (s, w) in sent.iter().zip(&want) {
            let p = ref_parse(s, false).ok_or("bad reply")?;
            ck!(p.kind.0 == b"NOTICE" && p.src.is_none() && p.tags.is_empty(), "reply to {l:?}: {s:?}");
            ckeq!(p.args, *w, "arguments of the reply to {l:?}");
        }
    }
    Ok(nt)
}
pub fn c24(c: &mut Ctx) {
    let text = |r: &mut Rng| -> B { B(gen(r, T::Line).into_iter().filter(|x| *x != 1).take(100).collect()) };
    for kind in ["PRIVMSG", "NOTICE", "PING", "PART", "TOPIC", "352", "001", "privmsg", "WALLOPS"] {
        for src in ["", ":n ", ":n!u@h ", ":irc.example ", "@a=b :n!u@h "] {
            for body in ["\x01VERSION\x01", "\x01VERSION", "\x01version\x01", "\x01VERSION x y\x01", "\x01VERSIONS\x01", "\x01SOURCE\x01", "\x01Source a", "\x01 VERSION\x01", "\x01\x01VERSION\x01", "VERSION", "\x01PING 1\x01", "\x01\x01", "x\x01VERSION\x01"] {
                let l = |mid: &str| b(format!("{src}{kind}{mid} :{body}").as_bytes());
                let ls = vec![l(" me"), l(""), l(" me too"), l(" #chan")];
                for (v, s) in [("a 1.0", "http://x"), ("", "y"), ("z", "")] {
                    c.run("automatic reply, forms", (ls.clone(), b(v.as_bytes()), b(s.as_bytes())), |(l, v, s)| auto_reply(l, v, s, false));
                }
            }
        }
    }
    for i in 0..c.iters(6000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let mut lines = vec![];
        for _ in 0..r.range(1, 6) {
            let mut m = gen_msg(r, true);
            m.tags.truncate(2);
            m.kind = if r.chance(4, 5) { Kind::Cmd(b(r.pick(&[&b"PRIVMSG"[..], b"PRIVMSG", b"PRIVMSG", b"NOTICE"]))) } else { m.kind };
            if r.chance(4, 5) {
                m.words.truncate(1);
                if m.words.is_empty() { m.words.push(b(b"me")); }
                let mut t = vec![1];
                t.extend_from_slice(r.pick(&[&b"VERSION"[..], b"SOURCE", b"version", b"sourcE", b"PING", b"VERSION ", b""]));
                if r.chance(1, 3) { t.push(b' '); t.extend_from_slice(&text(r)); }
                if r.chance(2, 3) { t.push(1); }
                if r.chance(1, 9) { t.remove(0); }
                m.last = Some(B(t));
            }
            let mut w = vec![];
            mk_server(&m).write_to(&mut w).unwrap();
            lines.push(B(w));
        }
        let (v, s) = (if r.chance(1, 6) { b(b"") } else { text(r) }, if r.chance(1, 6) { b(b"") } else { text(r) });
        c.run("automatic reply, histories", (lines, v, s, i % 4 == 3), |(l, v, s, a)| auto_reply(l, v, s, *a));
    }
}
#[allow(unused)]
type _Unused = BTreeMap<u8, u8>;
