//! C10: reading and writing message streams.
use crate::common::*;
use crate::msg::*;
use crate::{ck, ckeq};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{BufRead, ErrorKind, Read, Write};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use vinezombie::ircmsg::{ClientCodec, ClientMsg, ServerCodec, ServerMsg};

pub const SERVER_LIMIT: usize = 8703;
pub const CLIENT_LIMIT: usize = 4608;

#[derive(Clone, Debug, Hash)]
pub enum Ev { Data(B), Block, Eof, Intr }

/// A stream that delivers its bytes in the given pieces, with interruptions.
struct Feed { evs: VecDeque<Ev>, cur: Vec<u8>, pos: usize }
impl Feed {
    fn new(evs: &[Ev]) -> Self { Feed { evs: evs.iter().cloned().collect(), cur: vec![], pos: 0 } }
    fn done(&self) -> bool { self.evs.is_empty() && self.pos == self.cur.len() }
    fn step(&mut self) -> std::io::Result<bool> {
        while self.pos == self.cur.len() {
            match self.evs.pop_front() {
                None | Some(Ev::Eof) => return Ok(false),
                Some(Ev::Data(d)) => { self.cur = d.0; self.pos = 0; }
                Some(Ev::Block) => { crate::vclock::advance(1_000_000_000); return Err(ErrorKind::WouldBlock.into()) }
                Some(Ev::Intr) => return Err(ErrorKind::Interrupted.into()),
            }
        }
        Ok(true)
    }
}
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let d = self.fill_buf()?;
        let n = d.len().min(buf.len());
        buf[..n].copy_from_slice(&d[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Feed {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { self.step()?; Ok(&self.cur[self.pos..]) }
    fn consume(&mut self, n: usize) { self.pos += n; }
}
impl tokio::io::AsyncRead for Feed {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let d = match tokio::io::AsyncBufRead::poll_fill_buf(self.as_mut(), cx) { Poll::Ready(Ok(d)) => d, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => return Poll::Pending };
        let n = d.len().min(buf.remaining());
        buf.put_slice(&d[..n]);
        self.consume(n);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for Feed {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let me = self.get_mut();
        match me.step() {
            Ok(_) => Poll::Ready(Ok(&me.cur[me.pos..])),
            Err(_) => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.pos += n; }
}

/// The lines that a stream holds, and what each stands for.
/// `None` for the message: the line is in error. `true`: nothing after this line is looked at.
fn expect(bytes: &[u8], server: bool) -> Vec<(Option<V>, bool)> {
    let limit = if server { SERVER_LIMIT } else { CLIENT_LIMIT };
    let mut out = vec![];
    let mut rest = bytes;
    loop {
        let end = rest.iter().position(|c| *c == b'\n');
        let raw_len = end.map(|e| e + 1).unwrap_or(usize::MAX);
        if raw_len > limit {
            if rest.len() >= limit { out.push((None, true)); }
            return out;
        }
        let mut l = &rest[..raw_len - 1];
        rest = &rest[raw_len..];
        while let Some((b'\r', x)) = l.split_last() { l = x; }
        if l.is_empty() { continue; }
        out.push((if valid(T::Line, l) { ref_parse(l, server) } else { None }, false));
    }
}
fn expect_codec(bytes: &[u8], server: bool) -> Vec<(Option<V>, bool)> {
    let limit = if server { SERVER_LIMIT } else { CLIENT_LIMIT };
    let mut out = vec![];
    let mut rest = bytes;
    loop {
        while let Some((c, x)) = rest.split_first() { if c.is_ascii_whitespace() { rest = x } else { break } }
        let end = rest.iter().position(|c| *c == b'\n').unwrap_or(usize::MAX - 1) + 1;
        let nul = rest.iter().position(|c| *c == 0).unwrap_or(usize::MAX - 1) + 1;
        if end.min(nul) > limit { if rest.len() >= limit { out.push((None, true)); } return out; }
        if nul < end { if nul <= rest.len() { out.push((None, true)); } return out; }
        if end > rest.len() { return out; }
        let mut l = &rest[..end - 1];
        rest = &rest[end..];
        while let Some((b'\r', x)) = l.split_last() { l = x; }
        out.push((if valid(T::Line, l) { ref_parse(l, server) } else { None }, false));
    }
}

enum Got { S(Option<V>), Again }
fn judge(r: Result<Result<V, String>, std::io::Error>, feed_done: bool) -> Result<Option<Got>, String> {
    match r {
        Ok(v) => Ok(Some(Got::S(Some(v?)))),
        Err(e) => match e.kind() {
            ErrorKind::WouldBlock => Ok(Some(Got::Again)),
            ErrorKind::UnexpectedEof => Ok((!feed_done).then_some(Got::Again)),
            ErrorKind::InvalidData => Ok(Some(Got::S(None))),
            k => Err(format!("unexpected error {k:?}")),
        },
    }
}
fn block_on<F: Future>(f: &mut Pin<Box<F>>, cancel: bool) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100_000 {
        match f.as_mut().poll(&mut cx) { Poll::Ready(x) => return Some(x), Poll::Pending => if cancel { return None } }
    }
    None
}

impl vinezombie::client::conn::ReadTimeout for Feed { fn set_read_timeout(&mut self, _: Option<std::time::Duration>) -> std::io::Result<()> { Ok(()) } }
impl vinezombie::client::conn::WriteTimeout for Trickle { fn set_write_timeout(&mut self, _: Option<std::time::Duration>) -> std::io::Result<()> { Ok(()) } }
/// Records every message, answers each one, and changes its mind about wanting owning messages.
struct Rec { got: std::sync::Arc<std::sync::Mutex<Vec<Option<Result<V, String>>>>>, keys: Vec<Vec<B>> }
impl vinezombie::client::Handler for Rec {
    type Value = ();
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut vinezombie::client::ClientState, mut queue: vinezombie::client::queue::QueueEditGuard<'_>, _: vinezombie::client::channel::SenderRef<'_, ()>) -> std::ops::ControlFlow<()> {
        let mut got = self.got.lock().unwrap();
        let n = got.len();
        got.push(Some(view_server(msg, self.keys.get(n).cloned().unwrap_or_default().into_iter())));
        let mut m = ClientMsg::new_cmd(vinezombie::string::Cmd::from_str("X"));
        m.args.edit().add_word(vinezombie::string::Arg::try_from(n.to_string()).unwrap());
        queue.push(m);
        std::ops::ControlFlow::Continue(())
    }
    fn wants_owning(&self) -> bool { self.got.lock().unwrap().len() % 2 == 1 }
}
impl vinezombie::client::SelfMadeHandler for Rec {
    type Receiver<S: vinezombie::client::channel::ChannelSpec> = ();
    fn queue_msgs(&self, _: &vinezombie::client::ClientState, _: vinezombie::client::queue::QueueEditGuard<'_>) {}
    fn make_channel<S: vinezombie::client::channel::ChannelSpec>(_: &S) -> (Box<dyn vinezombie::client::channel::Sender<Value = ()> + Send>, ()) { (Box::<vinezombie::client::channel::ClosedSender<_>>::default(), ()) }
}
/// The messages of a stream as a client's handler sees them. `how`: 0 synchronous, 1 tokio, 2 tokio with the future dropped at each suspension,
/// 3 and 4 synchronous with a queue that interrupts the reads (4: and a read timeout).
fn check_client(x: &(u8, Vec<Ev>, Vec<u8>)) -> R {
    if x.0 > 2 { crate::vclock::frozen(|| client_case(x)) } else { client_case(x) }
}
fn client_case(x: &(u8, Vec<Ev>, Vec<u8>)) -> R {
    use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
    let (how, evs, sizes) = (x.0, &x.1, &x.2);
    let all: Vec<u8> = evs.iter().flat_map(|e| match e { Ev::Data(d) => d.0.clone(), _ => vec![] }).collect();
    let mut want = expect(&all, true);
    // An error ends the connection.
    if let Some(i) = want.iter().position(|w| w.0.is_none()) { want.truncate(i + 1); }
    let fails = want.last().is_some_and(|w| w.0.is_none());
    let got = std::sync::Arc::<std::sync::Mutex<Vec<Option<Result<V, String>>>>>::default();
    let keys = want.iter().map(|(v, _)| v.as_ref().map(|v| v.tags.keys().cloned().collect()).unwrap_or_default()).collect();
    let evs: Vec<Ev> = evs.iter().filter(|e| !matches!(e, Ev::Eof)).cloned().collect();
    let out = Trickle { out: vec![], sizes: if how == 2 { vec![200] } else { sizes.clone() }, i: 0, fail_at: usize::MAX };
    let mut c = Client::new(Bidir(Feed::new(&evs), out), SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 0);
    let waits = if how > 2 { 9 } else { 0 };
    if how > 2 { c.queue_mut().set_rate_limit(std::time::Duration::from_secs(1), 0); }
    if how == 4 { c.set_read_timeout(Some(std::time::Duration::from_millis(700))); }
    for _ in 0..waits { c.queue_mut().edit().push(ClientMsg::new(vinezombie::names::cmd::PING)); }
    c.add((), Rec { got: got.clone(), keys }).unwrap();
    let mut calls = 0;
    let mut failed = false;
    loop {
        calls += 1;
        ck!(calls < 4 * (evs.len() + all.len()) + 100, "no progress");
        let r = match how {
            0 | 3 | 4 => c.run().map(|r| r.is_some()),
            _ => match block_on(&mut Box::pin(c.run_tokio()), how == 2) { Some(r) => r.map(|r| r.is_some()), None => continue },
        };
        match r {
            Ok(v) => ck!(!v, "results of a handler that has none"),
            Err(e) if e.kind() == ErrorKind::UnexpectedEof => break,
            Err(e) => { ck!(e.kind() == ErrorKind::InvalidData, "unexpected error {e:?}"); failed = true; break; }
        }
    }
    let got = std::mem::take(&mut *got.lock().unwrap());
    let n = want.len() - fails as usize;
    for (i, w) in want[..n].iter().enumerate() {
        ck!(i < got.len(), "message {i} of {n} was not delivered: {w:?}");
        ckeq!(got[i].clone().transpose()?, w.0, "message {i}");
    }
    ckeq!(got.len(), n, "number of messages");
    ckeq!(failed, fails, "reported failure");
    let Bidir(_, w) = c.take_conn();
    let sent: Vec<u8> = (0..waits).map(|_| "PING\r\n".to_string()).chain((0..n).map(|i| format!("X {i}\r\n"))).flat_map(|s| s.into_bytes()).collect();
    // The rate limit may keep some of them back.
    let k = if how > 2 { ck!(w.out.is_empty() || w.out.ends_with(b"\n"), "half a line sent: {:?}", b(&w.out)); w.out.len().min(sent.len()) } else { sent.len() };
    ckeq!(b(&w.out), b(&sent[..k]), "bytes sent");
    Ok(n > 0)
}

/// `how`: 0 owning, 1 borrowing, 2 tokio owning, 3 tokio borrowing, 4/5 the same with the
/// future dropped at each suspension, 6 through Decoder.
fn check_stream(x: &(bool, u8, Vec<Ev>)) -> R {
    let (server, how, evs) = (x.0, x.1, &x.2);
    let all: Vec<u8> = evs.iter().flat_map(|e| match e { Ev::Data(d) => d.0.clone(), _ => vec![] }).collect();
    let want = if how == 6 { expect_codec(&all, server) } else { expect(&all, server) };
    let mut got: Vec<Option<V>> = vec![];
    let keysets: Vec<Vec<B>> = want.iter().map(|(v, _)| v.as_ref().map(|v| v.tags.keys().cloned().collect()).unwrap_or_default()).collect();
    let keys = |i: usize| keysets.get(i).cloned().unwrap_or_default().into_iter();
    if how == 6 {
        use tokio_util::bytes::BytesMut;
        use tokio_util::codec::Decoder;
        let mut buf = BytesMut::new();
        'o: for e in evs {
            if let Ev::Data(d) = e { buf.extend_from_slice(d); }
            loop {
                let i = got.len();
                let r = if server { ClientCodec.decode(&mut buf).map(|m| m.map(|m| view_server(&m, keys(i)))) } else { ServerCodec.decode(&mut buf).map(|m| m.map(|m| view_client(&m, keys(i)))) };
                match r {
                    Ok(None) => break,
                    Ok(Some(v)) => got.push(Some(v?)),
                    Err(e) => { ck!(e.kind() == ErrorKind::InvalidData, "unexpected error {e:?}"); got.push(None); }
                }
                if want.get(got.len() - 1).map(|w| w.1).unwrap_or(true) { break 'o; }
            }
        }
    } else {
        let mut feed = Feed::new(evs);
        let mut buf = vec![];
        let mut calls = 0;
        loop {
            calls += 1;
            ck!(calls < 4 * (evs.len() + all.len()) + 100, "no progress");
            let i = got.len();
            let r = match (how, server) {
                (0, true) => ClientCodec::read_owning_from(&mut feed, &mut buf).map(|m| view_server(&m, keys(i))),
                (0, false) => ServerCodec::read_owning_from(&mut feed, &mut buf).map(|m| view_client(&m, keys(i))),
                (1, true) => ClientCodec::read_borrowing_from(&mut feed, &mut buf).map(|m| view_server(&m, keys(i))),
                (1, false) => ServerCodec::read_borrowing_from(&mut feed, &mut buf).map(|m| view_client(&m, keys(i))),
                (2 | 4, true) => match block_on(&mut Box::pin(ClientCodec::read_owning_from_tokio(&mut feed, &mut buf)), how == 4) { Some(r) => r.map(|m| view_server(&m, keys(i))), None => continue },
                (2 | 4, false) => match block_on(&mut Box::pin(ServerCodec::read_owning_from_tokio(&mut feed, &mut buf)), how == 4) { Some(r) => r.map(|m| view_client(&m, keys(i))), None => continue },
                (_, true) => match block_on(&mut Box::pin(ClientCodec::read_borrowing_from_tokio(&mut feed, &mut buf)), how == 5) { Some(r) => r.map(|m| view_server(&m, keys(i))), None => continue },
                (_, false) => match block_on(&mut Box::pin(ServerCodec::read_borrowing_from_tokio(&mut feed, &mut buf)), how == 5) { Some(r) => r.map(|m| view_client(&m, keys(i))), None => continue },
            };
            match judge(r, feed.done())? {
                None => break,
                Some(Got::Again) => (),
                Some(Got::S(v)) => {
                    got.push(v);
                    buf.clear();
                    if want.get(got.len() - 1).map(|w| w.1).unwrap_or(true) { break; }
                }
            }
        }
    }
    let n = want.iter().position(|w| w.1).map(|i| i + 1).unwrap_or(want.len());
    for (i, w) in want[..n].iter().enumerate() {
        ck!(i < got.len(), "message {i} of {n} was not delivered: {w:?}");
        ckeq!(got[i], w.0, "message {i}");
    }
    ckeq!(got.len(), n, "number of messages");
    Ok(want.iter().any(|w| w.0.is_some()))
}

struct Trickle { out: Vec<u8>, sizes: Vec<u8>, i: usize, fail_at: usize }
impl Write for Trickle {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()] as usize;
        self.i += 1;
        if self.i > self.fail_at { return Err(ErrorKind::BrokenPipe.into()); }
        if n == 0 { return Err(ErrorKind::Interrupted.into()); }
        let n = n.min(d.len());
        self.out.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl tokio::io::AsyncWrite for Trickle {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, d: &[u8]) -> Poll<std::io::Result<usize>> {
        match Write::write(&mut *self, d) { Err(e) if e.kind() == ErrorKind::Interrupted => Poll::Pending, r => Poll::Ready(r) }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
/// Messages written one after the other come out as one line each and are read back the same.
fn check_write(x: &(bool, u8, Vec<M>, Vec<u8>, B)) -> R {
    let (server, how, ms, sizes, junk) = (x.0, x.1, &x.2, &x.3, &x.4);
    let limit = if server { SERVER_LIMIT } else { CLIENT_LIMIT };
    let mut w = Trickle { out: vec![], sizes: sizes.clone(), i: 0, fail_at: usize::MAX };
    let mut buf = junk.0.clone();
    let mut plain = junk.0.clone();
    let mut bm = tokio_util::bytes::BytesMut::new();
    let mut views = vec![];
    for m in ms {
        let mut one = vec![];
        use tokio_util::codec::Encoder;
        if server {
            let msg = mk_server(m);
            ServerCodec::write_to(&msg, &mut one).unwrap();
            if one.len() + 2 > limit { continue; }
            match how {
                0 => ServerCodec::send_to(&msg, &mut w, &mut buf).map_err(|e| format!("{e}"))?,
                1 => block_on(&mut Box::pin(ServerCodec::send_to_tokio(&msg, &mut w, &mut buf)), false).unwrap().map_err(|e| format!("{e}"))?,
                _ => ServerCodec.encode(msg, &mut bm).map_err(|e| format!("{e}"))?,
            }
        } else {
            let msg = mk_client(m);
            ClientCodec::write_to(&msg, &mut one).unwrap();
            if one.len() + 2 > limit { continue; }
            match how {
                0 => ClientCodec::send_to(&msg, &mut w, &mut buf).map_err(|e| format!("{e}"))?,
                1 => block_on(&mut Box::pin(ClientCodec::send_to_tokio(&msg, &mut w, &mut buf)), false).unwrap().map_err(|e| format!("{e}"))?,
                _ => ClientCodec.encode(msg, &mut bm).map_err(|e| format!("{e}"))?,
            }
        }
        ck!(!one.iter().any(|c| matches!(c, 0 | 10 | 13)), "line break inside a written message");
        plain.extend_from_slice(&one);
        plain.extend_from_slice(b"\r\n");
        ck!(how > 1 || buf.is_empty(), "buffer not cleared after sending");
        views.push(view_m(m, server));
    }
    let out = if how > 1 { plain.drain(..junk.len()); bm.to_vec() } else { w.out };
    if views.is_empty() { return Ok(false); }
    ckeq!(b(&out), b(&plain), "sent bytes");
    // And back in.
    let body = if how > 1 { out } else { out[junk.len()..].to_vec() };
    let mut rd = &body[..];
    let mut buf = vec![];
    for (i, v) in views.iter().enumerate() {
        let keys = v.tags.keys().cloned().collect::<Vec<_>>().into_iter();
        let g = if server { view_server(&ClientCodec::read_owning_from(&mut rd, &mut buf).map_err(|e| format!("reading back message {i}: {e}"))?, keys)? } else { view_client(&ServerCodec::read_owning_from(&mut rd, &mut buf).map_err(|e| format!("reading back message {i}: {e}"))?, keys)? };
        ckeq!(g, *v, "message {i} read back");
    }
    ck!(rd.is_empty(), "bytes left over");
    Ok(true)
}

fn line(r: &mut Rng, server: bool) -> Vec<u8> {
    let mut l = match r.below(10) {
        0 => vec![],
        1 => r.bytes(b" :@;=!\0\r\tA\x0c", |c| c != b'\n'),
        2 => { let n = r.below(4); vec![b' '; n] }
        3 => { // around the limit
            let lim = if server { SERVER_LIMIT } else { CLIENT_LIMIT };
            let n = (lim + r.below(7)).saturating_sub(4);
            let mut v = b"PING :".to_vec();
            while v.len() < n { v.push(b'a' + (v.len() % 26) as u8); }
            if r.chance(1, 4) { *v.last_mut().unwrap() = *r.pick(b"\r\0 "); }
            v
        }
        _ => { let m = gen_msg(r, server); let mut o = vec![]; if server { ServerCodec::write_to(&mk_server(&m), &mut o).unwrap() } else { ClientCodec::write_to(&mk_client(&m), &mut o).unwrap() }; o }
    };
    if r.chance(1, 12) { l.insert(0, *r.pick(b" \t\r")); }
    l.extend_from_slice(*r.pick(&[b"\r\n".as_slice(), b"\r\n", b"\r\n", b"\n", b"\r\r\n", b"\n\r\n"]));
    l
}
fn cut(r: &mut Rng, bytes: &[u8]) -> Vec<Ev> {
    let mut evs = vec![];
    let mut p = 0;
    let style = r.below(4);
    while p < bytes.len() {
        let n = match style { 0 => bytes.len(), 1 => 1 + r.below(3), 2 => 1 + r.below(40), _ => 1 + r.below(700) }.min(bytes.len() - p);
        evs.push(Ev::Data(b(&bytes[p..p + n])));
        p += n;
        if r.chance(1, 4) { evs.push(r.pick(&[Ev::Block, Ev::Block, Ev::Eof, Ev::Intr]).clone()); }
        if evs.len() > 3000 { evs.push(Ev::Data(b(&bytes[p..]))); break; }
    }
    evs
}
/// Streams through a client whose handler answers every message.
pub fn client_streams(c: &mut Ctx, n: u64) {
    for _ in 0..n {
        if c.over() || c.failed() { return; }
        let k = c.rng.below(7);
        let mut all = vec![];
        for _ in 0..k { all.extend(line(&mut c.rng, true)); }
        let evs = cut(&mut c.rng, &all);
        let mut sizes: Vec<u8> = (0..c.rng.range(1, 5)).map(|_| c.rng.below(90) as u8).collect();
        sizes.push(7);
        let how = c.rng.below(3) as u8;
        c.run("through a client", (how, evs, sizes), check_client);
    }
}
pub fn c10(c: &mut Ctx) {
    // Every short stream over the interesting bytes, in one piece and byte by byte with a
    // suspension after each byte.
    exhaustive(b"A\r\n \0:", 5, |s| {
        let one = vec![Ev::Data(b(s))];
        let split: Vec<Ev> = s.iter().flat_map(|x| [Ev::Data(b([*x])), Ev::Block]).collect();
        let eof: Vec<Ev> = s.iter().flat_map(|x| [Ev::Eof, Ev::Data(b([*x]))]).collect();
        for how in 0..7 {
            c.run("short stream, whole", (how % 2 == 0, how, one.clone()), check_stream);
            c.run("short stream, by the byte", (how % 2 == 1, how, split.clone()), check_stream);
            c.run("short stream, with ends of file", (how % 2 == 0, how, eof.clone()), check_stream);
        }
        !c.failed() && !c.over()
    });
    // The size limit.
    for server in [true, false] {
        let lim = if server { SERVER_LIMIT } else { CLIENT_LIMIT };
        for d in 0..12 { for how in 0..7 { for end in [b"\n".as_slice(), b"\r\n"] {
            let total = lim + d - 6;
            let mut v = b"PING :".to_vec();
            while v.len() + end.len() < total { v.push(b'x'); }
            v.extend_from_slice(end);
            c.run("around the size limit", (server, how, vec![Ev::Data(b(&v)), Ev::Data(b("PING b\r\n"))]), check_stream);
            let k = v.len() - 3;
            c.run("around the size limit, cut", (server, how, vec![Ev::Data(b(&v[..100])), Ev::Block, Ev::Data(b(&v[100..k])), Ev::Block, Ev::Data(b(&v[k..])), Ev::Data(b("PING b\r\n"))]), check_stream);
        } } }
    }
    let vclk = crate::vclock::works();
    let n = c.iters(6_000);
    for _ in 0..n {
        let server = c.rng.chance(1, 2);
        let k = c.rng.below(7);
        let mut all = vec![];
        for _ in 0..k { all.extend(line(&mut c.rng, server)); }
        if c.rng.chance(1, 3) { let l = line(&mut c.rng, server); let n = c.rng.below(l.len()); all.extend_from_slice(&l[..n]); }
        let evs = cut(&mut c.rng, &all);
        let how = c.rng.below(7) as u8;
        c.run("random stream", (server, how, evs), check_stream);
        let k = c.rng.range(1, 4);
        let ms: Vec<M> = (0..k).map(|_| gen_msg(&mut c.rng, server)).collect();
        let mut sizes: Vec<u8> = (0..c.rng.range(1, 5)).map(|_| c.rng.below(90) as u8).collect();
        sizes.push(7);
        let junk = if c.rng.chance(1, 3) { b("PING earlier\r\n") } else { b("") };
        let how = c.rng.below(3) as u8;
        if server { let evs = cut(&mut c.rng, &all); let how = c.rng.below(if vclk { 5 } else { 3 }) as u8; c.run("through a client", (how, evs, sizes.clone()), check_client); }
        c.run("writing", (server, how, ms, sizes, junk), check_write);
        if c.over() || c.failed() { break; }
    }
    let _ = std::mem::size_of::<(ClientMsg, ServerMsg)>();
}
