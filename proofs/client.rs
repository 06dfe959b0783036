//@meta property C10 C17 C18
//@meta assume Instants and Durations stay representable
//@meta assume a timeout function uses the public methods of ClientLogic only
//@meta assume an .await is no step of its own; a read future dropped by timed_io leaves what an interrupted read leaves; a write future is not dropped
//@meta assume the read stubs of a connection are BufRead and Write over two byte streams that do not affect each other
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::multiset::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include error.inc
//@include readspec.inc
//@include handlerspec.inc
// ---- Trusted contracts on the standard library and tokio ----
#[verifier::external_body]
pub struct IoError { x: u8 }
pub enum ErrorKind { UnexpectedEof, WouldBlock, InvalidData, InvalidInput, Interrupted, TimedOut, Other }
impl IoError {
    pub uninterp spec fn why(&self) -> Why;
    pub uninterp spec fn of(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new(k: ErrorKind, s: &str) -> (r: IoError) ensures r.of() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.of() { unimplemented!() }
}
/// The reader's own errors are never those of an operation that is to be tried again (codec.rs: InvalidData, UnexpectedEof).
pub broadcast axiom fn own_errors(e: IoError) ensures (#[trigger] e.of() is TimedOut || e.of() is WouldBlock) ==> e.why() is Io;
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Duration { x: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Instant { x: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, d: Duration) -> Option<Instant> { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn is_zero(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> Duration { unimplemented!() }
    #[verifier::external_body]
    pub fn max(a: Duration, b: Duration) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).out() == old(self).out() + b@;
    fn flush(&mut self) -> (r: Result<(), IoError>) ensures final(self).out() == old(self).out();
}
/// What is still to come. `same`: what reading leaves alone: what was written to the other side, and which connection it is.
pub trait BufRead {
    spec fn coming(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn same(&self, o: &Self) -> bool;
}
// ---- Messages, by the contracts proved in message.rs ----
#[verifier::external_body]
pub struct ServerMsg<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct ClientMsg<'a> { _p: core::marker::PhantomData<&'a u8> }
pub uninterp spec fn ServerMsg_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn ServerMsg_is<'a>(m: ServerMsg<'a>, s: Seq<u8>) -> bool;
pub struct ClientCodec;
impl ClientCodec {
    /// The bytes of a message.
    #[verifier::external_body]
    pub fn write_to(m: &ClientMsg<'static>, out: &mut Vec<u8>) -> (r: Result<(), IoError>) ensures r is Ok, final(out)@ == old(out)@ + wire(*m) { unimplemented!() }
//@for F,L in read_owning_from,'static read_owning_from_tokio,'static
    /// Proved in codec.rs.
    #[verifier::external_body]
    pub fn {F}<R: BufRead>(read: &mut R, buf: &mut Vec<u8>) -> (r: Result<ServerMsg<'static>, IoError>)
        requires no_nl(old(buf)@),
        ensures (*final(read)).same(&*old(read)), match r {
            Ok(m) => (next(old(buf)@ + (*old(read)).coming(), 8703) matches Next::Line(body, rest) && ServerMsg_is(m, body)
                && reads(old(buf)@ + (*old(read)).coming(), 8703, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| ServerMsg_ok(x), Ok(body))),
            Err(e) => reads(old(buf)@ + (*old(read)).coming(), 8703, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| ServerMsg_ok(x), Err(e.why())),
        } { unimplemented!() }
//@endfor
//@for F in read_borrowing_from read_borrowing_from_tokio
    /// Proved in codec.rs.
    #[verifier::external_body]
    pub fn {F}<'a, R: BufRead>(read: &mut R, buf: &'a mut Vec<u8>) -> (r: Result<ServerMsg<'a>, IoError>)
        requires no_nl(old(buf)@),
        ensures (*final(read)).same(&*old(read)), match r {
            Ok(m) => (next(old(buf)@ + (*old(read)).coming(), 8703) matches Next::Line(body, rest) && ServerMsg_is(m, body)
                && reads(old(buf)@ + (*old(read)).coming(), 8703, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| ServerMsg_ok(x), Ok(body))),
            Err(e) => reads(old(buf)@ + (*old(read)).coming(), 8703, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| ServerMsg_ok(x), Err(e.why())),
        } { unimplemented!() }
//@endfor
}
pub uninterp spec fn wire(m: ClientMsg<'static>) -> Seq<u8>;
// ---- The queue, by the contracts proved in queue.rs ----
#[verifier::external_body]
pub struct Queue { x: u8 }
impl Queue {
    pub uninterp spec fn q(&self) -> Seq<ClientMsg<'static>>;
    pub uninterp spec fn tellable(&self) -> bool;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.q().len() == 0) { unimplemented!() }
    /// pop(|t| *wait = t)
    #[verifier::external_body]
    pub fn pop_wait(&mut self, wait: &mut Option<Duration>, Tracked(clock): Tracked<&mut Clock>) -> (r: Option<ClientMsg<'static>>)
        requires old(self).tellable(),
        ensures final(self).tellable(), match r {
            Some(m) => old(self).q().len() > 0 && m == old(self).q()[0] && final(self).q() == old(self).q().drop_first() && *final(wait) == *old(wait),
            None => final(self).q() == old(self).q() && (*final(wait) is None) == (old(self).q().len() == 0),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn adjust(&mut self, msg: &ServerMsg<'_>) ensures final(self).tellable() == old(self).tellable() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self, Tracked(clock): Tracked<&mut Clock>) ensures final(self).q().len() == 0, final(self).tellable() == old(self).tellable() { unimplemented!() }
    #[verifier::external_body]
    pub fn edit(&mut self) -> (r: QueueEditGuard<'_>) ensures r.cur() == *old(self), r.end() == *final(self) { unimplemented!() }
}
/// The guard: what the queue is, and what it will be when the guard is gone.
pub struct QueueEditGuard<'a> { pub queue: &'a mut Queue, pub orig_len: usize }
impl<'a> QueueEditGuard<'a> {
    pub open spec fn cur(&self) -> Queue { *self.queue }
    #[verifier::prophetic]
    pub open spec fn end(&self) -> Queue { *final(self.queue) }
}
#[verifier::external_body]
pub struct Clock { x: u8 }
/// Box<dyn Handler<Value = T>> and Box<dyn Sender<Value = T>>.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DynHandler<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DynSender<T> { p: core::marker::PhantomData<T> }
pub trait ChannelSpec: Sized { }
/// Makers of handlers reach the queue through the guard only, whose methods keep what was queued before it and the rate limit (queue.rs).
pub trait MakeHandler<T>: Sized {
    type Value;
    type Error;
    type Receiver;
    fn make_handler(self, state: &ClientState, queue: QueueEditGuard<'_>, value: T) -> (r: Result<DynHandler<Self::Value>, Self::Error>)
        ensures queue.end().tellable() == queue.cur().tellable(), queue.cur().q() =~= queue.end().q().take(queue.cur().q().len() as int), queue.cur().q().len() <= queue.end().q().len();
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (DynSender<Self::Value>, Self::Receiver);
}
// ---- Handlers, by the contracts proved in handlers.rs ----
#[verifier::external_body]
pub struct Handlers { x: u8 }
impl Handlers {
    pub uninterp spec fn live(&self) -> Seq<Slot>;
    pub uninterp spec fn free(&self) -> Seq<usize>;
    pub uninterp spec fn out(&self) -> Seq<usize>;
    pub open spec fn inv(&self) -> bool { ids_ok(self.live(), self.free()) }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.live().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn wants_owning(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn add<T>(&mut self, handler: DynHandler<T>, sender: DynSender<T>) -> (r: usize)
        requires old(self).inv(),
        ensures final(self).inv(), final(self).live().len() == old(self).live().len() + 1, final(self).live().drop_last() == old(self).live(), final(self).live().last().1 == r,
            forall|i: int| 0 <= i < old(self).live().len() ==> (#[trigger] old(self).live()[i]).1 != r { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel(&mut self) ensures final(self).inv(), final(self).live().len() == 0, final(self).free().len() == 0, final(self).out().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn has_results(&self, finished_at: usize) -> (r: bool) ensures r == (self.out().len() > 0 || self.free().len() > finished_at) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_run_results(&self, finished_at: usize) -> (r: (&[usize], &[usize])) requires finished_at <= self.free().len() ensures r.0@ == self.out(), r.1@ == self.free().skip(finished_at as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle(&mut self, msg: &ServerMsg<'_>, state: &mut ClientState, queue: &mut Queue, Tracked(log): Tracked<&mut Log>) -> (r: usize)
        requires old(self).inv(),
        ensures final(self).inv(), r == old(self).free().len(), final(queue).tellable() == old(queue).tellable(),
            exists|e: Seq<Visit>| ran(old(self).live(), final(self).live(), e)
                && final(log)@.len() == old(log)@.len() + e.len() && final(log)@.take(old(log)@.len() as int) == old(log)@ && logged(final(log)@.skip(old(log)@.len() as int), e, content(*msg))
                && final(self).out() == yielded_of(e) && final(self).free() == old(self).free() + ids(#[trigger] done_of(e)) { unimplemented!() }
}
#[verifier::external_body]
pub struct ClientState { x: u8 }
impl ClientState {
    #[verifier::external_body]
    pub fn clear(&mut self) { unimplemented!() }
}
// ---- Specification ----
/// What happens on one message: its content, the handlers that were live before and after, and what each was asked and answered.
pub struct Round { pub msg: int, pub before: Seq<Slot>, pub after: Seq<Slot>, pub e: Seq<Visit> }
pub open spec fn round(l0: Seq<Call<'static>>, l1: Seq<Call<'static>>, r: Round) -> bool {
    ran(r.before, r.after, r.e) && l1.len() == l0.len() + r.e.len() && l1.take(l0.len() as int) == l0 && logged(l1.skip(l0.len() as int), r.e, r.msg)
}
/// The calls between two points are those of the rounds, one after another.
pub open spec fn rounds(l0: Seq<Call<'static>>, l1: Seq<Call<'static>>, h: Seq<Round>) -> bool {
    exists|w: Seq<Seq<Call<'static>>>| #[trigger] w.len() == h.len() + 1 && w[0] == l0 && w.last() == l1 && forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> round(w[i], w[i + 1], h[i])
}
/// Message `c` is the line `l`.
pub open spec fn line_of(c: int, l: Seq<u8>) -> bool { exists|m: ServerMsg<'_>| #[trigger] ServerMsg_is(m, l) && content(m) == c }
/// C10, C18: the messages of the rounds are the next lines of the stream `s`, one round each, and `t` is what remains of it.
pub open spec fn handed(s: Seq<u8>, h: Seq<Round>, t: Seq<u8>) -> bool {
    exists|w: Seq<Seq<u8>>| #[trigger] w.len() == h.len() + 1 && next(w[0], 8703) == next(s, 8703) && next(w.last(), 8703) == next(t, 8703) && forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> took(w[i], w[i + 1], h[i].msg)
}
pub open spec fn took(s: Seq<u8>, t: Seq<u8>, c: int) -> bool { next(s, 8703) matches Next::Line(l, rest) && line_of(c, l) && next(t, 8703) == next(rest, 8703) }
/// The handlers that are live in one round are those the round before left.
pub open spec fn chained(a: Seq<Slot>, h: Seq<Round>, b: Seq<Slot>) -> bool {
    if h.len() == 0 { b == a } else { h[0].before == a && h.last().after == b && forall|i: int| 0 <= i < h.len() - 1 ==> (#[trigger] h[i]).after == h[i + 1].before }
}
/// The bytes of some messages, each on its line.
pub open spec fn wires(m: Seq<ClientMsg<'static>>) -> Seq<u8> decreases m.len() { if m.len() == 0 { Seq::empty() } else { wires(m.drop_last()) + wire(m.last()) + seq![13u8, 10u8] } }
pub open spec fn no_results(r: Round) -> bool { yielded_of(r.e).len() == 0 && done_of(r.e).len() == 0 }
proof fn wires_add(a: Seq<ClientMsg<'static>>, b: Seq<ClientMsg<'static>>)
    ensures wires(a + b) == wires(a) + wires(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(wires(a) + wires(b) =~= wires(a)); }
    else { wires_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(wires(a + b) =~= wires(a) + wires(b)); }
}
proof fn handed_same(s: Seq<u8>, h: Seq<Round>, t: Seq<u8>, t2: Seq<u8>)
    requires handed(s, h, t), next(t, 8703) == next(t2, 8703),
    ensures handed(s, h, t2),
{ }
proof fn handed_more(s: Seq<u8>, h: Seq<Round>, m: Seq<u8>, r: Round, l: Seq<u8>, rest: Seq<u8>)
    requires handed(s, h, m), next(m, 8703) == Next::Line(l, rest), line_of(r.msg, l),
    ensures handed(s, h.push(r), rest),
{
    let w = choose|w: Seq<Seq<u8>>| #[trigger] w.len() == h.len() + 1 && next(w[0], 8703) == next(s, 8703) && next(w.last(), 8703) == next(m, 8703) && forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> took(w[i], w[i + 1], h[i].msg);
    let w2 = w.push(rest);
    let h2 = h.push(r);
    assert forall|i: int| #![trigger h2[i]] 0 <= i < h2.len() implies took(w2[i], w2[i + 1], h2[i].msg) by { if i < h.len() { assert(h2[i] == h[i]); } }
    assert(w2.len() == h2.len() + 1);
}
proof fn rounds_more(l0: Seq<Call<'static>>, m: Seq<Call<'static>>, l1: Seq<Call<'static>>, h: Seq<Round>, r: Round)
    requires rounds(l0, m, h), round(m, l1, r),
    ensures rounds(l0, l1, h.push(r)),
{
    let w = choose|w: Seq<Seq<Call<'static>>>| #[trigger] w.len() == h.len() + 1 && w[0] == l0 && w.last() == m && forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> round(w[i], w[i + 1], h[i]);
    let w2 = w.push(l1);
    let h2 = h.push(r);
    assert forall|i: int| #![trigger h2[i]] 0 <= i < h2.len() implies round(w2[i], w2[i + 1], h2[i]) by { if i < h.len() { assert(h2[i] == h[i]); } }
    assert(w2.len() == h2.len() + 1);
}
proof fn chained_more(a: Seq<Slot>, h: Seq<Round>, r: Round)
    requires chained(a, h, r.before),
    ensures chained(a, h.push(r), r.after),
{
    let h2 = h.push(r);
    assert forall|i: int| 0 <= i < h2.len() - 1 implies (#[trigger] h2[i]).after == h2[i + 1].before by { assert(h2[i] == h[i]); if i < h.len() - 1 { assert(h[i].after == h[i + 1].before); } }
}
proof fn at_start(s: Seq<u8>, l: Seq<Call<'static>>)
    ensures handed(s, Seq::empty(), s), rounds(l, l, Seq::empty()),
{
    let w = seq![s]; let v = seq![l];
    assert(w.len() == 0 + 1 && v.len() == 0 + 1);
    assert(w.len() == Seq::<Round>::empty().len() + 1); assert(v.len() == Seq::<Round>::empty().len() + 1);
}
/// What a run reports.
pub open spec fn reported(h: Seq<Round>, y: Seq<usize>, f: Seq<usize>) -> bool {
    h.len() > 0 && (forall|i: int| 0 <= i < h.len() - 1 ==> no_results(#[trigger] h[i])) && y == yielded_of(h.last().e) && f == ids(done_of(h.last().e)) && y.len() + f.len() > 0
}
pub open spec fn unreported(h: Seq<Round>) -> bool { forall|i: int| 0 <= i < h.len() ==> no_results(#[trigger] h[i]) }
#[verifier::external_body]
pub fn no_ids() -> (r: (&'static [usize], &'static [usize])) ensures r.0@.len() == 0, r.1@.len() == 0 { unimplemented!() }
// ---- The code ----
//@item src/client/conn.rs :: struct MsgIo
//@attr
pub
//@end
//@item src/client/conn/time.rs :: struct TimeLimits
//@attr
pub
//@sub /\b(read|write|update_write): / => pub \1:  ## visibility
//@end
//@item src/client/logic.rs :: pub struct ClientLogic
//@sub /pub\(super\)/ => pub ## visibility
//@end
/// Box<dyn FnMut(&mut ClientLogic) -> ControlFlow<()>>: any function of the public methods.
#[verifier::external_body]
pub struct BoxTimeout { x: u8 }
pub enum ControlFlow<B> { Continue(()), Break(B) }
impl<B> ControlFlow<B> {
    pub fn is_break(&self) -> (r: bool) ensures r == (*self is Break) { match self { ControlFlow::Break(_) => true, _ => false } }
    pub fn is_continue(&self) -> (r: bool) ensures r == (*self is Continue) { match self { ControlFlow::Continue(_) => true, _ => false } }
}
impl BoxTimeout {
    #[verifier::external_body]
    pub fn call(&mut self, logic: &mut ClientLogic) -> (r: ControlFlow<()>) requires old(logic).inv() ensures final(logic).inv() { unimplemented!() }
}
//@item src/client.rs :: pub struct Client
//@attr
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(S)]
//@sub /Option<Box<dyn FnMut\(&mut ClientLogic\) -> ControlFlow<\(\)> \+ Send>>/ => Option<BoxTimeout> ## dyn
//@sub /Box<ClientLogic>/ => ClientLogic ## Box
//@sub /conn::MsgIo/ => MsgIo ## path
//@sub /\b(conn|spec|logic|on_timeout): / => pub \1:  ## visibility
//@end
/// C18: a handler was added as `id`, or none was and nothing else changed; whatever its maker queued comes after what was queued before (C17).
pub open spec fn added<E>(a: ClientLogic, b: ClientLogic, r: Result<usize, E>) -> bool {
    b.timeout == a.timeout && b.state == a.state && a.queue.q().len() <= b.queue.q().len() && b.queue.q().take(a.queue.q().len() as int) == a.queue.q() && match r {
        Ok(id) => b.handlers.live().len() == a.handlers.live().len() + 1 && b.handlers.live().drop_last() == a.handlers.live() && b.handlers.live().last().1 == id
            && forall|i: int| 0 <= i < a.handlers.live().len() ==> (#[trigger] a.handlers.live()[i]).1 != id,
        Err(_) => b.handlers == a.handlers,
    }
}
pub open spec fn first<A, B, E>(r: Result<(A, B), E>) -> Result<A, E> { match r { Ok(x) => Ok(x.0), Err(e) => Err(e) } }
impl ClientLogic {
    pub open spec fn inv(&self) -> bool { self.queue.tellable() && self.handlers.inv() }
//@fn src/client/logic.rs :: impl ClientLogic :: add_with_spec
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), added(*old(self), *final(self), first(r)),
//@sub /M::Receiver<S2>/ => M::Receiver ## generic associated type
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: add_with_sender
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), added(*old(self), *final(self), r),
//@sub /Box<dyn Sender<Value = M::Value> \+ Send>/ => DynSender<M::Value> ## dyn
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: set_read_timeout
//@spec
        ensures final(self).queue == old(self).queue, final(self).state == old(self).state, final(self).handlers == old(self).handlers,
//@sub /std::time::Duration/ => Duration ## path
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: set_write_timeout
//@spec
        ensures final(self).queue == old(self).queue, final(self).state == old(self).state, final(self).handlers == old(self).handlers,
//@sub /std::time::Duration/ => Duration ## path
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: with_queue
//@ret r
//@spec
        ensures r.queue == queue, r.state == self.state, r.handlers == self.handlers, r.timeout == self.timeout,
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: with_state
//@ret r
//@spec
        ensures r.queue == self.queue, r.state == state, r.handlers == self.handlers, r.timeout == self.timeout,
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: queue_mut
//@ret r
//@spec
        ensures *r == old(self).queue, *final(self) == (ClientLogic { queue: *final(r), ..*old(self) }),
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: state_mut
//@ret r
//@spec
        ensures *r == old(self).state, *final(self) == (ClientLogic { state: *final(r), ..*old(self) }),
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: needs_run
//@ret r
//@spec
        ensures r == (self.handlers.live().len() > 0 || self.queue.q().len() > 0),
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: reset
//@spec
        // C18: no handler, message or identifier of the old connection survives.
        ensures final(self).handlers.inv(), final(self).handlers.live().len() == 0, final(self).handlers.free().len() == 0, final(self).handlers.out().len() == 0, final(self).queue.q().len() == 0, final(self).queue.tellable() == old(self).queue.tellable(),
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /self\.queue\.reset\(\)/ => self.queue.reset(Tracked(clock)) ## ghost clock
//@end
//@fn src/client/logic.rs :: impl ClientLogic :: run_once
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).timeout == old(self).timeout, r == old(self).handlers.free().len(),
            exists|e: Seq<Visit>| round(old(log)@, final(log)@, Round { msg: content(*msg), before: old(self).handlers.live(), after: final(self).handlers.live(), e })
                && final(self).handlers.out() == yielded_of(e) && final(self).handlers.free() == old(self).handlers.free() + ids(#[trigger] done_of(e)),
//@sub /pub\(super\) fn/ => pub fn ## visibility
//@sub /crate::ircmsg::ServerMsg<'_>\)/ => ServerMsg<'_>, Tracked(log): Tracked<&mut Log>) ## path; ghost log
//@sub /&mut self\.queue\)/ => &mut self.queue, Tracked(log)) ## ghost log
//@post
        proof {
            let e = choose|e: Seq<Visit>| ran(old(self).handlers.live(), self.handlers.live(), e)
                && log@.len() == old(log)@.len() + e.len() && log@.take(old(log)@.len() as int) == old(log)@ && logged(log@.skip(old(log)@.len() as int), e, content(*msg))
                && self.handlers.out() == yielded_of(e) && self.handlers.free() == old(self).handlers.free() + ids(#[trigger] done_of(e));
            assert(round(old(log)@, log@, Round { msg: content(*msg), before: old(self).handlers.live(), after: self.handlers.live(), e }));
        }
//@end
}
impl TimeLimits {
//@fn src/client/conn/time.rs :: impl TimeLimits :: require_update
//@spec
        ensures final(self).read == old(self).read,
//@end
//@fn src/client/conn/time.rs :: impl TimeLimits :: set_read_timeout
//@ret r
//@spec
        ensures *final(self) == *final(r), ((*r).read is Some) == (timeout is Some),
//@sub /\.map\(\|t\| std::cmp::max\(t, Duration::from_secs\((\d+)\)\)\)/ => .map(|t| Duration::max(t, Duration::from_secs(\1))) ## path
//@end
//@fn src/client/conn/time.rs :: impl TimeLimits :: set_write_timeout
//@ret r
//@spec
        ensures *final(self) == *final(r), (*r).read == old(self).read,
//@sub /\.map\(\|t\| std::cmp::max\(t, Duration::from_secs\((\d+)\)\)\)/ => .map(|t| Duration::max(t, Duration::from_secs(\1))) ## path
//@opt /self\.update_write \|= true;/ => self.update_write = true; ## compound assignment on bool
//@end
//@fn src/client/conn/time.rs :: impl TimeLimits :: read_timeout
//@ret r
//@spec
        ensures r == self.read,
//@end
}
impl<C> MsgIo<C> {
//@fn src/client/conn.rs :: impl<C> MsgIo<C> :: new
//@ret r
//@spec
        ensures r.conn == conn, r.buf_i@.len() == 0, r.buf_o@.len() == 0,
//@end
//@fn src/client/conn.rs :: impl<C> MsgIo<C> :: reset
//@spec
        // C10: no byte of the old connection is left.
        ensures final(self).conn == old(self).conn, final(self).buf_i@.len() == 0, final(self).buf_o@.len() == 0,
//@end
}
impl<C, S: ChannelSpec> Client<C, S> {
//@fn src/client.rs :: impl<C, S: ChannelSpec> Client<C, S> :: new_with_logic
//@ret r
//@spec
        ensures r.conn.conn == conn, r.conn.buf_i@.len() == 0, r.conn.buf_o@.len() == 0, r.spec == spec, r.logic == logic, r.on_timeout is None,
//@sub /conn::MsgIo/ => MsgIo ## path
//@sub /Box::new\(logic\)/ => logic ## Box
//@end
//@fn src/client.rs :: impl<C, S: ChannelSpec> Client<C, S> :: add
//@ret r
//@spec
        requires old(self).logic.inv(),
        ensures final(self).logic.inv(), added(old(self).logic, final(self).logic, first(r)), final(self).conn == old(self).conn, final(self).on_timeout == old(self).on_timeout,
//@sub /M::Receiver<S>/ => M::Receiver ## generic associated type
//@end
}
impl<C, S> Client<C, S> {
//@fn src/client.rs :: impl<C, S> Client<C, S> :: take_conn
//@ret r
//@spec
        ensures r == self.conn.conn,
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: with_conn
//@ret r
//@spec
        // C10, C17, C18: what was read and not yet handled, what was queued and not yet sent, and the handlers all stay.
        ensures r.conn.conn == conn, r.conn.buf_i == self.conn.buf_i, r.conn.buf_o == self.conn.buf_o, r.spec == self.spec, r.on_timeout == self.on_timeout,
            r.logic.queue == self.logic.queue, r.logic.handlers == self.logic.handlers, r.logic.state == self.logic.state,
//@sub /conn::MsgIo/ => MsgIo ## path
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: with_spec
//@ret r
//@spec
        ensures r.conn == self.conn, r.spec == spec, r.logic == self.logic, r.on_timeout == self.on_timeout,
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: queue_mut
//@ret r
//@spec
        ensures *r == old(self).logic.queue, *final(self) == (Client { logic: ClientLogic { queue: *final(r), ..old(self).logic }, ..*old(self) }),
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: state_mut
//@ret r
//@spec
        ensures *r == old(self).logic.state, *final(self) == (Client { logic: ClientLogic { state: *final(r), ..old(self).logic }, ..*old(self) }),
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: add_with_spec
//@ret r
//@spec
        requires old(self).logic.inv(),
        ensures final(self).logic.inv(), added(old(self).logic, final(self).logic, first(r)), final(self).conn == old(self).conn, final(self).on_timeout == old(self).on_timeout,
//@sub /M::Receiver<S2>/ => M::Receiver ## generic associated type
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: add_with_sender
//@ret r
//@spec
        requires old(self).logic.inv(),
        ensures final(self).logic.inv(), added(old(self).logic, final(self).logic, r), final(self).conn == old(self).conn, final(self).on_timeout == old(self).on_timeout, final(self).spec == old(self).spec,
//@sub /Box<dyn channel::Sender<Value = M::Value> \+ Send>/ => DynSender<M::Value> ## dyn
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: reset
//@spec
        // C10, C18: no byte, message, handler or identifier of the old connection is left.
        ensures final(self).conn.conn == old(self).conn.conn, final(self).conn.buf_i@.len() == 0, final(self).conn.buf_o@.len() == 0,
            final(self).logic.handlers.inv(), final(self).logic.handlers.live().len() == 0, final(self).logic.handlers.free().len() == 0, final(self).logic.handlers.out().len() == 0, final(self).logic.queue.q().len() == 0,
            final(self).logic.queue.tellable() == old(self).logic.queue.tellable(),
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /self\.logic\.reset\(\)/ => self.logic.reset(Tracked(clock)) ## ghost clock
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: reset_with_conn
//@ret r
//@spec
        ensures r == old(self).conn.conn, final(self).conn.conn == conn, final(self).conn.buf_i@.len() == 0, final(self).conn.buf_o@.len() == 0,
            final(self).logic.handlers.inv(), final(self).logic.handlers.live().len() == 0, final(self).logic.handlers.free().len() == 0, final(self).logic.handlers.out().len() == 0, final(self).logic.queue.q().len() == 0,
//@sub /conn: C\)/ => conn: C, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /self\.reset\(\)/ => self.reset(Tracked(clock)) ## ghost clock
//@end
//@fn src/client.rs :: impl<C, S> Client<C, S> :: needs_run
//@ret r
//@spec
        ensures r == (self.logic.handlers.live().len() > 0 || self.logic.queue.q().len() > 0),
//@end
}
pub trait Connection: Sized {
    /// Part of WriteTimeout and ReadTimeout.
    fn set_write_timeout(&mut self, timeout: Option<Duration>) -> (r: Result<(), IoError>) ensures final(self).coming() == old(self).coming(), final(self).out() == old(self).out();
    fn set_read_timeout(&mut self, timeout: Option<Duration>) -> (r: Result<(), IoError>) ensures final(self).coming() == old(self).coming(), final(self).out() == old(self).out(), r matches Err(e) ==> e.why() is Io;
    spec fn coming(&self) -> Seq<u8>;
    spec fn out(&self) -> Seq<u8>;
    type Write: Write;
    fn as_write(&mut self) -> (r: &mut Self::Write) ensures (*r).out() == old(self).out(), final(self).out() == (*final(r)).out(), final(self).coming() == old(self).coming();
}
//@item src/client/conn/time.rs :: struct TimeLimitedSync
//@attr
pub
//@sub /\b(conn|read): / => pub \1:  ## visibility
//@end
impl<'a, C: Connection> TimeLimitedSync<'a, C> {
//@fn src/client/conn/time.rs :: impl<'a, C: super::Connection> TimeLimitedSync<'a, C> :: new
//@ret r
//@spec
        // Sets timeouts, which moves no bytes; and knows whether it is the queue that waits.
        ensures match r {
            Ok((c, queued)) => c.conn.coming() == old(conn).coming() && c.conn.out() == old(conn).out() && *final(c.conn) == *final(conn) && queued == (write_after is Some),
            Err(_) => final(conn).coming() == old(conn).coming() && final(conn).out() == old(conn).out(),
        },
//@sub /std::io::Result<\((.*)\)> / => Result<(\1), IoError> ## path
//@sub /read\.and_then\(\|(\w+)\| (.*?)\);/ => match read { Some(\1) => \2, None => None }; ## closure
//@end
//@fn src/client/conn/time.rs :: impl<'a, C: super::Connection> TimeLimitedSync<'a, C> :: update_timeout
//@ret r
//@spec
        ensures final(self).conn.coming() == old(self).conn.coming(), final(self).conn.out() == old(self).conn.out(), *final(final(self).conn) == *final(old(self).conn), r matches Err(e) ==> e.why() is Io,
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@head
        broadcast use own_errors;
//@sub /duration != Duration::ZERO/ => !duration.is_zero() ## comparison
//@sub /std::io::Error::new\(\s*std::io::ErrorKind/ => IoError::new(ErrorKind ## path
//@end
}
impl<'a, C: Connection> BufRead for TimeLimitedSync<'a, C> { open spec fn coming(&self) -> Seq<u8> { self.conn.coming() } #[verifier::prophetic] open spec fn same(&self, o: &Self) -> bool { self.conn.out() == o.conn.out() && *final(self.conn) == *final(o.conn) } }
pub struct TimeLimitedTokio<'a, C> { pub conn: &'a mut C }
impl<'a, C: Connection> TimeLimitedTokio<'a, C> {
    #[verifier::external_body]
    pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> (r: TimeLimitedTokio<'a, C>)
        ensures r.conn.coming() == old(conn).coming(), r.conn.out() == old(conn).out(), *final(r.conn) == *final(conn) { unimplemented!() }
}
impl<'a, C: Connection> TimeLimitedTokio<'a, C> {
    /// AsyncWriteExt
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).conn.out() == old(self).conn.out() + b@, final(self).conn.coming() == old(self).conn.coming(), *final(final(self).conn) == *final(old(self).conn) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), IoError>) ensures final(self).conn.out() == old(self).conn.out(), final(self).conn.coming() == old(self).conn.coming(), *final(final(self).conn) == *final(old(self).conn) { unimplemented!() }
}
impl<'a, C: Connection> BufRead for TimeLimitedTokio<'a, C> { open spec fn coming(&self) -> Seq<u8> { self.conn.coming() } #[verifier::prophetic] open spec fn same(&self, o: &Self) -> bool { self.conn.out() == o.conn.out() && *final(self.conn) == *final(o.conn) } }
//@fn src/client/conn/time.rs :: filter_time_error
//@ret r
//@spec
        ensures match result { Ok(v) => r == Ok::<Option<T>, IoError>(Some(v)), Err(e) => if e.of() is TimedOut || e.of() is WouldBlock { r == Ok::<Option<T>, IoError>(None) } else { r == Err::<Option<T>, IoError>(e) } },
//@sub /pub\(super\) fn/ => pub fn ## visibility
//@sub /std::io::Result<T>/ => Result<T, IoError> ## path
//@sub /std::io::Result<Option<T>>/ => Result<Option<T>, IoError> ## path
//@sub /use std::io::ErrorKind;/ => ## path
//@end
/// tokio::time::timeout: the outcome of the future, or it was dropped, as if it had been interrupted.
#[verifier::external_body]
pub fn elapse<T>(dur: Duration, fut: Result<T, IoError>) -> (r: Result<Result<T, IoError>, IoError>)
    ensures match r { Ok(x) => x == fut, Err(e) => e.of() is TimedOut && (fut matches Err(x) && x.why() is Io) } { unimplemented!() }
//@fn src/client/conn/time.rs :: timeout_fallback
//@ret r
//@spec
        ensures r == if new_timeout is Some { (new_timeout, true) } else { (old_timeout, false) },
//@end
//@fn src/client/conn/time.rs :: timed_io
//@ret r
//@spec
        ensures match r { Ok(Ok(v)) => fut == Ok::<T, IoError>(v), Ok(Err(queued)) => (fut matches Err(e) && e.why() is Io) && queued == (new_timeout is Some), Err(_) => fut is Err },
//@sub /pub\(super\) async fn/ => pub fn ## visibility; a pause is no step of the function
//@sub /, F: std::future::Future<Output = std::io::Result<T>>/ => ## the future by its outcome
//@sub /fut: F/ => fut: Result<T, IoError> ## the future by its outcome
//@sub /std::io::Result<Result<T, bool>>/ => Result<Result<T, bool>, IoError> ## path
//@sub /tokio::time::timeout\((.*?)\)\.await/ => elapse(\1) ## path
//@sub /fut\.await/ => fut ## the future by its outcome
//@sub /e\.into\(\)/ => e ## From
//@sub /filter_time_error\(msg\)\.map\(\|v\| v\.ok_or\((.*?)\)\)/ => match filter_time_error(msg) { Ok(v) => Ok(v.ok_or(\1)), Err(e) => Err(e) } ## closure
//@head
        broadcast use own_errors;
//@end
impl<C: Connection, S> Client<C, S> {
    pub open spec fn inv(&self) -> bool { self.conn.buf_o@.len() == 0 && no_nl(self.conn.buf_i@) && self.logic.inv() }
    pub open spec fn stream(&self) -> Seq<u8> { self.conn.buf_i@ + self.conn.conn.coming() }
//@fn src/client/conn/sync.rs :: impl<C: Connection, S> crate::client::Client<C, S> :: flush_partial
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).conn.buf_o@.len() == 0, final(self).conn.buf_i == old(self).conn.buf_i, final(self).conn.conn.coming() == old(self).conn.conn.coming(), final(self).logic.inv(),
            final(self).logic.handlers == old(self).logic.handlers, final(self).logic.state == old(self).logic.state, final(self).on_timeout == old(self).on_timeout, final(self).spec == old(self).spec,
            // C17: what leaves the queue is written, in its order, each message on its line.
            r matches Ok(w) ==> exists|m: Seq<ClientMsg<'static>>| m + final(self).logic.queue.q() == old(self).logic.queue.q() && final(self).conn.conn.out() == old(self).conn.conn.out() + #[trigger] wires(m),
            r matches Ok(None) ==> final(self).logic.queue.q().len() == 0,
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /std::io::Result<(.*)> / => Result<\1, IoError> ## path
//@opt /tracing::debug!\(.*?\);/ => ## logging
//@sub /pop\(\|(\w+)\| (\w+) = \1\)/ => pop_wait(&mut \2, Tracked(clock)) ## closure
//@loop 0
            invariant_except_break timeout is None,
            invariant
                self.logic.inv(), self.conn.buf_i == old(self).conn.buf_i, self.conn.conn == old(self).conn.conn, self.conn.buf_o@ == wires(g),
                g + self.logic.queue.q() == old(self).logic.queue.q(),
            ensures
                self.logic.inv(), self.conn.buf_i == old(self).conn.buf_i, self.conn.conn == old(self).conn.conn, self.conn.buf_o@ == wires(g),
                g + self.logic.queue.q() == old(self).logic.queue.q(), (timeout is None) == (self.logic.queue.q().len() == 0),
            decreases self.logic.queue.q().len(),
//@head
        proof {
            assert(Seq::<ClientMsg<'static>>::empty() + self.logic.queue.q() =~= self.logic.queue.q());
            assert(self.conn.conn.out() + wires(Seq::empty()) =~= self.conn.conn.out());
        }
//@before /while let Some/
        let ghost mut g: Seq<ClientMsg<'static>> = Seq::empty();
        proof { assert(g + self.logic.queue.q() =~= old(self).logic.queue.q()); }
//@after /extend_from_slice/
            proof {
                let g0 = g;
                g = g.push(popped);
                assert(g.drop_last() =~= g0);
                assert(g + self.logic.queue.q() =~= old(self).logic.queue.q());
            }
//@end
//@fn src/client/conn/sync.rs :: impl<C: Connection, S> crate::client::Client<C, S> :: run
//@ret r
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
        requires old(self).inv(),
        ensures
            r is Ok ==> final(self).inv(),
            match r {
                Ok(x) => exists|h: Seq<Round>, m: Seq<ClientMsg<'static>>| #[trigger] rounds(old(log)@, final(log)@, h) && handed(old(self).stream(), h, final(self).stream())
                    && (old(self).on_timeout is None ==> chained(old(self).logic.handlers.live(), h, final(self).logic.handlers.live()))
                    && final(self).conn.conn.out() == old(self).conn.conn.out() + #[trigger] wires(m)
                    && match x {
                        None => unreported(h),
                        Some((y, f)) => reported(h, y@, f@) || (unreported(h) && y@.len() == 0 && f@.len() == 0 && final(self).logic.handlers.live().len() == 0 && final(self).logic.queue.q().len() == 0),
                    },
                Err(_) => exists|h: Seq<Round>, t: Seq<u8>| #[trigger] rounds(old(log)@, final(log)@, h) && #[trigger] handed(old(self).stream(), h, t),
            },
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>, Tracked(log): Tracked<&mut Log>) ## ghost clock and log
//@sub /std::io::Result<(.*)> / => Result<\1, IoError> ## path
//@sub /flush_partial\(\)/ => flush_partial(Tracked(clock)) ## ghost clock
//@sub /run_once\(&msg\)/ => run_once(&msg, Tracked(log)) ## ghost log
//@sub /std::thread::sleep\(/ => sleep( ## path
//@sub /std::io::Error::new\(/ => IoError::new( ## path
//@sub /std::io::ErrorKind/ => ErrorKind ## path
//@sub /\(Default::default\(\), Default::default\(\)\)/ => no_ids() ## empty slices
//@sub /timeout_fn\(&mut self\.logic\)/ => timeout_fn.call(&mut self.logic) ## call of the boxed closure
//@sub /let (\w+) = loop(\s*(?:\x01\d+\x01)?)\{/ => let mut out_: usize = 0; loop\2{ ## loops with a value
//@sub /break (\w+);/ => out_ = \1; break; ## loops with a value
//@sub /last_run_results\(\w+\)/ => last_run_results(out_) ## loops with a value
//@opt /tracing::debug!\(.*?\);/ => ## logging
//@head
        let ghost s0 = self.stream();
        let ghost l0 = log@;
        let ghost mut h: Seq<Round> = Seq::empty();
        let ghost mut sent: Seq<ClientMsg<'static>> = Seq::empty();
        proof { assert(self.conn.conn.out() + wires(sent) =~= self.conn.conn.out()); at_start(s0, l0); }
//@loop 0
            invariant_except_break unreported(h),
            invariant
                self.inv(), s0 == old(self).stream(), l0 == old(log)@, rounds(l0, log@, h), handed(s0, h, self.stream()),
                (self.on_timeout is None) == (old(self).on_timeout is None),
                old(self).on_timeout is None ==> chained(old(self).logic.handlers.live(), h, self.logic.handlers.live()),
                self.conn.conn.out() == old(self).conn.conn.out() + wires(sent),
            ensures reported(h, self.logic.handlers.out(), self.logic.handlers.free().skip(out_ as int)), out_ <= self.logic.handlers.free().len(),
//@before /let wait_for =/
            let ghost c0 = *self;
//@after /let wait_for =/
            proof {
                let m = choose|m: Seq<ClientMsg<'static>>| m + self.logic.queue.q() == c0.logic.queue.q() && self.conn.conn.out() == c0.conn.conn.out() + #[trigger] wires(m);
                wires_add(sent, m);
                assert(old(self).conn.conn.out() + wires(sent + m) =~= old(self).conn.conn.out() + wires(sent) + wires(m));
                sent = sent + m;
                assert(self.stream() == c0.stream());
                handed_same(s0, h, c0.stream(), self.stream());
            }
            let ghost c1 = *self;
//@before /let Some\(msg\) = filter/
            broadcast use own_errors;
//@before /if rto_from_queue/
                proof { assert(next(self.stream(), 8703) == next(c1.stream(), 8703)); handed_same(s0, h, c1.stream(), self.stream()); }
//@before /let finished_at = self\.logic\.run_once/
            let ghost (l1, live1, free1) = (log@, self.logic.handlers.live(), self.logic.handlers.free());
//@after /let finished_at = self\.logic\.run_once/
            proof {
                let e = choose|e: Seq<Visit>| round(l1, log@, Round { msg: content(msg), before: live1, after: self.logic.handlers.live(), e })
                    && self.logic.handlers.out() == yielded_of(e) && self.logic.handlers.free() == free1 + ids(#[trigger] done_of(e));
                let r = Round { msg: content(msg), before: live1, after: self.logic.handlers.live(), e };
                rounds_more(l0, l1, log@, h, r);
                let body = next(c1.stream(), 8703)->Line_0;
                assert(line_of(r.msg, body));
                handed_more(s0, h, c1.stream(), r, body, next(c1.stream(), 8703)->Line_1);
                if old(self).on_timeout is None { chained_more(old(self).logic.handlers.live(), h, r); }
                h = h.push(r);
            }
//@before /if self\.logic\.handlers\.has_results/
            proof { if self.conn.buf_i@.len() == 0 { assert(self.stream() =~= self.conn.conn.coming()); } assert(handed(s0, h, self.stream())); }
            let ghost c2 = *self;
//@before /break finished_at/
                proof {
                    let m = choose|m: Seq<ClientMsg<'static>>| m + self.logic.queue.q() == c2.logic.queue.q() && self.conn.conn.out() == c2.conn.conn.out() + #[trigger] wires(m);
                    wires_add(sent, m);
                    assert(old(self).conn.conn.out() + wires(sent + m) =~= old(self).conn.conn.out() + wires(sent) + wires(m));
                    sent = sent + m;
                    assert(self.stream() == c2.stream());
                    assert(self.logic.handlers.free().skip(finished_at as int) =~= ids(done_of(h.last().e)));
                    assert(done_of(h.last().e).len() == ids(done_of(h.last().e)).len());
                }
//@end
//@fn src/client/conn/tokio.rs :: impl<C: ConnectionTokio, S> crate::client::Client<C, S> :: flush_partial_tokio
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).conn.buf_o@.len() == 0, final(self).conn.buf_i == old(self).conn.buf_i, final(self).conn.conn.coming() == old(self).conn.conn.coming(), final(self).logic.inv(),
            final(self).logic.handlers == old(self).logic.handlers, final(self).logic.state == old(self).logic.state, final(self).on_timeout == old(self).on_timeout, final(self).spec == old(self).spec,
            // C17: what leaves the queue is written, in its order, each message on its line.
            r matches Ok(w) ==> exists|m: Seq<ClientMsg<'static>>| m + final(self).logic.queue.q() == old(self).logic.queue.q() && final(self).conn.conn.out() == old(self).conn.conn.out() + #[trigger] wires(m),
            r matches Ok(None) ==> final(self).logic.queue.q().len() == 0,
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /std::io::Result<(.*)> / => Result<\1, IoError> ## path
//@opt /tracing::debug!\(.*?\);/ => ## logging
//@sub /use tokio::io::AsyncWriteExt;/ => ## path
//@sub /pop\(\|(\w+)\| (\w+) = \1\)/ => pop_wait(&mut \2, Tracked(clock)) ## closure
//@loop 0
            invariant_except_break timeout is None,
            invariant
                self.logic.inv(), self.conn.buf_i == old(self).conn.buf_i, self.conn.conn == old(self).conn.conn, self.conn.buf_o@ == wires(g),
                g + self.logic.queue.q() == old(self).logic.queue.q(),
            ensures
                self.logic.inv(), self.conn.buf_i == old(self).conn.buf_i, self.conn.conn == old(self).conn.conn, self.conn.buf_o@ == wires(g),
                g + self.logic.queue.q() == old(self).logic.queue.q(), (timeout is None) == (self.logic.queue.q().len() == 0),
            decreases self.logic.queue.q().len(),
//@head
        proof {
            assert(Seq::<ClientMsg<'static>>::empty() + self.logic.queue.q() =~= self.logic.queue.q());
            assert(self.conn.conn.out() + wires(Seq::empty()) =~= self.conn.conn.out());
        }
//@before /while let Some/
        let ghost mut g: Seq<ClientMsg<'static>> = Seq::empty();
        proof { assert(g + self.logic.queue.q() =~= old(self).logic.queue.q()); }
//@after /extend_from_slice/
            proof {
                let g0 = g;
                g = g.push(popped);
                assert(g.drop_last() =~= g0);
                assert(g + self.logic.queue.q() =~= old(self).logic.queue.q());
            }
//@end
//@fn src/client/conn/tokio.rs :: impl<C: ConnectionTokio, S> crate::client::Client<C, S> :: run_tokio
//@ret r
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
        requires old(self).inv(),
        ensures
            r is Ok ==> final(self).inv(),
            match r {
                Ok(x) => exists|h: Seq<Round>, m: Seq<ClientMsg<'static>>| #[trigger] rounds(old(log)@, final(log)@, h) && handed(old(self).stream(), h, final(self).stream())
                    && (old(self).on_timeout is None ==> chained(old(self).logic.handlers.live(), h, final(self).logic.handlers.live()))
                    && final(self).conn.conn.out() == old(self).conn.conn.out() + #[trigger] wires(m)
                    && match x {
                        None => unreported(h),
                        Some((y, f)) => reported(h, y@, f@) || (unreported(h) && y@.len() == 0 && f@.len() == 0 && final(self).logic.handlers.live().len() == 0 && final(self).logic.queue.q().len() == 0),
                    },
                Err(_) => exists|h: Seq<Round>, t: Seq<u8>| #[trigger] rounds(old(log)@, final(log)@, h) && #[trigger] handed(old(self).stream(), h, t),
            },
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>, Tracked(log): Tracked<&mut Log>) ## ghost clock and log
//@sub /std::io::Result<(.*)> / => Result<\1, IoError> ## path
//@sub /flush_partial_tokio\(\)/ => flush_partial_tokio(Tracked(clock)) ## ghost clock
//@sub /run_once\(&msg\)/ => run_once(&msg, Tracked(log)) ## ghost log
//@sub /tokio::time::sleep\(/ => sleep( ## path
//@sub /std::io::Error::new\(/ => IoError::new( ## path
//@sub /std::io::ErrorKind/ => ErrorKind ## path
//@sub /\(Default::default\(\), Default::default\(\)\)/ => no_ids() ## empty slices
//@sub /timeout_fn\(&mut self\.logic\)/ => timeout_fn.call(&mut self.logic) ## call of the boxed closure
//@sub /let (\w+) = loop(\s*(?:\x01\d+\x01)?)\{/ => let mut out_: usize = 0; loop\2{ ## loops with a value
//@sub /break (\w+);/ => out_ = \1; break; ## loops with a value
//@sub /last_run_results\(\w+\)/ => last_run_results(out_) ## loops with a value
//@opt /tracing::debug!\(.*?\);/ => ## logging
//@head
        let ghost s0 = self.stream();
        let ghost l0 = log@;
        let ghost mut h: Seq<Round> = Seq::empty();
        let ghost mut sent: Seq<ClientMsg<'static>> = Seq::empty();
        proof { assert(self.conn.conn.out() + wires(sent) =~= self.conn.conn.out()); at_start(s0, l0); }
//@loop 0
            invariant_except_break unreported(h),
            invariant
                self.inv(), s0 == old(self).stream(), l0 == old(log)@, rounds(l0, log@, h), handed(s0, h, self.stream()),
                (self.on_timeout is None) == (old(self).on_timeout is None),
                old(self).on_timeout is None ==> chained(old(self).logic.handlers.live(), h, self.logic.handlers.live()),
                self.conn.conn.out() == old(self).conn.conn.out() + wires(sent),
            ensures reported(h, self.logic.handlers.out(), self.logic.handlers.free().skip(out_ as int)), out_ <= self.logic.handlers.free().len(),
//@before /let wait_for =/
            let ghost c0 = *self;
//@after /let wait_for =/
            proof {
                let m = choose|m: Seq<ClientMsg<'static>>| m + self.logic.queue.q() == c0.logic.queue.q() && self.conn.conn.out() == c0.conn.conn.out() + #[trigger] wires(m);
                wires_add(sent, m);
                assert(old(self).conn.conn.out() + wires(sent + m) =~= old(self).conn.conn.out() + wires(sent) + wires(m));
                sent = sent + m;
                assert(self.stream() == c0.stream());
                handed_same(s0, h, c0.stream(), self.stream());
            }
            let ghost c1 = *self;
//@before /return if let Some\(timeout_fn/
                    proof { assert(next(self.stream(), 8703) == next(c1.stream(), 8703)); handed_same(s0, h, c1.stream(), self.stream()); }
//@sub /Err\(true\) => continue,/ => Err(true) => { proof { assert(next(self.stream(), 8703) == next(c1.stream(), 8703)); handed_same(s0, h, c1.stream(), self.stream()); } continue; } ## ghost step
//@before /let finished_at = self\.logic\.run_once/
            let ghost (l1, live1, free1) = (log@, self.logic.handlers.live(), self.logic.handlers.free());
//@after /let finished_at = self\.logic\.run_once/
            proof {
                let e = choose|e: Seq<Visit>| round(l1, log@, Round { msg: content(msg), before: live1, after: self.logic.handlers.live(), e })
                    && self.logic.handlers.out() == yielded_of(e) && self.logic.handlers.free() == free1 + ids(#[trigger] done_of(e));
                let r = Round { msg: content(msg), before: live1, after: self.logic.handlers.live(), e };
                rounds_more(l0, l1, log@, h, r);
                let body = next(c1.stream(), 8703)->Line_0;
                assert(line_of(r.msg, body));
                handed_more(s0, h, c1.stream(), r, body, next(c1.stream(), 8703)->Line_1);
                if old(self).on_timeout is None { chained_more(old(self).logic.handlers.live(), h, r); }
                h = h.push(r);
            }
//@before /if self\.logic\.handlers\.has_results/
            proof { if self.conn.buf_i@.len() == 0 { assert(self.stream() =~= self.conn.conn.coming()); } assert(handed(s0, h, self.stream())); }
            let ghost c2 = *self;
//@before /break finished_at/
                proof {
                    let m = choose|m: Seq<ClientMsg<'static>>| m + self.logic.queue.q() == c2.logic.queue.q() && self.conn.conn.out() == c2.conn.conn.out() + #[trigger] wires(m);
                    wires_add(sent, m);
                    assert(old(self).conn.conn.out() + wires(sent + m) =~= old(self).conn.conn.out() + wires(sent) + wires(m));
                    sent = sent + m;
                    assert(self.stream() == c2.stream());
                    assert(self.logic.handlers.free().skip(finished_at as int) =~= ids(done_of(h.last().e)));
                    assert(done_of(h.last().e).len() == ids(done_of(h.last().e)).len());
                }
//@end
}
}
fn main() {}
