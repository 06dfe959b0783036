//@meta property C17
//@meta assume Instants and Durations stay representable, the clock is monotone
//@meta assume an Adjuster's answers are a function of its state and the message it is given
//@meta assume use_labeler_default's closure is covered by the bounded harness only
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
verus! {
//@include std.inc
// ---- Trusted contracts on the standard library ----
/// std::time: nanoseconds. The clock never runs backwards.
#[verifier::external_body]
pub struct Clock { x: u8 }
impl Clock { pub uninterp spec fn t(&self) -> int; }
/// The last instant that can be told, and the last one the clock will ever show.
pub uninterp spec fn latest() -> int;
pub uninterp spec fn horizon() -> int;
/// Duration::MAX
pub uninterp spec fn longest() -> int;
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Instant { x: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Duration { x: u8 }
pub open spec fn monus(a: int, b: int) -> int { if a > b { a - b } else { 0 } }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn most(a: int, b: int) -> int { if a < b { b } else { a } }
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.ns() == s * 1000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.ns() == s * 1000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, k: u32) -> (r: Duration) ensures r.ns() == least(self.ns() * k, longest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r.ns() == least(self.ns() + o.ns(), longest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r.ns() == monus(self.ns(), o.ns()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns() == 0) { unimplemented!() }
}
pub broadcast axiom fn duration_range(d: Duration) ensures 0 <= #[trigger] d.ns() <= longest();
pub broadcast axiom fn instant_range(i: Instant) ensures #[trigger] i.at() <= latest() <= longest();
impl Instant {
    pub uninterp spec fn at(&self) -> int;
    /// Instant::now(), which reads the clock.
    #[verifier::external_body]
    pub fn now(Tracked(c): Tracked<&mut Clock>) -> (r: Instant) ensures r.at() == final(c).t(), final(c).t() >= old(c).t(), 0 <= r.at() <= horizon() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, d: Duration) -> (r: Option<Instant>)
        ensures r matches Some(x) ==> x.at() == self.at() + d.ns(), r is None ==> self.at() + d.ns() > latest() { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == least(monus(self.at(), o.at()), longest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(a: Instant, b: Instant) -> (r: Instant) ensures r.at() == most(a.at(), b.at()) { unimplemented!() }
}
pub uninterp spec fn instant(t: int) -> Instant;
/// Panics if out of range.
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.at() + d.ns() <= latest() }
    open spec fn add_spec(self, d: Duration) -> Instant { instant(self.at() + d.ns()) }
}
pub broadcast axiom fn instant_at(t: int) ensures t <= latest() ==> #[trigger] instant(t).at() == t;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I>(&mut self, i: I) ensures final(self)@ == old(self)@ + given::<I, T>(i) { unimplemented!() }
    /// Vec::into
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    /// into_iter().collect()
    #[verifier::external_body]
    pub fn collected<I>(i: I) -> (r: Self) ensures r@ == given::<I, T>(i) { unimplemented!() }
}
/// retain_mut with the closure |m| adj.update(m): visits each message once, in order, and keeps those the closure wants, as it left them.
#[verifier::external_body]
pub fn retain_updated(q: &mut VecDeque<ClientMsg<'static>>, adj: &mut BoxedAdjuster)
    ensures final(q)@ == passed(*old(adj), old(q)@, old(q)@.len() as int), *final(adj) == asked(*old(adj), old(q)@, old(q)@.len() as int) { unimplemented!() }
/// The adjuster after it was given the first `n` messages.
pub open spec fn asked(a: BoxedAdjuster, q: Seq<ClientMsg<'static>>, n: int) -> BoxedAdjuster
    decreases n,
{ if n <= 0 { a } else { asked(a, q, n - 1).after_update(q[n - 1]) } }
/// What it leaves of them: each removed or kept, in order, as it changed it.
pub open spec fn passed(a: BoxedAdjuster, q: Seq<ClientMsg<'static>>, n: int) -> Seq<ClientMsg<'static>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else {
        let p = passed(a, q, n - 1);
        let b = asked(a, q, n - 1);
        if b.keeps(q[n - 1]) { p.push(b.changed(q[n - 1])) } else { p }
    }
}
/// Box<dyn Adjuster>: any adjuster.
#[verifier::external_body]
pub struct BoxedAdjuster { x: u8 }
impl BoxedAdjuster {
    pub uninterp spec fn wants(&self, m: ServerMsg<'_>) -> bool;
    pub uninterp spec fn after_asked(&self, m: ServerMsg<'_>) -> Self;
    pub uninterp spec fn keeps(&self, m: ClientMsg<'_>) -> bool;
    pub uninterp spec fn changed<'a>(&self, m: ClientMsg<'a>) -> ClientMsg<'a>;
    pub uninterp spec fn after_update(&self, m: ClientMsg<'_>) -> Self;
    pub uninterp spec fn cleared(&self) -> Self;
    #[verifier::external_body]
    pub fn should_adjust(&mut self, m: &ServerMsg<'_>) -> (r: bool) ensures r == old(self).wants(*m), *final(self) == old(self).after_asked(*m) { unimplemented!() }
    #[verifier::external_body]
    pub fn update<'a>(&mut self, m: &mut ClientMsg<'a>) -> (r: bool) ensures r == old(self).keeps(*old(m)), *final(m) == old(self).changed(*old(m)), *final(self) == old(self).after_update(*old(m)) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures *final(self) == old(self).cleared() { unimplemented!() }
    /// Box::new
    #[verifier::external_body]
    pub fn new<T>(a: T) -> (r: Self) ensures r == boxed(a) { unimplemented!() }
}
pub uninterp spec fn boxed<T>(a: T) -> BoxedAdjuster;
/// One step of `for x in &mut vec`.
#[verifier::external_body]
pub fn nth_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
/// `|` and `&` on bools
pub fn or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
/// What an iterator gives.
pub uninterp spec fn given<I, T>(i: I) -> Seq<T>;
/// Box<dyn FnMut() -> NoNul>: any labeler.
#[verifier::external_body]
pub struct BoxedLabeler { x: u8 }
impl BoxedLabeler {
    #[verifier::external_body]
    pub fn call(&mut self) -> (r: NoNul<'static>) { unimplemented!() }
    /// Box::new
    #[verifier::external_body]
    pub fn new<T>(a: T) -> (r: Self) { unimplemented!() }
}
// ---- Strings and messages, by the contracts proved in bytes_impl.rs, tags.rs and message.rs ----
#[verifier::external_body]
pub struct NoNul<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> NoNul<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// Tags and their editing guard: a map (tags.rs).
#[verifier::external_body]
pub struct Tags<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Tags<'a> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    /// edit().insert_pair(key, value), the guard dropped at once.
    #[verifier::external_body]
    pub fn insert_pair(&mut self, key: &'static str, value: NoNul<'a>) ensures final(self)@ == old(self)@.insert(label_key(key@), value@) { unimplemented!() }
}
/// The bytes of an ASCII literal.
pub open spec fn label_key(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
#[verifier::external_body]
pub struct Source<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct Cmd<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct Args<'a> { _p: core::marker::PhantomData<&'a u8> }
pub struct ClientMsg<'a> { pub tags: Tags<'a>, pub source: Option<Source<'a>>, pub cmd: Cmd<'a>, pub args: Args<'a> }
#[verifier::external_body]
pub struct ServerMsg<'a> { _p: core::marker::PhantomData<&'a u8> }
// ---- Specification ----
//@item src/client/queue.rs :: pub struct Queue
//@attr #[verifier::reject_recursive_types_in_ground_variants]
//@sub /Option<Box<dyn FnMut\(\) -> NoNul<'static> \+ Send>>/ => Option<BoxedLabeler> ## dyn
//@sub /Option<Box<dyn Adjuster>>/ => Option<BoxedAdjuster> ## dyn
//@end
impl Queue {
    pub closed spec fn q(&self) -> Seq<ClientMsg<'static>> { self.queue@ }
    pub closed spec fn delay(&self) -> int { self.delay.ns() }
    pub closed spec fn burst(&self) -> int { self.sub.ns() }
    pub closed spec fn due(&self) -> int { self.timepoint.at() }
    pub closed spec fn labels(&self) -> bool { self.labeler is Some }
    pub closed spec fn adj(&self) -> Option<BoxedAdjuster> { self.adjuster }
    /// Times this far ahead can be told.
    pub open spec fn tellable(&self) -> bool { horizon() + self.burst() + self.delay() <= latest() }
    /// The rate limit, as a message may be released now.
    pub open spec fn open_at(&self, now: int) -> bool { self.due() - now <= self.burst() }
    pub open spec fn same_rate(&self, o: &Self) -> bool { self.delay() == o.delay() && self.burst() == o.burst() && self.due() == o.due() }
}
/// One release: `before` is the queue's due time, `at` the time, `after` the new due time.
pub struct Release { pub before: int, pub at: int, pub after: int }
/// C17: a history of releases under one rate limit: by pop's contract, each is permitted, pushes the due time on by the delay, and nothing else brings it forward.
pub open spec fn history(h: Seq<Release>, delay: int, sub: int) -> bool {
    (forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).before - h[i].at <= sub && h[i].after >= h[i].before + delay && h[i].after >= h[i].at + delay)
    && forall|i: int| #![trigger h[i]] 0 <= i < h.len() - 1 ==> h[i + 1].before >= h[i].after && h[i + 1].at >= h[i].at
}
proof fn due_grows(h: Seq<Release>, delay: int, sub: int, i: int, j: int)
    requires history(h, delay, sub), delay >= 0, 0 <= i < j < h.len(),
    ensures h[j].before >= h[i].at + (j - i) * delay,
    decreases j - i,
{
    assert(h[i].after >= h[i].at + delay);
    if j == i + 1 { assert(h[i + 1].before >= h[i].after); assert((j - i) * delay == delay) by(nonlinear_arith) requires j - i == 1; }
    else {
        due_grows(h, delay, sub, i, j - 1);
        assert(h[j - 1].after >= h[j - 1].before + delay);
        assert(h[(j - 1) + 1].before >= h[j - 1].after);
        assert((j - i) * delay == (j - 1 - i) * delay + delay) by(nonlinear_arith);
    }
}
/// C17: in any time interval at most the burst allowance plus one plus the interval divided by the delay.
proof fn rate_limited(h: Seq<Release>, delay: int, burst: int, sub: int, i: int, j: int, from: int, to: int)
    requires history(h, delay, sub), delay > 0, burst >= 0, sub <= burst * delay, 0 <= i <= j < h.len(), from <= h[i].at, h[j].at <= to,
    ensures j - i + 1 <= burst + 1 + (to - from) / delay,
{
    let k = j - i;
    assert(h[i].at <= h[j].at) by { times(h, delay, sub, i, j); }
    if k > 0 { due_grows(h, delay, sub, i, j); assert(h[j].before - h[j].at <= sub); assert(k * delay <= (to - from) + burst * delay); }
    else {
        assert(h[i].before - h[i].at <= sub);
        assert(k * delay == 0) by(nonlinear_arith) requires k == 0;
        if burst < 0 { assert(burst * delay < 0) by(nonlinear_arith) requires burst < 0, delay > 0; }
        assert(k * delay <= (to - from) + burst * delay || burst < 0);
    }
    if burst >= 0 || k > 0 {
        let m = k - burst;
        assert(m * delay == k * delay - burst * delay) by(nonlinear_arith) requires m == k - burst;
        assert(m * delay <= to - from);
        assert(m <= (to - from) / delay) by(nonlinear_arith) requires m * delay <= to - from, delay > 0;
    }
}
proof fn times(h: Seq<Release>, delay: int, sub: int, i: int, j: int)
    requires history(h, delay, sub), 0 <= i <= j < h.len(),
    ensures h[i].at <= h[j].at,
    decreases j - i,
{ if i < j { times(h, delay, sub, i, j - 1); assert(h[(j - 1) + 1].at >= h[j - 1].at); } }
/// C17: the wait reported is exactly sufficient.
proof fn wait_exact(q: &Queue, now: int, wait: int)
    requires wait == q.due() - now - q.burst(), wait > 0,
    ensures q.open_at(now + wait), forall|t: int| t < now + wait ==> !q.open_at(t),
{ }
// ---- The code ----
impl Queue {
//@fn src/client/queue.rs :: impl Queue :: from_queue
//@ret r
//@spec
        ensures r.q() == queue@, r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(), !r.labels(), final(clock).t() >= old(clock).t(),
//@sub /queue: VecDeque<ClientMsg<'static>>\)/ => queue: VecDeque<ClientMsg<'static>>, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /Instant::now\(\)/ => Instant::now(Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl Queue :: new
//@ret r
//@spec
        ensures r.q().len() == 0, r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(), final(clock).t() >= old(clock).t(),
//@sub /new\(\)/ => new(Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /\(VecDeque::with_capacity\((\w+)\)\)/ => (VecDeque::with_capacity(\1), Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl Queue :: is_empty
//@ret r
//@spec
        ensures r == (self.q().len() == 0),
//@end
//@fn src/client/queue.rs :: impl Queue :: len
//@ret r
//@spec
        ensures r == self.q().len(),
//@end
//@fn src/client/queue.rs :: impl Queue :: set_rate_limit
//@ret r
//@spec
        ensures
            *final(self) == *final(r), (*r).q() == old(self).q(), (*r).delay() == delay.ns(), (*r).burst() == least(delay.ns() * burst, longest()), (*r).labels() == old(self).labels(),
            final(clock).t() >= old(clock).t(),
            // The whole allowance is spent: the next message leaves no sooner than one delay from now.
            final(clock).t() + least((*r).burst() + delay.ns(), longest()) <= latest() ==> (*r).due() == final(clock).t() + least((*r).burst() + delay.ns(), longest()),
//@head
        broadcast use {duration_range, instant_range, instant_at};
//@sub /burst: u32\)/ => burst: u32, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /Instant::now\(\)/ => Instant::now(Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl Queue :: pop
//@ret r
//@spec
        requires
            forall|o: Option<Duration>| timeout_fn.requires((o,)),
            old(self).tellable(),
        ensures
            final(clock).t() >= old(clock).t(), final(self).delay() == old(self).delay(), final(self).burst() == old(self).burst(), final(self).labels() == old(self).labels(),
            match r {
                // The first message, whenever the rate limit permits; and the next is due one delay later.
                Some(m) => old(self).q().len() > 0 && m == old(self).q()[0] && final(self).q() == old(self).q().drop_first()
                    && exists|t: int| old(clock).t() <= t <= final(clock).t() && #[trigger] old(self).open_at(t) && final(self).due() >= most(old(self).due(), t) + old(self).delay() && final(self).due() <= most(old(self).due(), final(clock).t()) + old(self).delay(),
                // Otherwise nothing changes and the caller learns how long to wait.
                None => final(self).q() == old(self).q() && final(self).due() == old(self).due() && (
                    if old(self).q().len() == 0 { timeout_fn.ensures((None,), ()) }
                    else { exists|t: int, d: Duration| old(clock).t() <= t <= final(clock).t() && !(#[trigger] old(self).open_at(t)) && d.ns() == old(self).due() - t - old(self).burst() && d.ns() > 0 && #[trigger] timeout_fn.ensures((Some(d),), ()) }),
            },
//@sub /timeout_fn: impl FnOnce\(Option<Duration>\)\)/ => timeout_fn: impl FnOnce(Option<Duration>), Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /Instant::now\(\)/ => Instant::now(Tracked(clock)) ## ghost clock
//@opt /std::cmp::max\(/ => Instant::max( ## path
//@head
        broadcast use {duration_range, instant_range, instant_at};
//@after /let mut delay = /
            let ghost t1 = clock.t();
            let ghost since = delay.ns();
//@before /self\.timepoint = /
                proof { assert(old(self).open_at(t1)); }
//@before /timeout_fn\(Some\(delay\)\)/
                proof { assert(self.queue@ =~= old(self).queue@); assert(!old(self).open_at(t1)); assert(delay.ns() == old(self).due() - t1 - old(self).burst()); }
//@end
/// pop with a closure that stores what it is given, the closure inlined.
//@fn src/client/queue.rs :: impl Queue :: pop
//@name pop_wait
//@ret r
//@spec
        requires old(self).tellable(),
        ensures final(self).tellable(), match r {
            Some(m) => old(self).q().len() > 0 && m == old(self).q()[0] && final(self).q() == old(self).q().drop_first() && *final(wait) == *old(wait),
            None => final(self).q() == old(self).q() && (*final(wait) is None) == (old(self).q().len() == 0),
        },
//@sub /fn pop/ => fn pop_wait ## name
//@sub /timeout_fn: impl FnOnce\(Option<Duration>\)\)/ => wait: &mut Option<Duration>, Tracked(clock): Tracked<&mut Clock>) ## ghost clock; closure
//@sub /Instant::now\(\)/ => Instant::now(Tracked(clock)) ## ghost clock
//@sub /timeout_fn\(([^;]*)\);/ => *wait = \1; ## closure
//@opt /std::cmp::max\(/ => Instant::max( ## path
//@head
        broadcast use {duration_range, instant_range, instant_at};
//@end
//@fn src/client/queue.rs :: impl Queue :: adjust
//@spec
        ensures
            final(self).same_rate(old(self)), final(self).labels() == old(self).labels(),
            match old(self).adj() {
                Some(a) => {
                    let b = a.after_asked(*msg);
                    if a.wants(*msg) { final(self).q() == passed(b, old(self).q(), old(self).q().len() as int) && final(self).adj() == Some(asked(b, old(self).q(), old(self).q().len() as int)) }
                    else { final(self).q() == old(self).q() && final(self).adj() == Some(b) }
                },
                None => final(self).q() == old(self).q() && final(self).adj() is None,
            },
//@sub /self\.queue\.retain_mut\(\|cmsg\| adj\.update\(cmsg\)\);/ => retain_updated(&mut self.queue, adj); ## closure over the adjuster
//@end
//@fn src/client/queue.rs :: impl Queue :: use_adjuster
//@ret r
//@spec
        ensures *final(self) == *final(r), (*r).q() == old(self).q(), (*r).same_rate(old(self)), (*r).labels() == old(self).labels(), (*r).adj() == Some(boxed(adjuster)),
//@sub /use_adjuster\(&mut self, adjuster: impl Adjuster \+ 'static\)/ => use_adjuster<T>(&mut self, adjuster: T) ## dyn
//@sub /Box::new\(/ => BoxedAdjuster::new( ## dyn
//@end
//@fn src/client/queue.rs :: impl Queue :: use_no_adjuster
//@ret r
//@spec
        ensures *final(self) == *final(r), (*r).q() == old(self).q(), (*r).same_rate(old(self)), (*r).labels() == old(self).labels(), (*r).adj() is None,
//@end
//@fn src/client/queue.rs :: impl Queue :: use_labeler
//@ret r
//@spec
        ensures *final(self) == *final(r), (*r).q() == old(self).q(), (*r).same_rate(old(self)), (*r).labels(), (*r).adj() == old(self).adj(),
//@sub /labeler: impl FnMut\(\) -> NoNul<'static> \+ 'static \+ Send,/ => labeler: T, ## dyn
//@sub /use_labeler\(/ => use_labeler<T>( ## dyn
//@sub /Box::new\(/ => BoxedLabeler::new( ## dyn
//@end
//@fn src/client/queue.rs :: impl Queue :: use_no_labeler
//@ret r
//@spec
        ensures *final(self) == *final(r), (*r).q() == old(self).q(), (*r).same_rate(old(self)), !(*r).labels(), (*r).adj() == old(self).adj(),
//@end
//@fn src/client/queue.rs :: impl Queue :: is_using_labeler
//@ret r
//@spec
        ensures r == self.labels(),
//@end
//@fn src/client/queue.rs :: impl Queue :: clear
//@spec
        ensures final(self).same_rate(old(self)), final(self).q().len() == 0, final(self).labels() == old(self).labels(), final(self).adj() == old(self).adj(),
//@end
//@fn src/client/queue.rs :: impl Queue :: reset
//@spec
        ensures final(self).delay() == old(self).delay(), final(self).burst() == old(self).burst(), final(self).q().len() == 0, !final(self).labels(), final(self).adj() == match old(self).adj() { Some(a) => Some(a.cleared()), None => None }, final(self).due() == final(clock).t(), final(clock).t() >= old(clock).t(),
//@sub /\(&mut self\)/ => (&mut self, Tracked(clock): Tracked<&mut Clock>) ## ghost clock
//@sub /Instant::now\(\)/ => Instant::now(Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl Queue :: edit
//@ret r
//@spec
        ensures r.start() == old(self).q().len(), r.cur() == *old(self), r.end() == *final(self),
//@end
}
impl Queue {
//@fn src/client/queue.rs :: impl Extend<ClientMsg<'static>> for Queue :: extend
//@spec
        ensures final(self).same_rate(old(self)), final(self).labels() == old(self).labels(), final(self).adj() == old(self).adj(), final(self).q() == old(self).q() + given::<T, ClientMsg<'static>>(iter),
//@sub /fn extend<T: IntoIterator<Item = ClientMsg<'static>>>/ => pub fn extend<T> ## trait
//@end
//@fn src/client/queue.rs :: impl From<Vec<ClientMsg<'static>>> for Queue :: from
//@name from_vec
//@ret r
//@spec
        ensures r.q() == value@, r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(), !r.labels(),
//@sub /fn from\(value: Vec<ClientMsg<'static>>\)/ => pub fn from_vec(value: Vec<ClientMsg<'static>>, Tracked(clock): Tracked<&mut Clock>) ## trait; ghost clock
//@sub /from_queue\(value\.into\(\)\)/ => from_queue(VecDeque::from_vec(value), Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl From<VecDeque<ClientMsg<'static>>> for Queue :: from
//@name from_deque
//@ret r
//@spec
        ensures r.q() == value@, r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(), !r.labels(),
//@sub /fn from\(value: VecDeque<ClientMsg<'static>>\)/ => pub fn from_deque(value: VecDeque<ClientMsg<'static>>, Tracked(clock): Tracked<&mut Clock>) ## trait; ghost clock
//@sub /from_queue\(value\)/ => from_queue(value, Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl FromIterator<ClientMsg<'static>> for Queue :: from_iter
//@ret r
//@spec
        ensures r.q() == given::<T, ClientMsg<'static>>(iter), r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(), !r.labels(),
//@sub /fn from_iter<T: IntoIterator<Item = ClientMsg<'static>>>\(iter: T\)/ => pub fn from_iter<T>(iter: T, Tracked(clock): Tracked<&mut Clock>) ## trait; ghost clock
//@sub /from_queue\(iter\.into_iter\(\)\.collect\(\)\)/ => from_queue(VecDeque::collected(iter), Tracked(clock)) ## ghost clock
//@end
//@fn src/client/queue.rs :: impl Default for Queue :: default
//@ret r
//@spec
        ensures r.q().len() == 0, r.delay() == 2000000000, r.burst() == 4 * r.delay(), r.due() == final(clock).t(),
//@sub /fn default\(\)/ => pub fn default(Tracked(clock): Tracked<&mut Clock>) ## trait; ghost clock
//@sub /new\(\)/ => new(Tracked(clock)) ## ghost clock
//@end
}
//@item src/client/queue.rs :: pub struct MultiAdjuster
//@sub /Vec<\(Box<dyn Adjuster>, bool\)>/ => Vec<(BoxedAdjuster, bool)> ## dyn
//@end
impl MultiAdjuster {
    pub closed spec fn all(&self) -> Seq<(BoxedAdjuster, bool)> { self.adjusters@ }
    /// The message after the first `n` members that were marked.
    pub open spec fn msg_after<'a>(a: Seq<(BoxedAdjuster, bool)>, m: ClientMsg<'a>, n: int) -> ClientMsg<'a>
        decreases n,
    { if n <= 0 { m } else { let p = Self::msg_after(a, m, n - 1); if a[n - 1].1 { a[n - 1].0.changed(p) } else { p } } }
    pub open spec fn keep<'a>(a: Seq<(BoxedAdjuster, bool)>, m: ClientMsg<'a>, n: int) -> bool
        decreases n,
    { if n <= 0 { true } else { Self::keep(a, m, n - 1) && (a[n - 1].1 ==> a[n - 1].0.keeps(Self::msg_after(a, m, n - 1))) } }
//@fn src/client/queue.rs :: impl MultiAdjuster :: new
//@ret r
//@spec
        ensures r.all().len() == 0,
//@end
//@fn src/client/queue.rs :: impl MultiAdjuster :: add
//@spec
        ensures final(self).all() == old(self).all().push((boxed(adjuster), false)),
//@sub /add<T: Adjuster \+ 'static>/ => add<T> ## dyn
//@sub /Box::new\(/ => BoxedAdjuster::new( ## dyn
//@end
//@fn src/client/queue.rs :: impl MultiAdjuster :: clear
//@spec
        ensures final(self).all().len() == 0,
//@end
//@fn src/client/queue.rs :: impl MultiAdjuster :: is_empty
//@ret r
//@spec
        ensures r == (self.all().len() == 0),
//@end
//@fn src/client/queue.rs :: impl MultiAdjuster :: len
//@ret r
//@spec
        ensures r == self.all().len(),
//@end
//@fn src/client/queue.rs :: impl Adjuster for MultiAdjuster :: should_adjust
//@ret r
//@spec
        ensures
            // Every member is asked, and marked by its answer.
            final(self).all().len() == old(self).all().len(),
            forall|k: int| 0 <= k < old(self).all().len() ==> (#[trigger] final(self).all()[k]).1 == old(self).all()[k].0.wants(*msg) && final(self).all()[k].0 == old(self).all()[k].0.after_asked(*msg),
            r == exists|k: int| 0 <= k < old(self).all().len() && (#[trigger] old(self).all()[k]).0.wants(*msg),
//@sub /for \(adj, should_adjust\) in &mut self\.adjusters \{/ => let mut i: usize = 0;\n        while i < self.adjusters.len()\n invariant i <= self.adjusters@.len(), self.adjusters@.len() == old(self).all().len(), forall|k: int| i <= k < old(self).all().len() ==> (#[trigger] self.adjusters@[k]) == old(self).all()[k], forall|k: int| 0 <= k < i ==> (#[trigger] self.adjusters@[k]).1 == old(self).all()[k].0.wants(*msg) && self.adjusters@[k].0 == old(self).all()[k].0.after_asked(*msg), retval == exists|k: int| 0 <= k < i && (#[trigger] old(self).all()[k]).0.wants(*msg), decreases self.adjusters@.len() - i {\n let pair = nth_mut(&mut self.adjusters, i); i += 1; let adj = &mut pair.0; let should_adjust = &mut pair.1; ## for over &mut
//@opt /retval \|= ([^;]*);/ => retval = or(retval, \1); ## non-strict or on bools
//@end
//@fn src/client/queue.rs :: impl Adjuster for MultiAdjuster :: update
//@ret r
//@spec
        ensures
            final(self).all().len() == old(self).all().len(),
            forall|k: int| 0 <= k < old(self).all().len() ==> (#[trigger] final(self).all()[k]).1 == old(self).all()[k].1,
            // Every member marked gets the message, in order, as the ones before it left it.
            *final(msg) == Self::msg_after(old(self).all(), *old(msg), old(self).all().len() as int),
            r == Self::keep(old(self).all(), *old(msg), old(self).all().len() as int),
//@sub /for \(adj, should_adjust\) in &mut self\.adjusters \{/ => let mut i: usize = 0;\n        while i < self.adjusters.len()\n invariant i <= self.adjusters@.len(), self.adjusters@.len() == old(self).all().len(), forall|k: int| i <= k < old(self).all().len() ==> (#[trigger] self.adjusters@[k]) == old(self).all()[k], forall|k: int| 0 <= k < i ==> (#[trigger] self.adjusters@[k]).1 == old(self).all()[k].1, *msg == Self::msg_after(old(self).all(), *old(msg), i as int), retval == Self::keep(old(self).all(), *old(msg), i as int), decreases self.adjusters@.len() - i {\n let pair = nth_mut(&mut self.adjusters, i); i += 1; let adj = &mut pair.0; let should_adjust = &mut pair.1; ## for over &mut
//@opt /retval &= ([^;]*);/ => retval = and(retval, \1); ## non-strict and on bools
//@end
//@fn src/client/queue.rs :: impl Adjuster for MultiAdjuster :: reset
//@spec
        ensures
            final(self).all().len() == old(self).all().len(),
            forall|k: int| 0 <= k < old(self).all().len() ==> !(#[trigger] final(self).all()[k]).1 && final(self).all()[k].0 == old(self).all()[k].0.cleared(),
//@sub /for \(adj, should_adjust\) in &mut self\.adjusters \{/ => let mut i: usize = 0;\n        while i < self.adjusters.len()\n invariant i <= self.adjusters@.len(), self.adjusters@.len() == old(self).all().len(), forall|k: int| i <= k < old(self).all().len() ==> (#[trigger] self.adjusters@[k]) == old(self).all()[k], forall|k: int| 0 <= k < i ==> !(#[trigger] self.adjusters@[k]).1 && self.adjusters@[k].0 == old(self).all()[k].0.cleared(), decreases self.adjusters@.len() - i {\n let pair = nth_mut(&mut self.adjusters, i); i += 1; let adj = &mut pair.0; let should_adjust = &mut pair.1; ## for over &mut
//@end
}
//@item src/client/queue.rs :: pub struct QueueEditGuard
//@end
impl<'a> QueueEditGuard<'a> {
    pub closed spec fn start(&self) -> int { self.orig_len as int }
    pub closed spec fn cur(&self) -> Queue { *self.queue }
    #[verifier::prophetic]
    pub closed spec fn end(&self) -> Queue { *final(self.queue) }
    pub open spec fn inv(&self) -> bool { self.start() <= self.cur().q().len() }
    /// The queue behind the guard is the same, before `start` unchanged, and ends as it will end.
    #[verifier::prophetic]
    pub open spec fn kept(&self, o: &Self) -> bool {
        self.start() == o.start() && self.end() == o.end() && self.cur().same_rate(&o.cur()) && self.inv()
    }
}
impl QueueEditGuard<'_> {
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: push
//@spec
        requires old(self).inv(),
        ensures final(self).kept(old(self)), final(self).cur().q() == old(self).cur().q().push(msg), final(self).cur().labels() == old(self).cur().labels(),
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: push_labeled
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).kept(old(self)), (r is Some) == old(self).cur().labels(), final(self).cur().labels() == old(self).cur().labels(),
            final(self).cur().q().len() == old(self).cur().q().len() + 1, final(self).cur().q().drop_last() == old(self).cur().q(),
            // The message carries exactly the label returned, and is otherwise as given.
            ({ let m = final(self).cur().q().last(); m.source == msg.source && m.cmd == msg.cmd && m.args == msg.args && m.tags@ == match r { Some(l) => msg.tags@.insert(label_key("label"@), l@), None => msg.tags@ } }),
//@sub /self\.queue\.labeler\.as_deref_mut\(\)\.map\(\|labeler\| \{/ => match self.queue.labeler.as_mut() { Some(labeler) => Some({ ## closure
//@sub /\n        \}\);\n        self\.push/ => \n        }), None => None };\n        self.push ## closure
//@sub /labeler\(\)/ => labeler.call() ## dyn
//@sub /\.edit\(\)\.insert_pair\(Key::from_str\((".*?")\), / => .insert_pair(\1,  ## a guard dropped at once
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: is_using_labeler
//@ret r
//@spec
        ensures r == self.cur().labels(),
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: len
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.cur().q().len() - self.start(),
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self.cur().q().len() == self.start()),
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: clear
//@ret r
//@spec
        requires old(self).inv(),
        ensures *final(self) == *final(r), (*r).kept(old(self)), (*r).cur().q() == old(self).cur().q().take(old(self).start()), (*r).cur().labels() == old(self).cur().labels(),
//@end
//@fn src/client/queue.rs :: impl QueueEditGuard<'_> :: edit
//@ret r
//@spec
        requires old(self).inv(),
        ensures r.start() == old(self).cur().q().len(), r.inv(), r.cur() == old(self).cur(), r.end() == final(self).cur(), final(self).start() == old(self).start(), final(self).end() == old(self).end(),
//@end
}
//@link client.rs :: impl Queue
is_empty pop_wait adjust reset edit
//@end
}
fn main() {}
