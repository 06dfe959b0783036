//@meta property C18
//@meta assume dyn Handler and dyn Sender are boxed objects with uninterpreted behaviour
//@meta assume a handler does not reach the collection that calls it (it has no reference to it)
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::seq_lib::*;
verus! {
//@include std.inc
// ---- Handlers, by their calls ----
#[verifier::external_body]
pub struct ServerMsg<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct ClientState { x: u8 }
#[verifier::external_body]
pub struct Queue { x: u8 }
#[verifier::external_body]
pub struct QueueEditGuard<'a> { _p: core::marker::PhantomData<&'a mut u8> }
impl Queue {
    pub uninterp spec fn tellable(&self) -> bool;
    /// No method of the guard changes the rate limit (`kept` in queue.rs).
    #[verifier::external_body]
    pub fn edit(&mut self) -> QueueEditGuard<'_> ensures final(self).tellable() == old(self).tellable() { unimplemented!() }
}
/// Box<dyn FnMut(..) -> HandlerStatus>: any handler, with an identity.
#[verifier::external_body]
pub struct BoxHandler { x: u8 }
impl BoxHandler {
    pub uninterp spec fn who(&self) -> int;
    #[verifier::external_body]
    pub fn call(&mut self, msg: &ServerMsg<'_>, state: &mut ClientState, queue: QueueEditGuard<'_>, Tracked(log): Tracked<&mut Log>) -> (r: HandlerStatus)
        ensures final(self).who() == old(self).who(), exists|c: Call<'static>| #[trigger] final(log)@ == old(log)@.push(c) && c.who == old(self).who() && content(c.msg) == content(*msg) && c.status == r { unimplemented!() }
}
/// Box<dyn Handler<Value = T>> and Box<dyn Sender<Value = T>>.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DynHandler<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DynSender<T> { p: core::marker::PhantomData<T> }
pub enum ControlFlow<B> { Continue(()), Break(B) }
impl<B> ControlFlow<B> {
    pub fn is_break(&self) -> (r: bool) ensures r == (*self is Break) { match self { ControlFlow::Break(_) => true, _ => false } }
    pub fn is_continue(&self) -> (r: bool) ensures r == (*self is Continue) { match self { ControlFlow::Continue(_) => true, _ => false } }
}
//@item src/client/handler/channel.rs :: pub enum Sent
//@end
impl<T> DynHandler<T> {
    pub uninterp spec fn done(&self) -> bool;
    pub uninterp spec fn sent(&self) -> bool;
    /// Handler::handle: whether it ended, and whether it sent anything while it ran (SenderRef::send sets the flag).
    #[verifier::external_body]
    pub fn handle(&mut self, msg: &ServerMsg<'_>, state: &mut ClientState, queue: QueueEditGuard<'_>, sr: SenderRef<'_, T>) -> (r: ControlFlow<()>)
        ensures (r is Break) == final(self).done(), *final(sr.flag) == (*old(sr.flag) || final(self).sent()) { unimplemented!() }
    #[verifier::external_body]
    pub fn wants_owning(&self) -> bool { unimplemented!() }
}
impl<T> DynSender<T> {
    #[verifier::external_body]
    pub fn send(&mut self, v: T) -> ControlFlow<Sent> { unimplemented!() }
}
#[verifier::external_body]
pub fn box_handler<T>(h: DynHandler<T>, s: DynSender<T>) -> BoxHandler { unimplemented!() }
// ---- Trusted contracts on the standard library ----
#[verifier::external_body]
pub fn vec_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures old(v)@.len() <= isize::MAX, (r is Some) == (i < old(v)@.len()), match r { Some(x) => *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)), None => final(v)@ == old(v)@ } { unimplemented!() }
#[verifier::external_body]
pub fn position_id(v: &Vec<(BoxHandler, usize)>, id: usize) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int].1 == id, None => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).1 != id } { unimplemented!() }
#[verifier::external_body]
pub fn refuse() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vec_split_at<T>(v: &Vec<T>, n: usize) -> (r: (&[T], &[T])) requires n <= v@.len() ensures r.0@ == v@.take(n as int), r.1@ == v@.skip(n as int) { unimplemented!() }
// ---- Specification ----
//@include handlerspec.inc
pub open spec fn slots(v: Seq<(BoxHandler, usize)>) -> Seq<Slot> { v.map_values(|x: (BoxHandler, usize)| (x.0.who(), x.1)) }
/// C18: no two live handlers share an identifier.
proof fn ids_differ(s: Seq<Slot>, free: Seq<usize>, i: int, j: int)
    requires ids_ok(s, free), 0 <= i < j < s.len(),
    ensures s[i].1 != s[j].1,
{
    let t = ids(s);
    if t[i] == t[j] {
        assert(uses(s, free, t[i]) <= 1);
        let r = t.remove(i);
        t.to_multiset_ensures();
        r.to_multiset_ensures();
        assert(r.to_multiset() =~= t.to_multiset().remove(t[i]));
        assert(r[j - 1] == t[j]);
        assert(r.contains(t[j]));
        assert(t.contains(t[i]));
        assert(r.to_multiset().count(t[i]) > 0);
    }
}
proof fn none_used(s: Seq<Slot>, free: Seq<usize>)
    requires s.len() == 0, free.len() == 0,
    ensures ids_ok(s, free),
{
    ids(s).to_multiset_ensures();
    free.to_multiset_ensures();
}
/// A free id, or the number of handlers if there is none, is no live handler's.
proof fn taken_id(s: Seq<Slot>, free: Seq<usize>, w: int, id: usize)
    requires ids_ok(s, free), if free.len() > 0 { id == free.last() } else { id == s.len() },
    ensures ids_ok(s.push((w, id)), if free.len() > 0 { free.drop_last() } else { free }), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != id,
{
    let f = if free.len() > 0 { free.drop_last() } else { free };
    let t = ids(s);
    assert(ids(s.push((w, id))) =~= t.push(id));
    t.to_multiset_ensures();
    f.to_multiset_ensures();
    free.to_multiset_ensures();
    if free.len() > 0 { assert(f.push(id) =~= free); }
    assert forall|k: usize| #[trigger] uses(s.push((w, id)), f, k) == if k < s.push((w, id)).len() + f.len() { 1nat } else { 0nat } by { assert(uses(s, free, k) == if k < s.len() + free.len() { 1nat } else { 0nat }); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 != id by {
        if s[i].1 == id {
            assert(t[i] == id);
            assert(t.contains(id));
            assert(t.to_multiset().count(id) > 0);
            assert(uses(s.push((w, id)), f, id) >= 2);
        }
    }
}
proof fn swap_removed<X>(s: Seq<X>, i: int)
    requires 0 <= i < s.len(),
    ensures s.update(i, s.last()).drop_last().to_multiset() == s.to_multiset().remove(s[i]), s.to_multiset().count(s[i]) > 0, s.update(i, s.last()).drop_last().take(i) == s.take(i),
{
    let u = s.update(i, s.last());
    let r = u.drop_last();
    broadcast use group_to_multiset_ensures;
    assert(s.contains(s[i]));
    to_multiset_update(s, i, s.last());
    assert(u.remove(u.len() - 1) =~= r);
    to_multiset_remove(u, u.len() - 1);
    if i == s.len() - 1 { assert(u =~= s); } else { assert(u.last() == s.last()); }
    assert(r.to_multiset() =~= s.to_multiset().remove(s[i]));
    assert(r.take(i) =~= s.take(i));
}
proof fn visit_step(e: Seq<Visit>, v: Visit)
    ensures
        visited(e.push(v)) == visited(e).push(v.slot), done_of(e.push(v)) == (if v.status is Done { done_of(e).push(v.slot) } else { done_of(e) }),
        yielded_of(e.push(v)) == (if yields(v.status) { yielded_of(e).push(v.slot.1) } else { yielded_of(e) }),
{
    assert(e.push(v).drop_last() =~= e);
    assert(visited(e.push(v)) =~= visited(e).push(v.slot));
}
proof fn stepped(l0: Seq<Call<'static>>, l1: Seq<Call<'static>>, base: Seq<Call<'static>>, e: Seq<Visit>, v: Visit, m: int)
    requires l0.len() == base.len() + e.len(), l0.take(base.len() as int) == base, logged(l0.skip(base.len() as int), e, m),
        exists|c: Call<'static>| #[trigger] l0.push(c) == l1 && c.who == v.slot.0 && c.status == v.status && content(c.msg) == m,
    ensures l1.len() == base.len() + e.push(v).len(), l1.take(base.len() as int) == base, logged(l1.skip(base.len() as int), e.push(v), m),
{
    let c = choose|c: Call<'static>| #[trigger] l0.push(c) == l1 && c.who == v.slot.0 && c.status == v.status && content(c.msg) == m;
    assert(l1.take(base.len() as int) =~= l0.take(base.len() as int));
    assert(l1.skip(base.len() as int) =~= l0.skip(base.len() as int).push(c));
}
proof fn taken<X>(p: Seq<X>, i: int)
    requires 0 <= i < p.len(),
    ensures p.take(i + 1).to_multiset() == p.take(i).to_multiset().insert(p[i]),
{
    assert(p.take(i + 1) =~= p.take(i).push(p[i]));
    p.take(i).to_multiset_ensures();
}
/// The id of a handler that goes becomes free.
proof fn freed(p: Seq<Slot>, i: int, free: Seq<usize>)
    requires 0 <= i < p.len(), ids_ok(p, free),
    ensures ids_ok(p.update(i, p.last()).drop_last(), free.push(p[i].1)),
{
    let q = p.update(i, p.last()).drop_last();
    let t = ids(p);
    assert(ids(q) =~= t.update(i, t.last()).drop_last());
    swap_removed(t, i);
    free.to_multiset_ensures();
    assert forall|k: usize| #[trigger] uses(q, free.push(p[i].1), k) == if k < q.len() + free.push(p[i].1).len() { 1nat } else { 0nat } by { assert(uses(p, free, k) == if k < p.len() + free.len() { 1nat } else { 0nat }); }
}
// ---- The code ----
//@item src/client/handler.rs :: struct Handlers
//@attr
pub
//@end
impl Handlers {
    pub closed spec fn live(&self) -> Seq<Slot> { slots(self.handlers@) }
    pub closed spec fn free(&self) -> Seq<usize> { self.finished@ }
    pub closed spec fn out(&self) -> Seq<usize> { self.yielded@ }
    pub open spec fn inv(&self) -> bool { ids_ok(self.live(), self.free()) }
//@fn src/client/handler.rs :: impl Default for Handlers :: default
//@ret r
//@spec
        ensures r.inv(), r.live().len() == 0, r.free().len() == 0,
//@head
        proof { assert forall|s: Seq<Slot>, f: Seq<usize>| s.len() == 0 && f.len() == 0 implies #[trigger] ids_ok(s, f) by { none_used(s, f); } }
//@end
//@fn src/client/handler.rs :: impl Handlers :: add
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).live().len() == old(self).live().len() + 1, final(self).live().drop_last() == old(self).live(), final(self).live().last().1 == r,
            // The identifier is not that of a live handler.
            forall|i: int| 0 <= i < old(self).live().len() ==> (#[trigger] old(self).live()[i]).1 != r,
//@before /let boxed = /
        let ghost hs = self.handlers@;
        proof { if old(self).free().len() > 0 { assert(self.free() =~= old(self).free().drop_last()); } }
//@post
        proof {
            let w = self.handlers@.last().0.who();
            assert(self.live() =~= old(self).live().push((w, r)));
            assert(self.live().drop_last() =~= old(self).live());
            taken_id(old(self).live(), old(self).free(), w, r);
        }
//@sub /add<T: 'static>/ => add<T> ## lifetimes
//@sub /Box<dyn Handler<Value = T>>/ => DynHandler<T> ## dyn
//@sub /Box<dyn Sender<Value = T> \+ Send>/ => DynSender<T> ## dyn
//@sub /self\.wants_owning \|= (.*);/ => self.wants_owning = self.wants_owning || \1; ## compound assignment on bool
//@end
//@fn src/client/handler.rs :: impl Handlers :: is_empty
//@ret r
//@spec
        ensures r == (self.live().len() == 0),
//@end
//@fn src/client/handler.rs :: impl Handlers :: cancel_one
//@spec
        requires old(self).inv(), exists|i: int| 0 <= i < old(self).live().len() && (#[trigger] old(self).live()[i]).1 == id,
        ensures final(self).inv(), exists|w: int| final(self).live().to_multiset().insert(#[trigger] slot(w, id)) == old(self).live().to_multiset(), final(self).free() == old(self).free().push(id),
//@before /self\.handlers\.swap_remove/
            proof {
                let p = slots(self.handlers@);
                let q = p.update(idx as int, p.last()).drop_last();
                freed(p, idx as int, self.finished@);
                swap_removed(p, idx as int);
                assert(slots(self.handlers@.update(idx as int, self.handlers@.last()).drop_last()) =~= q);
                assert(p[idx as int] == slot(p[idx as int].0, id));
                assert(q.to_multiset().insert(slot(p[idx as int].0, id)) =~= p.to_multiset());
            }
//@sub /self\.handlers\.iter\(\)\.position\(\|\(_, id2\)\| id == \*id2\)/ => position_id(&self.handlers, id) ## iterator
//@sub /self\.wants_owning &= (.*);/ => self.wants_owning = self.wants_owning && \1; ## compound assignment on bool
//@sub /panic!\(".*"\)/ => refuse() ## must be unreachable
//@end
//@fn src/client/handler.rs :: impl Handlers :: cancel
//@spec
        ensures final(self).inv(), final(self).live().len() == 0, final(self).free().len() == 0, final(self).out().len() == 0,
//@post
        proof { none_used(self.live(), self.free()); }
//@end
//@fn src/client/handler.rs :: impl Handlers :: has_results
//@ret r
//@spec
        ensures r == (self.out().len() > 0 || self.free().len() > finished_at),
//@end
//@fn src/client/handler.rs :: impl Handlers :: last_run_results
//@ret r
//@spec
        requires finished_at <= self.free().len(),
        ensures r.0@ == self.out(), r.1@ == self.free().skip(finished_at as int),
//@sub /self\.finished\.split_at\(/ => vec_split_at(&self.finished,  ## slice method
//@end
//@fn src/client/handler.rs :: impl Handlers :: handle
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), r == old(self).free().len(), final(queue).tellable() == old(queue).tellable(),
            exists|e: Seq<Visit>| ran(old(self).live(), final(self).live(), e)
                && final(log)@.len() == old(log)@.len() + e.len() && final(log)@.take(old(log)@.len() as int) == old(log)@ && logged(final(log)@.skip(old(log)@.len() as int), e, content(*msg))
                && final(self).out() == yielded_of(e) && final(self).free() == old(self).free() + ids(#[trigger] done_of(e)),
//@head
        let ghost P0 = self.live();
        let ghost F0 = self.free();
        let ghost L0 = log@;
        let ghost mut e: Seq<Visit> = Seq::empty();
        let ghost mut p = slots(self.handlers@);
        proof {
            assert(ids(done_of(e)) =~= Seq::empty());
            assert(F0 + ids(done_of(e)) =~= F0);
            assert(visited(e) =~= Seq::empty() && p.take(0) =~= Seq::empty());
            assert(log@.take(L0.len() as int) =~= L0);
            p.to_multiset_ensures(); visited(e).to_multiset_ensures(); done_of(e).to_multiset_ensures();
            assert(p.to_multiset().add(done_of(e).to_multiset()) =~= P0.to_multiset());
        }
//@loop 0
            invariant
                p == slots(self.handlers@), i <= p.len(), finished_at == F0.len(), queue.tellable() == old(queue).tellable(),
                p.to_multiset().add(done_of(e).to_multiset()) == P0.to_multiset(),
                p.take(i as int).to_multiset().add(done_of(e).to_multiset()) == visited(e).to_multiset(),
                self.finished@ == F0 + ids(done_of(e)), self.yielded@ == yielded_of(e), ids_ok(p, self.finished@),
                log@.len() == L0.len() + e.len(), log@.take(L0.len() as int) == L0, logged(log@.skip(L0.len() as int), e, content(*msg)),
            ensures i >= p.len(),
            decreases self.handlers@.len() - i,
//@before /match \(handler\)/
            let ghost l0 = log@;
            proof { assert((*handler).who() == p[i as int].0 && *id == p[i as int].1); }
//@before /i \+= 1;/
                    proof {
                        let v = Visit { slot: p[i as int], status: HandlerStatus::Keep { yielded, wants_owning } };
                        assert(slots(self.handlers@) =~= p);
                        stepped(l0, log@, L0, e, v, content(*msg));
                        taken(p, i as int);
                        visit_step(e, v);
                        visited(e).to_multiset_ensures();
                        assert(p.take(i + 1).to_multiset().add(done_of(e).to_multiset()) =~= visited(e).to_multiset().insert(p[i as int]));
                        e = e.push(v);
                    }
//@before /let _ = self\.handlers\.swap_remove/
                    let ghost hs = self.handlers@;
                    proof {
                        let v = Visit { slot: p[i as int], status: HandlerStatus::Done { yielded } };
                        assert(slots(hs) =~= p);
                        stepped(l0, log@, L0, e, v, content(*msg));
                        visit_step(e, v);
                        freed(p, i as int, F0 + ids(done_of(e)));
                        swap_removed(p, i as int);
                        visited(e).to_multiset_ensures();
                        done_of(e).to_multiset_ensures();
                        assert(F0 + ids(done_of(e).push(p[i as int])) =~= (F0 + ids(done_of(e))).push(p[i as int].1));
                        e = e.push(v);
                        let q = p.update(i as int, p.last()).drop_last();
                        assert(slots(hs.update(i as int, hs.last()).drop_last()) =~= q);
                        assert(q.to_multiset().add(done_of(e).to_multiset()) =~= P0.to_multiset());
                        assert(q.take(i as int).to_multiset().add(done_of(e).to_multiset()) =~= visited(e).to_multiset());
                        p = q;
                    }
//@post
        proof { assert(p.take(p.len() as int) =~= p); assert(ran(P0, p, e)); }
//@sub /queue: &mut Queue,/ => queue: &mut Queue, Tracked(log): Tracked<&mut Log>, ## ghost log
//@sub /self\.handlers\.get_mut\(i\)/ => vec_get_mut(&mut self.handlers, i) ## slice method
//@sub /\(handler\)\(msg, state, queue\.edit\(\)\)/ => handler.call(msg, state, queue.edit(), Tracked(log)) ## call of the boxed closure
//@sub /self\.wants_owning \|= (.*);/ => self.wants_owning = self.wants_owning || \1; ## compound assignment on bool
//@end
}
pub open spec fn slot(w: int, id: usize) -> Slot { (w, id) }
//@item src/client/handler/channel.rs :: pub struct SenderRef
//@attr
#[verifier::reject_recursive_types(T)]
//@sub /&'a mut dyn Sender<Value = T>/ => &'a mut DynSender<T> ## dyn
//@sub /pub\(super\)/ => pub ## visibility
//@end
impl<'a, T> SenderRef<'a, T> {
//@fn src/client/handler/channel.rs :: impl<'a, T> SenderRef<'a, T> :: send
//@ret r
//@spec
        ensures *final(self).flag == (*old(self).flag || !(r matches ControlFlow::Break(Sent::Closed))), *final(final(self).flag) == *final(old(self).flag),
//@sub /\*self\.flag \|= (.*);/ => *self.flag = *self.flag || \1; ## compound assignment on bool
//@end
}
// ---- Channels: a send counts (SenderRef::send) exactly if the value was delivered ----
/// What a channel has taken.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Taken<T> { p: core::marker::PhantomData<T> }
impl<T> Taken<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn counts(r: ControlFlow<Sent>) -> bool { !(r matches ControlFlow::Break(Sent::Closed)) }
pub open spec fn delivered<T>(a: Seq<T>, b: Seq<T>, v: T, r: ControlFlow<Sent>) -> bool { b == if counts(r) { a.push(v) } else { a } }
/// The channels of std and tokio: Ok exactly if the value was taken.
//@for N,P in MpscSender,&self UnboundedSender,&self OneshotSender,self OwnOneshotSender,self
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct {N}<T> { p: core::marker::PhantomData<T> }
impl<T> {N}<T> {
    #[verifier::external_body]
    pub fn send({P}, v: T, Tracked(t): Tracked<&mut Taken<T>>) -> (r: Result<(), T>) ensures final(t)@ == if r is Ok { old(t)@.push(v) } else { old(t)@ } { unimplemented!() }
}
//@endfor
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WeakUnboundedSender<T> { p: core::marker::PhantomData<T> }
impl<T> WeakUnboundedSender<T> {
    #[verifier::external_body]
    pub fn upgrade(&self) -> Option<UnboundedSender<T>> { unimplemented!() }
}
//@item src/client/handler/channel.rs :: pub struct ClosedSender
//@attr
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
//@end
pub trait Sender: Sized {
    type Value;
    fn send(&mut self, value: Self::Value, Tracked(t): Tracked<&mut Taken<Self::Value>>) -> (r: ControlFlow<Sent>) ensures delivered(old(t)@, final(t)@, value, r);
}
impl<T> Sender for ClosedSender<T> {
    type Value = T;
//@fn src/client/handler/channel.rs :: impl<T> Sender for ClosedSender<T> :: send
//@ret r
//@sub /_value: T\)/ => value: T, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@end
}
impl<T> Sender for MpscSender<T> {
    type Value = T;
//@fn src/client/handler/channel.rs :: impl<T> Sender for std::sync::mpsc::Sender<T> :: send
//@ret r
//@sub /value: T\)/ => value: T, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@sub /std::sync::mpsc::Sender::send\(&\*self, value\)/ => MpscSender::send(&*self, value, Tracked(t)) ## path; ghost
//@end
}
impl<T> Sender for Option<OneshotSender<T>> {
    type Value = T;
//@fn src/client/handler/channel.rs :: impl<T> Sender for Option<tokio::sync::oneshot::Sender<T>> :: send
//@ret r
//@sub /value: Self::Value\)/ => value: Self::Value, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@sub /\.send\(value\)/ => .send(value, Tracked(t)) ## ghost
//@end
}
impl<T> Sender for UnboundedSender<T> {
    type Value = T;
//@fn src/client/handler/channel.rs :: impl<T> Sender for tokio::sync::mpsc::UnboundedSender<T> :: send
//@ret r
//@sub /value: T\)/ => value: T, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@sub /tokio::sync::mpsc::UnboundedSender::send\(&\*self, value\)/ => UnboundedSender::send(&*self, value, Tracked(t)) ## path; ghost
//@end
}
impl<T> Sender for WeakUnboundedSender<T> {
    type Value = T;
//@fn src/client/handler/channel.rs :: impl<T> Sender for tokio::sync::mpsc::WeakUnboundedSender<T> :: send
//@ret r
//@sub /value: T\)/ => value: T, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@sub /sender\.send\(value\)/ => UnboundedSender::send(&sender, value, Tracked(t)) ## ghost
//@end
}
impl<T> Sender for Option<OwnOneshotSender<T>> {
    type Value = T;
//@fn src/client/handler/channel/oneshot.rs :: impl<T> super::Sender for Option<Sender<T>> :: send
//@ret r
//@sub /value: Self::Value\)/ => value: Self::Value, Tracked(t): Tracked<&mut Taken<T>>) ## ghost
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /super::Sent\b/ => Sent ## path
//@sub /\.send\(value\)/ => .send(value, Tracked(t)) ## ghost
//@end
}
/// The wakers are not described.
pub struct Unparker<S>(pub S, pub Waking);
#[verifier::external_body]
pub struct Waking { x: u8 }
impl<S> Unparker<S> {
    #[verifier::external_body]
    pub fn unpark(&self) { unimplemented!() }
}
impl<S: Sender> Sender for Unparker<S> {
    type Value = <S as Sender>::Value;
//@fn src/client/handler/channel/parker.rs :: impl<S: super::Sender> super::Sender for Unparker<S> :: send
//@ret r
//@sub /value: Self::Value\)/ => value: Self::Value, Tracked(t): Tracked<&mut Taken<Self::Value>>) ## ghost
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /super::Sent\b/ => Sent ## path
//@sub /\.send\(value\)/ => .send(value, Tracked(t)) ## ghost
//@opt /result != ControlFlow::Break\(Sent::Closed\)/ => !matches!(result, ControlFlow::Break(Sent::Closed)) ## derived equality
//@end
}
/// The closure that box_handler makes, as a function of what it captures.
//@fn src/client/handler.rs :: box_handler
//@name boxed_call
//@ret r
//@spec
        ensures (r is Done) == final(handler).done(), yields(r) == final(handler).sent(),
//@sub /fn box_handler<T: 'static>\(\s*mut handler: Box<dyn Handler<Value = T>>,\s*mut sender: Box<dyn Sender<Value = T> \+ Send>,\s*\) -> BoxHandler/ => fn boxed_call<T>(handler: &mut DynHandler<T>, sender: &mut DynSender<T>, msg: &ServerMsg<'_>, state: &mut ClientState, queue: QueueEditGuard<'_>) -> HandlerStatus ## closure
//@sub /Box::new\(move \|msg, state, queue\| \{/ => { ## closure
//@sub /\}\)\s*\}\s*$/ => }} ## closure
//@end
//@link client.rs :: impl Handlers
is_empty add cancel has_results last_run_results handle
//@end
}
fn main() {}
