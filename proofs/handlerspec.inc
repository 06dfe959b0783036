// What handlers do with a message. Needs ServerMsg.
/// A record of all calls: which handler, with which message, and what it answered.
#[verifier::external_body]
pub struct Log { x: u8 }
pub struct Call<'a> { pub who: int, pub msg: ServerMsg<'a>, pub status: HandlerStatus }
impl Log { pub uninterp spec fn view(&self) -> Seq<Call<'static>>; }
/// Messages are compared by content only.
pub uninterp spec fn content(m: ServerMsg<'_>) -> int;
//@item src/client/handler.rs :: enum HandlerStatus
//@attr
pub
//@end
pub type Slot = (int, usize);
pub open spec fn ids(s: Seq<Slot>) -> Seq<usize> { s.map_values(|x: Slot| x.1) }
/// One visit: the handler and its answer.
pub struct Visit { pub slot: Slot, pub status: HandlerStatus }
pub open spec fn visited(e: Seq<Visit>) -> Seq<Slot> { e.map_values(|x: Visit| x.slot) }
pub open spec fn done_of(e: Seq<Visit>) -> Seq<Slot> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { let d = done_of(e.drop_last()); if e.last().status is Done { d.push(e.last().slot) } else { d } }
}
pub open spec fn yields(s: HandlerStatus) -> bool { match s { HandlerStatus::Keep { yielded, .. } => yielded, HandlerStatus::Done { yielded } => yielded } }
pub open spec fn yielded_of(e: Seq<Visit>) -> Seq<usize> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { let d = yielded_of(e.drop_last()); if yields(e.last().status) { d.push(e.last().slot.1) } else { d } }
}
/// The calls logged for a list of visits.
pub open spec fn logged(c: Seq<Call<'static>>, e: Seq<Visit>, m: int) -> bool {
    c.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] c[i]).who == e[i].slot.0 && c[i].status == e[i].status && content(c[i].msg) == m
}
/// How often an id is in use: by a handler or as a free one.
pub open spec fn uses(s: Seq<Slot>, free: Seq<usize>, k: usize) -> nat { ids(s).to_multiset().count(k) + free.to_multiset().count(k) }
pub open spec fn ids_ok(s: Seq<Slot>, free: Seq<usize>) -> bool { forall|k: usize| #[trigger] uses(s, free, k) == if k < s.len() + free.len() { 1nat } else { 0nat } }
/// C18: what a run of all handlers on one message does: each handler that was live is called exactly once, those that stay are exactly those not finished.
pub open spec fn ran(old: Seq<Slot>, new: Seq<Slot>, e: Seq<Visit>) -> bool {
    visited(e).to_multiset() == old.to_multiset() && new.to_multiset().add(done_of(e).to_multiset()) == old.to_multiset()
}
