// ---- Literals ----
/// An ASCII literal is the bytes of its characters.
pub broadcast axiom fn ascii_text(s: &str) requires forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) as u32 <= 127 ensures #[trigger] text(s) == s@.map_values(|c: char| c as u8);
#[verifier::external_body]
pub fn is_lit(x: &[u8], s: &'static str) -> (r: bool) ensures r == (x@ == text(s)) { unimplemented!() }
// ---- Client messages, by the contracts proved in message.rs and args.rs ----
/// std::sync::Arc
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { t: T }
impl<T> Arc<T> { pub uninterp spec fn view(&self) -> T; }
//@item src/ircmsg/client.rs :: struct ClientMsg
//@attr
pub
//@end
/// add: as the last argument, long if it has to be (proved in args.rs).
pub open spec fn added(w: Seq<Seq<u8>>, s: Seq<u8>) -> (Seq<Seq<u8>>, Option<Seq<u8>>) { if ok_Arg(s) { (w.push(s), None) } else { (w, Some(s)) } }
pub open spec fn room(src: Option<Src>, kind: Seq<u8>, w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> int { write_msg(Seq::empty(), src, kind, w, l).len() - write_args(w, l).len() + args_room(w, l) }
pub open spec fn args_room(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> int { if w.len() == 0 && l is None { 0 } else { write_args(w, l).len() + (if l is None { 1int } else { 0 }) } }
pub open spec fn clamp(x: int) -> int { if x <= isize::MAX { x } else { isize::MAX as int } }
pub open spec fn osrc<'a>(s: Option<&Source<'a>>) -> Option<Src> { match s { Some(x) => Some(x@), None => None } }
impl<'a> Args<'a> {
    /// edit().add(s) / edit().add_word(s) / edit().add_literal(s)
    #[verifier::external_body]
    pub fn edit_add(&mut self, s: Line<'a>) ensures (final(self).w(), final(self).l()) == added(old(self).w(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn edit_add_word(&mut self, s: Arg<'a>) ensures final(self).w() == old(self).w().push(s@), final(self).l() == old(self).l() { unimplemented!() }
    #[verifier::external_body]
    pub fn edit_add_literal(&mut self, s: &'static str) ensures (final(self).w(), final(self).l()) == added(old(self).w(), text(s)) { unimplemented!() }
    /// Derived.
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.w() == self.w(), r.l() == self.l() { unimplemented!() }
}
impl<'a> Tags<'a> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.t() == self.t() { unimplemented!() }
}
impl<'a> ClientMsg<'a> {
    #[verifier::external_body]
    pub const fn new_cmd(cmd: Cmd<'a>) -> (r: Self) ensures r.cmd == cmd, r.tags.t().len() == 0, r.args.list().len() == 0, r.args.w().len() == 0, r.args.l() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_left<'b>(&self, source: Option<&Source<'b>>) -> (r: isize)
        requires room(osrc(source), self.cmd@, self.args.w(), self.args.l()) + 1 < usize::MAX,
        ensures r == 510 - clamp(room(osrc(source), self.cmd@, self.args.w(), self.args.l())) { unimplemented!() }
    /// Derived.
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.tags.t() == self.tags.t(), r.cmd@ == self.cmd@, r.args.w() == self.args.w(), r.args.l() == self.args.l() { unimplemented!() }
}
/// A command's name constant.
#[verifier::external_body]
pub const fn name(s: &'static str) -> (r: Cmd<'static>) ensures r@ == text(s) { unimplemented!() }
// ---- Sinks: what was sent, in order ----
pub struct Sent { pub tags: Seq<Tag>, pub cmd: Seq<u8>, pub args: Seq<Seq<u8>> }
pub open spec fn sent_msg<'a>(m: ClientMsg<'a>) -> Sent { Sent { tags: m.tags.t(), cmd: m.cmd@, args: m.args.list() } }
pub trait ClientMsgSink {
    spec fn sent(&self) -> Seq<Sent>;
    fn send(&mut self, msg: ClientMsg<'static>) ensures final(self).sent() == old(self).sent().push(sent_msg(msg));
}
