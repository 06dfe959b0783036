// ---- Server messages, by the contracts proved in message.rs and args.rs ----
//@item src/ircmsg/servermsgkind.rs :: pub enum ServerMsgKindRaw
//@end
//@item src/ircmsg/server.rs :: pub struct ServerMsg
//@end
//@item src/ircmsg/source.rs :: pub struct SharedSource
//@sub /\(std::sync::Arc</ => (pub Arc< ## path; visibility
//@end
impl<'a> ServerMsgKindRaw<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { ServerMsgKindRaw::Numeric(n) => n@, ServerMsgKindRaw::Cmd(c) => c@ } }
    /// PartialEq with the name of a command.
    #[verifier::external_body]
    pub fn is(&self, s: &'static str) -> (r: bool) ensures r == (self@ == text(s)) { unimplemented!() }
    /// Proved in message.rs.
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures text(r) == self@ { unimplemented!() }
}
pub open spec fn src_of<'a>(s: Option<SharedSource<'a>>) -> Option<Src> { match s { Some(x) => Some(x.0@@), None => None } }
impl<'a> Args<'a> {
    #[verifier::external_body]
    pub fn all(&self) -> (r: Option<&[Arg<'a>]>) ensures (r is Some) == (self.l() is None), r matches Some(x) ==> views(x@) == self.list() { unimplemented!() }
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { proof { assert((a@ == b@) == (a@ =~= b@)); } a == b }
pub enum ControlFlow<B, C> { Continue(C), Break(B) }
#[verifier::external_body]
pub struct QueueEditGuard<'a> { _p: core::marker::PhantomData<&'a u8> }
/// push: proved in queue.rs.
impl<'a> QueueEditGuard<'a> {
    pub uninterp spec fn sent(&self) -> Seq<Sent>;
    #[verifier::external_body]
    pub fn push<'b>(&mut self, msg: ClientMsg<'b>) ensures final(self).sent() == old(self).sent().push(sent_msg(msg)) { unimplemented!() }
}
impl<'a> ClientMsgSink for QueueEditGuard<'a> {
    open spec fn sent(&self) -> Seq<Sent> { QueueEditGuard::sent(self) }
    fn send(&mut self, msg: ClientMsg<'static>) { self.push(msg) }
}
/// The sending half of a handler's channel: what was sent.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SenderRef<T> { t: T }
impl<T> SenderRef<T> {
    pub uninterp spec fn sent(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn send(&mut self, v: T) ensures final(self).sent() == old(self).sent().push(v) { unimplemented!() }
}
