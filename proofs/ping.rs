//@meta property C23
//@meta assume mangle and octal formatting are functions of their argument, otherwise uninterpreted
//@meta assume text constants are their text
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
//@include smsg.inc
#[verifier::external_body]
pub struct ClientState { x: u8 }
// ---- Time and tokens ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u64 }
#[verifier::external_body]
pub struct Duration { x: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { unimplemented!() }
}
/// crate::util::mangle: a hash; any function of the instant.
pub uninterp spec fn mangled(i: Instant) -> u64;
#[verifier::external_body]
pub fn mangle(i: &Instant) -> (r: u64) ensures r == mangled(*i) { unimplemented!() }
/// format!("{:o}"): octal digits.
pub uninterp spec fn octal_text(x: u64) -> Seq<u8>;
#[verifier::external_body]
pub fn octal(x: u64) -> (r: String) ensures otext(&r) == octal_text(x) { unimplemented!() }
pub broadcast axiom fn octal_ok(x: u64) ensures ok_Arg(#[trigger] octal_text(x));
#[verifier::external_body]
pub fn string_bytes(s: &String) -> (r: &[u8]) ensures r@ == otext(s) { s.as_bytes() }
#[verifier::external_body]
pub fn arg_from_string(s: String) -> (r: Arg<'static>) requires ok_Arg(otext(&s)) ensures r@ == otext(&s) { unimplemented!() }
/// SharedSource::owning_merged (C25).
#[verifier::external_body]
pub fn owning_source<'a>(s: &Option<SharedSource<'a>>) -> (r: Option<Source<'static>>) ensures match r { Some(x) => src_of(*s) == Some(x@), None => *s is None } { unimplemented!() }
// ---- Specification ----
pub open spec fn is_ping<'a>(m: ServerMsg<'a>) -> bool { m.kind@ == text("PING") }
/// The answer to a PING: its last argument, if any.
pub open spec fn answer(a: Seq<Seq<u8>>) -> Sent { Sent { tags: Seq::empty(), cmd: text("PONG"), args: if a.len() == 0 { Seq::empty() } else { seq![a.last()] } } }
pub open spec fn answered<'a>(m: ServerMsg<'a>, before: Seq<Sent>, after: Seq<Sent>) -> bool { after == (if is_ping(m) { before.push(answer(m.args.list())) } else { before }) }
pub open spec fn token(i: Instant) -> Seq<u8> { octal_text(mangled(i)) }
/// The reply to the ping with this token.
pub open spec fn is_reply<'a>(m: ServerMsg<'a>, t: Seq<u8>) -> bool { m.kind@ == text("PONG") && m.args.list().len() > 0 && m.args.list().last() == t }
proof fn added_none(x: Seq<u8>) ensures join(added(Seq::empty(), x).0, added(Seq::empty(), x).1) == seq![x] { assert(join(added(Seq::empty(), x).0, added(Seq::empty(), x).1) =~= seq![x]); }
/// C23: a sequence of messages is answered with one PONG for each PING, in order.
pub open spec fn answers<'a>(ms: Seq<ServerMsg<'a>>) -> Seq<Sent> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else if is_ping(ms.last()) { answers(ms.drop_last()).push(answer(ms.last().args.list())) } else { answers(ms.drop_last()) } }
proof fn all_answered<'a>(ms: Seq<ServerMsg<'a>>, m: ServerMsg<'a>, start: Seq<Sent>, q: Seq<Sent>)
    requires answered(m, start + answers(ms), q),
    ensures q == start + answers(ms.push(m)),
{ assert(ms.push(m).drop_last() =~= ms); assert(is_ping(m) ==> (start + answers(ms)).push(answer(m.args.list())) =~= start + answers(ms).push(answer(m.args.list()))); }
// ---- The code ----
//@item src/client/handlers/ping.rs :: pub struct Ping
//@sub /std::time::Instant/ => Instant ## path
//@attr
#[derive(Clone, Copy)]
//@end
//@item src/client/handlers/ping.rs :: pub struct AutoPong
//@end
impl Ping {
//@fn src/client/handlers/ping.rs :: impl Handler for Ping :: handle
//@ret r
//@spec
        ensures *final(self) == *old(self), (r is Break) == is_reply(*msg, token(old(self).0)),
            r is Break ==> final(channel).sent().len() == old(channel).sent().len() + 1 && final(channel).sent().drop_last() == old(channel).sent() && (match final(channel).sent().last().0 { Some(s) => src_of(msg.source) == Some(s@), None => msg.source is None }),
            r is Continue ==> final(channel).sent() == old(channel).sent(),
            final(queue).sent() == old(queue).sent(),
//@sub /_: &mut ClientState/ => state: &mut ClientState ## unnamed parameter
//@sub /_: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## unnamed parameter; by reference, so that its contents can be spoken of
//@sub /mut channel: SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<(Option<Source<'static>>, Duration)> ## by reference, so that its contents can be spoken of
//@sub /std::ops::ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /msg\.kind == PONG/ => msg.kind.is("PONG") ## name
//@sub /crate::util::mangle/ => mangle ## path
//@sub /last\.as_bytes\(\) == format!\("\{hash:o\}"\)\.as_bytes\(\)/ => bytes_eq(last.as_bytes(), string_bytes(&octal(hash))) ## formatting
//@sub /msg\.source\.clone\(\)\.map\(crate::ircmsg::SharedSource::owning_merged\)/ => owning_source(&msg.source) ## Option::map
//@before /return std::ops::ControlFlow::Break/
                    proof { assert(channel.sent().drop_last() =~= old(channel).sent()); }
//@end
//@fn src/client/handlers/ping.rs :: impl SelfMadeHandler for Ping :: queue_msgs
//@spec
        ensures final(queue).sent() == old(queue).sent().push(Sent { tags: Seq::empty(), cmd: text("PING"), args: seq![token(self.0)] }),
//@sub /_: &ClientState/ => state: &ClientState ## unnamed parameter
//@sub /mut queue: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /ClientMsg::new\(PING\)/ => ClientMsg::new_cmd(name("PING")) ## name constant
//@sub /crate::util::mangle/ => mangle ## path
//@sub /format!\("\{hash:o\}"\)\.try_into\(\)\.unwrap\(\)/ => arg_from_string(octal(hash)) ## formatting
//@sub /\.edit\(\)\.add_word\(/ => .edit_add_word( ## the guard and its operation in one
//@head
        broadcast use octal_ok;
//@before /queue\.push/
        proof { assert(msg.tags.t() =~= Seq::<Tag>::empty()); assert(msg.args.list() =~= seq![token(self.0)]); }
//@end
}
//@fn src/client/handlers/ping.rs :: pong
//@ret r
//@spec
    ensures r == is_ping(*msg), answered(*msg, old(queue).sent(), final(queue).sent()),
//@sub /pong\(/ => pong<S: ClientMsgSink>( ## the sink's type named
//@sub /mut queue: impl crate::client::ClientMsgSink<'static>/ => queue: &mut S ## by reference, so that its contents can be spoken of
//@sub /msg\.kind == PING/ => msg.kind.is("PING") ## name
//@sub /ClientMsg::new\(PONG\)/ => ClientMsg::new_cmd(name("PONG")) ## name constant
//@sub /\.edit\(\)\.add\(/ => .edit_add( ## the guard and its operation in one
//@after /let mut reply = .*;/
        proof { assert(reply.tags.t() =~= Seq::<Tag>::empty()); assert(reply.args.w() =~= Seq::empty()); if msg.args.list().len() > 0 { added_none(msg.args.list().last()); } assert(reply.args.list() =~= Seq::empty()); }
//@end
impl AutoPong {
//@fn src/client/handlers/ping.rs :: impl Handler for AutoPong :: handle
//@ret r
//@spec
        ensures r is Continue, answered(*msg, old(queue).sent(), final(queue).sent()),
//@sub /_: &mut ClientState/ => state: &mut ClientState ## unnamed parameter
//@sub /mut queue: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /_: SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<()> ## unnamed parameter
//@sub /std::ops::ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /&mut queue/ => queue ## by reference already
//@end
//@fn src/client/handlers/ping.rs :: impl SelfMadeHandler for AutoPong :: queue_msgs
//@spec
        ensures final(queue).sent() == old(queue).sent(),
//@sub /_: &ClientState/ => state: &ClientState ## unnamed parameter
//@sub /_: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## unnamed parameter
//@end
}
}
fn main() {}
