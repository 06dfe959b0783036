//@meta property C24
//@meta assume text constants are their text
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
//@include smsg.inc
//@include ctcpspec.inc
#[verifier::external_body]
pub struct ClientState { x: u8 }
#[verifier::external_body]
pub fn invalid_args() -> ParseError { unimplemented!() }
/// Slice patterns: `([x], Some(y))`, `Some([x])`.
pub fn pat_one_last<'b, 'a>(s: (&'b [Arg<'a>], Option<&'b Line<'a>>)) -> (r: (Option<&'b Arg<'a>>, Option<&'b Line<'a>>))
    ensures r.1 == s.1, match r.0 { Some(x) => views(s.0@).len() == 1 && views(s.0@)[0] == x@, None => views(s.0@).len() != 1 }
{ (if s.0.len() == 1 { Some(&s.0[0]) } else { None }, s.1) }
pub fn pat_one<'b, 'a>(s: Option<&'b [Arg<'a>]>) -> (r: Option<&'b Arg<'a>>)
    ensures match r { Some(x) => s matches Some(v) && views(v@).len() == 1 && views(v@)[0] == x@, None => s matches Some(v) ==> views(v@).len() != 1 }
{ match s { Some(v) => if v.len() == 1 { Some(&v[0]) } else { None }, None => None } }
/// Arc: Deref, Clone.
#[verifier::external_body]
pub fn arc_ref<'b, 'a>(s: &'b SharedSource<'a>) -> (r: &'b Source<'a>) ensures *r == s.0@ { unimplemented!() }
#[verifier::external_body]
pub fn clone_source<'a>(s: &Option<SharedSource<'a>>) -> (r: Option<SharedSource<'a>>) ensures src_of(r) == src_of(*s) { unimplemented!() }
/// From<Nick>, proved in C03_types.rs.
#[verifier::external_body]
pub fn arg_from_nick<'a>(n: Nick<'a>) -> (r: Arg<'a>) ensures r@ == n@ { unimplemented!() }
// ---- CTCP messages, by the contracts proved in ctcp.rs ----
//@item src/ircmsg/ctcp.rs :: pub struct MaybeCtcp
//@end
#[verifier::external_body]
pub fn maybe_ctcp_from_line<'a>(value: Line<'a>) -> (r: MaybeCtcp<'a, Line<'a>>) ensures (r.cmd@, r.body@) == ctcp(value@) { unimplemented!() }
#[verifier::external_body]
pub fn line_from_maybe_ctcp<'a>(value: MaybeCtcp<'a, Line<'a>>) -> (r: Line<'a>)
    requires value.cmd@.len() + 3 + value.body@.len() <= usize::MAX,
    ensures r@ == written(value.cmd@, value.body@) { unimplemented!() }
// ---- Specification ----
/// A message with one target: the target and the text, if it has that form.
pub open spec fn targeted(a: Seq<Seq<u8>>) -> Option<(Seq<u8>, Seq<u8>)> { if a.len() == 2 { Some((a[0], a[1])) } else { None } }
pub open spec fn notice(to: Seq<u8>, cmd: Seq<u8>, body: Seq<u8>) -> Sent { let w = added(seq![to], written(cmd, body)); Sent { tags: Seq::empty(), cmd: text("NOTICE"), args: join(w.0, w.1) } }
/// The query a message is: a PRIVMSG with a sender whose text is CTCP.
pub open spec fn query<'a>(m: ServerMsg<'a>) -> Option<(Seq<u8>, Seq<u8>)> {
    match (targeted(m.args.list()), src_of(m.source)) {
        (Some(t), Some(s)) => if m.kind@ == text("PRIVMSG") { Some((s.0, ctcp(t.1).0)) } else { None },
        _ => None,
    }
}
pub open spec fn reply<'a>(m: ServerMsg<'a>, version: Seq<u8>, source: Seq<u8>) -> Seq<Sent> {
    match query(m) {
        Some((from, cmd)) =>
            if cmd == text("VERSION") && version.len() > 0 { seq![notice(from, cmd, version)] }
            else if cmd == text("SOURCE") && source.len() > 0 { seq![notice(from, cmd, source)] }
            else { Seq::empty() },
        None => Seq::empty(),
    }
}
proof fn lits() ensures text("VERSION").len() == 7, text("SOURCE").len() == 6, text("VERSION") != text("SOURCE") {
    broadcast use ascii_text;
    reveal_strlit("VERSION"); reveal_strlit("SOURCE");
    assert(text("VERSION").len() == 7); assert(text("SOURCE").len() == 6);
}
/// C24: the reply reads back as the command asked for and the configured text.
proof fn reply_reads_back<'a>(m: ServerMsg<'a>, version: Seq<u8>, source: Seq<u8>, from: Seq<u8>, cmd: Seq<u8>)
    requires query(m) == Some((from, cmd)), cmd == text("VERSION"), version.len() > 0,
    ensures reply(m, version, source).len() == 1, reply(m, version, source)[0].args == seq![from, written(cmd, version)],
{ let w = added(seq![from], written(cmd, version)); assert(join(w.0, w.1) =~= seq![from, written(cmd, version)]); }
/// Nothing but a PRIVMSG is answered: replies are notices and so answer nothing themselves.
proof fn no_loops<'a>(m: ServerMsg<'a>, version: Seq<u8>, source: Seq<u8>)
    requires m.kind@ != text("PRIVMSG"),
    ensures reply(m, version, source) =~= Seq::<Sent>::empty(),
{ }
// ---- The code ----
//@item src/ircmsg/targeted.rs :: pub struct TargetedMsg
//@end
impl<'a, T> TargetedMsg<'a, T> {
//@fn src/ircmsg/targeted.rs :: impl<'a, T> TargetedMsg<'a, T> :: new
//@ret r
//@spec
        ensures r.tags.t().len() == 0, r.source is None, r.target == target, r.value == value,
//@end
//@fn src/ircmsg/targeted.rs :: impl<'a, T> TargetedMsg<'a, T> :: map
//@ret r
//@spec
        requires f.requires((self.value,)),
        ensures r.tags == self.tags, r.source == self.source, r.target == self.target, f.ensures((self.value,), r.value),
//@end
//@fn src/ircmsg/targeted.rs :: impl<'a, T> TargetedMsg<'a, T> :: map_result
//@ret r
//@spec
        requires f.requires((self.value,)),
        ensures match r { Ok(x) => x.tags == self.tags && x.source == self.source && x.target == self.target && f.ensures((self.value,), Ok(x.value)), Err(e) => exists|e2: E| #[trigger] f.ensures((self.value,), Err(e2)) },
//@end
}
//@for X in PRIVMSG NOTICE PART TOPIC
//@fn @expanded :: impl NameValued<ServerMsgKind> for {X} :: from_union
//@name server_{X}
//@ret r
//@spec
    ensures match targeted(input.args.list()) { Some(t) => r matches Ok(x) && x.tags.t() == input.tags.t() && src_of(x.source) == src_of(input.source) && x.target@ == t.0 && x.value@ == t.1, None => r is Err },
//@sub /&<ServerMsgKind as super::NameClass>::Union<'a>/ => &ServerMsg<'a> ## the class's message type
//@sub /Self::Value<'a>/ => TargetedMsg<'a, Line<'a>> ## the name's value type
//@sub /crate::error::ParseError/ => ParseError ## path
//@sub /ParseError::InvalidField\([^;]*\)(?=\);)/ => invalid_args() ## error value
//@sub /\(\[target\], Some\(value\)\) =\s*args\.split_last\(\)/ => (Some(target), Some(value)) = pat_one_last(args.split_last()) ## slice pattern
//@sub /source\.clone\(\)/ => clone_source(source) ## Option<Arc>: Clone
//@end
//@fn @expanded :: impl NameValued<ClientMsgKind> for {X} :: from_union
//@name client_{X}
//@ret r
//@spec
    ensures match targeted(input.args.list()) { Some(t) => r matches Ok(x) && x.tags.t() == input.tags.t() && x.source is None && x.target@ == t.0 && x.value@ == t.1, None => r is Err },
//@sub /&<ClientMsgKind as super::NameClass>::Union<'a>/ => &ClientMsg<'a> ## the class's message type
//@sub /Self::Value<'a>/ => TargetedMsg<'a, Line<'a>> ## the name's value type
//@sub /crate::error::ParseError/ => ParseError ## path
//@sub /ParseError::InvalidField\([^;]*\)(?=\);)/ => invalid_args() ## error value
//@sub /\(\[target\], Some\(value\)\) =\s*args\.split_last\(\)/ => (Some(target), Some(value)) = pat_one_last(args.split_last()) ## slice pattern
//@end
//@endfor
impl<'a> ServerMsg<'a> {
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: parse_as
//@name parse_as_PRIVMSG
//@ret r
//@spec
        ensures match targeted(self.args.list()) { Some(t) => r matches Ok(x) && x.tags.t() == self.tags.t() && src_of(x.source) == src_of(self.source) && x.target@ == t.0 && x.value@ == t.1, None => r is Err },
//@sub /<N>\(&self, _kind: N\)/ => (&self) ## at PRIVMSG, whose value holds nothing
//@sub /N::Value<'a>/ => TargetedMsg<'a, Line<'a>> ## the name's value type
//@sub /where\s+N: NameValued<ServerMsgKind>,/ => ## at PRIVMSG
//@sub /N::from_union/ => server_PRIVMSG ## at PRIVMSG
//@end
}
//@item src/client/handlers/autoreply.rs :: pub struct CtcpVersion
//@end
impl CtcpVersion {
//@fn src/client/handlers/autoreply.rs :: impl Handler for CtcpVersion :: handle
//@ret r
//@spec
        ensures r is Continue, *final(self) == *old(self), final(queue).sent() == old(queue).sent() + reply(*msg, old(self).version@, old(self).source@),
//@sub /_: &mut ClientState/ => state: &mut ClientState ## unnamed parameter
//@sub /mut queue: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /_: crate::client::channel::SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<()> ## unnamed parameter
//@sub /std::ops::ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@opt /msg\.kind != PRIVMSG/ => !msg.kind.is("PRIVMSG") ## name
//@opt /msg\.kind == PRIVMSG/ => msg.kind.is("PRIVMSG") ## name
//@sub /msg\.parse_as\(PRIVMSG\)/ => msg.parse_as_PRIVMSG() ## at PRIVMSG
//@sub /MaybeCtcp::from/ => |l: Line<'_>| -> (o: MaybeCtcp<'_, Line<'_>>) ensures (o.cmd@, o.body@) == ctcp(l@) { maybe_ctcp_from_line(l) } ## the function as a closure
//@sub /match msg\.value\.cmd\.as_bytes\(\) \{\s*b("\w+") if ([^=]*) => \{/ => { let c = msg.value.cmd.as_bytes(); if is_lit(c, \1) && \2 { ## literal pattern with a guard
//@sub /\bb("\w+") if ([^=]*) => \{/ => else if is_lit(c, \1) && \2 { ## literal pattern with a guard
//@sub /_ => \(\),/ => else { } ## default arm
//@sub /ClientMsg::new\(NOTICE\)/ => ClientMsg::new_cmd(name("NOTICE")) ## name constant
//@sub /let mut args = msg\.args\.edit\(\);/ => ## the guard and its operation in one
//@sub /args\.add_word\(source\.nick\.clone\(\)\.owning\(\)\)/ => msg.args.edit_add_word(arg_from_nick(arc_ref(&source).nick.clone().owning())) ## the guard and its operation in one; Deref; From
//@sub /args\.add\((MaybeCtcp \{[^}]*\})\)/ => msg.args.edit_add(line_from_maybe_ctcp(\1)) ## the guard and its operation in one; From
//@head
        proof { lits(); valid_Line(self.version); valid_Line(self.source);
            assert forall|t: Tags<'_>| (#[trigger] t.t()).len() == 0 implies t.t() == Seq::<Tag>::empty() by { assert(t.t() =~= Seq::empty()); }
            assert forall|a: Args<'_>| (#[trigger] a.w()).len() == 0 implies a.w() == Seq::<Seq<u8>>::empty() by { assert(a.w() =~= Seq::empty()); }
            assert(Seq::<Seq<u8>>::empty().push(src_of(msg.source)->Some_0.0) =~= seq![src_of(msg.source)->Some_0.0]);
            assert forall|q: Seq<Sent>, x: Sent| #[trigger] (q + seq![x]) == q.push(x) by { assert(q + seq![x] =~= q.push(x)); }
            assert(queue.sent() + Seq::empty() =~= queue.sent()); }
//@end
//@fn src/client/handlers/autoreply.rs :: impl SelfMadeHandler for CtcpVersion :: queue_msgs
//@spec
        ensures final(queue).sent() == old(queue).sent(),
//@sub /_: &ClientState/ => state: &ClientState ## unnamed parameter
//@sub /_: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## unnamed parameter
//@end
}
}
fn main() {}
