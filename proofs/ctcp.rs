//@meta property C24
//@meta assume message size below usize::MAX
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
// ---- Builder, by the contracts proved in builder.rs (its invariant holds between operations) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Builder<T> { t: T }
impl<T> Builder<T> { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn clean<T: Charset>(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !T::bad(#[trigger] s[i]) }
impl<'a, T: BytesNewtype<'a>> Builder<T> {
    #[verifier::external_body]
    pub fn new(init: T) -> (r: Self) ensures r@ == init.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_exact(&mut self, len: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn append<U: BytesNewtype<'a>>(&mut self, string: U) where T: Wider<'a, U> ensures final(self)@ == old(self)@ + string.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push_char(&mut self, c: char) -> (r: Result<(), InvalidString>)
        ensures (r is Ok) == clean::<T>(encode_utf8_char(c)), final(self)@ == if r is Ok { old(self)@ + encode_utf8_char(c) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: T) ensures r.v() == self@ { unimplemented!() }
}
/// The encoding of a character; that of an ASCII character is itself.
pub uninterp spec fn encode_utf8_char(c: char) -> Seq<u8>;
pub broadcast axiom fn ascii_char(c: char) ensures c as u32 <= 127 ==> #[trigger] encode_utf8_char(c) == seq![c as u8];
// ---- Casemapping, by the contracts proved in casemap.rs ----
pub struct AsciiCasemap<const UPPERCASE: bool>;
impl<'a> Word<'a> {
    #[verifier::external_body]
    pub fn transform<const U: bool>(&mut self, tf: AsciiCasemap<U>) ensures final(self)@ == case_of(U, old(self)@) { unimplemented!() }
}
// ---- Specification ----
//@include ctcpspec.inc
/// C24: what was written reads back the same.
proof fn inverse(cmd: Seq<u8>, body: Seq<u8>)
    requires cmd.len() > 0, ok_Word(cmd), ok_Line(body), case_of(true, cmd) == cmd, forall|i: int| 0 <= i < cmd.len() ==> #[trigger] cmd[i] != 1, forall|i: int| 0 <= i < body.len() ==> #[trigger] body[i] != 1,
    ensures ctcp(written(cmd, body)) == (cmd, body),
{
    let s = written(cmd, body);
    let t = s.drop_first();
    let a = cmd + seq![32u8] + body;
    assert(s[0] == 1);
    assert(t =~= a + seq![1u8]);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] t[i] != 1 by { if i < cmd.len() { assert(t[i] == cmd[i]); } else if i > cmd.len() { assert(t[i] == body[i - cmd.len() - 1]); } }
    assert(t[a.len() as int] == 1);
    until_is(t, 1, a.len() as int);
    assert(pre(t, a.len()) =~= a);
    assert forall|i: int| 0 <= i < cmd.len() implies !Word::bad(#[trigger] a[i]) by { assert(a[i] == cmd[i]); }
    assert(a[cmd.len() as int] == 32);
    span_is::<Word>(a, cmd.len() as int);
    assert(pre(a, cmd.len()) =~= cmd);
    assert(suf(a, cmd.len() + 1) =~= body);
}
/// C24: what is not CTCP is left alone.
proof fn not_ctcp(s: Seq<u8>)
    requires s.len() == 0 || s[0] != 1,
    ensures ctcp(s).0.len() == 0, ctcp(s).1 == s, written(ctcp(s).0, ctcp(s).1) == s,
{ }
// ---- The code ----
//@item src/ircmsg/ctcp.rs :: pub struct MaybeCtcp
//@end
impl<'a> MaybeCtcp<'a, Line<'a>> {
//@fn src/ircmsg/ctcp.rs :: impl<'a> MaybeCtcp<'a, Line<'a>> :: parse
//@ret r
//@spec
        ensures (r.cmd@, r.body@) == ctcp(value@),
//@sub /splitter\.next_byte\(\) == Some\(1\)/ => matches!(splitter.next_byte(), Some(1)) ## comparison of options
//@head
        proof { let t = value@.drop_first(); until_of(t, 1); span_of::<Word>(pre(t, until(t, 1))); }
//@before /let body = /
            proof { let a = pre(value@.drop_first(), until(value@.drop_first(), 1)); let k = span::<Word>(a); if k < a.len() { assert(suf(a, k).drop_first() =~= suf(a, (k + 1) as nat)); } }
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a> MaybeCtcp<'a, Line<'a>> :: into_line
//@ret r
//@spec
        requires self.cmd@.len() + 3 + self.body@.len() <= usize::MAX,
        ensures r@ == written(self.cmd@, self.body@),
//@sub /into_line<'b>\(self\) -> Line<'b>/ => into_line(self) -> Line<'a> ## builder output is owned
//@head
        broadcast use ascii_char;
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a> MaybeCtcp<'a, Line<'a>> :: is_empty
//@ret r
//@spec
        ensures r == (self.cmd@.len() == 0 && self.body@.len() == 0),
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a> MaybeCtcp<'a, Line<'a>> :: len
//@ret r
//@spec
        requires self.cmd@.len() + 3 + self.body@.len() <= usize::MAX,
        ensures r == written(self.cmd@, self.body@).len(),
//@end
}
impl<'a, T> MaybeCtcp<'a, T> {
//@fn src/ircmsg/ctcp.rs :: impl<'a, T> MaybeCtcp<'a, T> :: is_ctcp
//@ret r
//@spec
        ensures r == (self.cmd@.len() > 0),
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a, T> MaybeCtcp<'a, T> :: map
//@ret r
//@spec
        requires f.requires((self.body,)),
        ensures r.cmd == self.cmd, f.ensures((self.body,), r.body),
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a, T> MaybeCtcp<'a, T> :: map_result
//@ret r
//@spec
        requires f.requires((self.body,)),
        ensures match r { Ok(x) => x.cmd == self.cmd && f.ensures((self.body,), Ok(x.body)), Err(e) => exists|e2: E| #[trigger] f.ensures((self.body,), Err(e2)) },
//@end
}
//@fn src/ircmsg/ctcp.rs :: impl<'a> From<Line<'a>> for MaybeCtcp<'a, Line<'a>> :: from
//@name maybe_ctcp_from_line
//@ret r
//@spec
    ensures (r.cmd@, r.body@) == ctcp(value@),
//@sub /-> Self/ => -> MaybeCtcp<'a, Line<'a>> ## Self
//@sub /Self::/ => MaybeCtcp:: ## Self
//@sub /\bfrom\(value/ => from<'a>(value ## the impl's lifetime
//@end
//@fn src/ircmsg/ctcp.rs :: impl<'a, 'b> From<MaybeCtcp<'a, Line<'a>>> for Line<'b> :: from
//@name line_from_maybe_ctcp
//@ret r
//@spec
    requires value.cmd@.len() + 3 + value.body@.len() <= usize::MAX,
    ensures r@ == written(value.cmd@, value.body@),
//@sub /-> Self/ => -> Line<'a> ## Self; builder output is owned
//@sub /\bfrom\(value/ => from<'a>(value ## the impl's lifetime
//@end
}
fn main() {}
