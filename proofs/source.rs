//@meta property C09 C01 C02 C25
//@meta assume message size below usize::MAX
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include io.inc
//@include error.inc
// ---- Trusted contracts on the standard library ----
#[verifier::external_body]
pub struct NonZeroUsize { x: usize }
impl NonZeroUsize {
    pub uninterp spec fn val(&self) -> usize;
    #[verifier::external_body]
    pub const unsafe fn new_unchecked(x: usize) -> (r: NonZeroUsize) requires x != 0 ensures r.val() == x { unimplemented!() }
}
// ---- Builder, by the contracts proved in builder.rs (its invariant holds between operations) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Builder<T> { t: T }
impl<T> Builder<T> { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a, T: BytesNewtype<'a>> Builder<T> {
    #[verifier::external_body]
    pub fn new(init: T) -> (r: Self) ensures r@ == init.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn append<U: BytesNewtype<'a>>(&mut self, string: U) where T: Wider<'a, U> ensures final(self)@ == old(self)@ + string.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: T) ensures r.v() == self@ { unimplemented!() }
}
// ---- Specification ----
impl<'a> UserHost<'a> {
    pub open spec fn view(&self) -> UH { (match self.user { Some(u) => Some(u@), None => None }, self.host@) }
}
impl<'a> Source<'a> {
    pub open spec fn view(&self) -> (Seq<u8>, Option<UH>) { (self.n(), self.uh()) }
    pub open spec fn n(&self) -> Seq<u8> { self.nick@ }
    pub open spec fn uh(&self) -> Option<UH> { match self.userhost { Some(x) => Some(x@), None => None } }
    /// Its text.
    pub open spec fn out(&self) -> Seq<u8> { write_source(self.n(), self.uh()) }
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
/// Cutting a concatenation at a length gives back the piece.
pub proof fn cut_back<U: Charset>(p: Seq<u8>, q: Seq<u8>, all: Seq<u8>)
    requires all == p + q, ok::<U>(p),
    ensures pre(all, p.len()) == p, suf(all, p.len()) == q, span::<U>(p) == p.len(), pre(p, p.len()) == p, found::<U>(p, true),
{
    assert(pre(all, p.len()) =~= p);
    assert(suf(all, p.len()) =~= q);
    assert(pre(p, p.len()) =~= p);
    span_is::<U>(p, p.len() as int);
}
// ---- The code ----
//@item src/ircmsg/source.rs :: struct Source
//@attr
pub
//@end
//@item src/ircmsg/source.rs :: struct UserHost
//@attr
pub
//@end
impl<'a> Source<'a> {
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: new_server
//@ret r
//@spec
        ensures r.n() == server_name@, r.uh() is None,
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: new_user
//@ret r
//@spec
        ensures r.n() == nick@, r.uh() == Some::<UH>((Some(user@), host@)),
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: user
//@ret r
//@spec
        ensures (r is Some) == (self.userhost matches Some(x) && x.user is Some), r matches Some(u) ==> Some(*u) == self.userhost->Some_0.user,
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: host
//@ret r
//@spec
        ensures (r is Some) == (self.userhost is Some), r matches Some(h) ==> *h == self.userhost->Some_0.host,
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: len
//@ret r
//@spec
        ensures r == least(self.out().len() as int, usize::MAX as int), r > 0,
//@sub /self\.userhost\.as_ref\(\)/ => &self.userhost ## Option::as_ref
//@head
        broadcast use {valid_Nick, valid_Word, valid_User};
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: len_nonzero
//@ret r
//@spec
        ensures r.val() == least(self.out().len() as int, usize::MAX as int), r.val() > 0,
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(w).out() == old(w).out() + self.out(),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /self\.userhost\.as_ref\(\)/ => &self.userhost ## Option::as_ref
//@post
        proof { if r is Ok { assert(w.out() =~= old(w).out() + self.out()); } }
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: parse
//@ret r
//@spec
        ensures (r is Ok) == (parse_source(word@) is Some), r matches Ok(s) ==> parse_source(word@) == Some((s.n(), s.uh())),
//@sub /word: impl Into<Word<'a>>/ => word: Word<'a> ## the conversion at the call is the caller's
//@sub /word\.into\(\)/ => word ## identity conversion
//@sub /let mut word =/ => let mut sp = ## rename
//@sub /\bword\.(string|next_byte|rest_or_default)/ => sp.\1 ## rename
//@sub /sp\.string::<Nick>\(false\)\.map_err\(ParseError::InvalidNick\)/ => map_err(sp.string::<Nick>(false), |e: InvalidString| ParseError::InvalidNick(e)) ## Result::map_err
//@opt /crate::error::InvalidString/ => InvalidString ## path
//@end
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: owning
//@ret r
//@spec
        ensures r.n() == self.n(), r.uh() == self.uh(),
//@sub /self\.userhost\.map\(UserHost::owning\)/ => match self.userhost { Some(x) => Some(UserHost::owning(x)), None => None } ## Option::map
//@end
/// The pieces come back out of the shared buffer; none of the unwraps can fail.
//@fn src/ircmsg/source.rs :: impl<'a> Source<'a> :: owning_merged
//@ret r
//@spec
        ensures r.n() == self.n(), r.uh() == self.uh(),
//@sub /Builder::<Word>::new\(self\.nick\.clone\(\)\.into\(\)\)/ => Builder::<Word<'static>>::new(Word::from_Nick(self.nick.clone().owning())) ## From named; lifetimes
//@sub /concat\.append\(u\)/ => concat.append(u.owning()) ## lifetimes
//@sub /concat\.append\(uh\.host\)/ => concat.append(uh.host.owning()) ## lifetimes
//@sub /splitter\.save_end\(\)\.until_count\(len_nick\)\.string\(true\)/ => splitter.save_end_until_count_string::<Nick>(len_nick, true) ## chain, proved in splitter.rs
//@sub /splitter\.save_end\(\)\.until_count\(lh\)\.string\(true\)/ => splitter.save_end_until_count_string::<Word>(lh, true) ## chain, proved in splitter.rs
//@sub /splitter\.save_end\(\)\.until_count\(lu\)\.string\(true\)/ => splitter.save_end_until_count_string::<User>(lu, true) ## chain, proved in splitter.rs
//@sub /len_user\.map\(\|lu\| \{((?:[^{}])*)\}\)/ => (match len_user { Some(lu) => Some({\1}), None => None }) ## Option::map
//@head
        let ghost (gn, gx) = (self.n(), self.uh());
        let ghost gu = match gx { Some((Some(u), _)) => u, _ => Seq::<u8>::empty() };
        let ghost gh = match gx { Some((_, h)) => h, _ => Seq::<u8>::empty() };
        proof {
            valid_Nick(self.nick);
            if self.userhost is Some { valid_Word(self.userhost->Some_0.host); if self.userhost->Some_0.user is Some { valid_User(self.userhost->Some_0.user->Some_0); } }
            assert(gn + gu + gh =~= gn + (gu + gh)); assert(gu + gh =~= gu + (gh + Seq::<u8>::empty())); assert(gh + Seq::<u8>::empty() =~= gh);
            assert(gn + Seq::<u8>::empty() =~= gn); assert(Seq::<u8>::empty() + gh =~= gh); assert(gn + gu + Seq::<u8>::empty() =~= gn + gu);
        }
//@before /let nick = splitter/
        proof {
            assert(splitter.rem() == gn + (gu + gh));
            cut_back::<Nick>(gn, gu + gh, gn + (gu + gh));
            if gx is Some && gx->Some_0.0 is Some { cut_back::<User>(gu, gh, gu + gh); }
            if gx is Some { cut_back::<Word>(gh, Seq::empty(), gh); }
        }
//@end
}
impl<'a> UserHost<'a> {
//@fn src/ircmsg/source.rs :: impl<'a> UserHost<'a> :: parse
//@ret r
//@spec
        ensures (r is Ok) == (parse_uh(string@) is Some), r matches Ok(x) ==> parse_uh(string@) == Some(x@),
//@sub /impl Into<Word<'a>>/ => Word<'a> ## the conversion at the call is the caller's
//@sub /string\.into\(\)/ => string ## identity conversion
//@sub /splitter\s*\.save_end\(\)\s*\.until_byte_eq\((b'.')\)\s*\.string::<User>\(true\)\s*\.map_err\(ParseError::InvalidUser\)/ => map_err(splitter.save_end_until_byte_eq_string::<User>(\1, true), |e: InvalidString| ParseError::InvalidUser(e)) ## chain, proved in splitter.rs; Result::map_err
//@opt /crate::error::InvalidString/ => InvalidString ## path
//@head
        proof {
            let n = until(string@, 64);
            until_of(string@, 64);
            let p = pre(string@, n);
            span_of::<User>(p);
            if ok_User(p) { span_is::<User>(p, p.len() as int); assert(ok::<User>(p)); }
            assert(pre(p, p.len()) =~= p);
            if n < string@.len() { assert(suf(string@, n).drop_first() =~= suf(string@, n + 1)); }
        }
//@end
//@fn src/ircmsg/source.rs :: impl<'a> UserHost<'a> :: owning
//@ret r
//@spec
        ensures r@ == self@,
//@sub /self\.user\.map\(User::owning\)/ => match self.user { Some(x) => Some(User::owning(x)), None => None } ## Option::map
//@end
//@fn src/ircmsg/source.rs :: impl<'a> UserHost<'a> :: len
//@ret r
//@spec
        ensures r == write_uh(self@).len(),
//@sub /self\.user\.as_ref\(\)/ => &self.user ## Option::as_ref
//@head
        broadcast use {valid_Word, valid_User};
//@end
//@fn src/ircmsg/source.rs :: impl<'a> UserHost<'a> :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(w).out() == old(w).out() + write_uh(self@),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /self\.user\.as_ref\(\)/ => &self.user ## Option::as_ref
//@post
        proof { if r is Ok { assert(w.out() =~= old(w).out() + write_uh(self@)); } }
//@end
}
// ---- Linked contracts ----
//@link msgparts.inc :: impl<'a> UserHost<'a>
parse owning
//@end
//@link msgparts.inc :: impl<'a> Source<'a>
parse len_nonzero owning owning_merged
write_to = self.write_to(w)
//@end
}
fn main() {}
