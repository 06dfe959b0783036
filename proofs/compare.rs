//@meta property C25
//@meta property C14
//@meta assume Option, tuples, slices, arrays, Vec, Cow and Arc compare, order, hash and clone by their contents (vstd's specifications, and the stubs stated here)
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include utf8.inc
//@include cmpspec.inc
//@include bytescmp.inc
// ---- The nine string types: equal, ordered and hashed as their bytes ----
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
pub struct {X}<'a>(Bytes<'a>);
impl<'a> {X}<'a> {
    pub closed spec fn view(&self) -> Seq<u8> { self.0@ }
    pub closed spec fn is_sec(&self) -> bool { self.0.is_sec() }
}
impl<'a> PartialEqSpecImpl for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for {X}<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for {X}<'a> :: eq
//@end
}
impl<'a> core::cmp::Eq for {X}<'a> { }
impl<'a> PartialOrdSpecImpl for {X}<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lex(self@, o@)) } }
impl<'a> core::cmp::PartialOrd for {X}<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialOrd for {X}<'a> :: partial_cmp
//@end
}
impl<'a> OrdSpecImpl for {X}<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lex(self@, o@) } }
impl<'a> core::cmp::Ord for {X}<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)Ord for {X}<'a> :: cmp
//@end
}
impl<'a> Hash for {X}<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for {X}<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@end
    proof fn agree(&self, o: &Self) { }
}
impl<'a> Clone for {X}<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for {X}<'a> :: clone
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(),
//@opt /::core::clone::Clone::clone\(&self\.0\)/ => self.0.clone() ## the method named
//@end
}
impl<'a> PartialEqSpecImpl<[u8]> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &[u8]) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq<[u8]> for {X}<'a> {
//@fn @expanded :: ~impl PartialEq<\[u8\]> for {X}<'_> :: eq
//@end
}
impl<'a, 'b> PartialEqSpecImpl<&'b [u8]> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b [u8]) -> bool { self@ == o@ } }
impl<'a, 'b> core::cmp::PartialEq<&'b [u8]> for {X}<'a> {
//@fn @expanded :: ~impl PartialEq<&\[u8\]> for {X}<'_> :: eq
//@sub /other: &&(\S)/ => other: &&'b \1 ## lifetime named
//@end
}
impl<'a> PartialEqSpecImpl<str> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == text(o) } }
impl<'a> core::cmp::PartialEq<str> for {X}<'a> {
//@fn @expanded :: ~impl PartialEq<str> for {X}<'_> :: eq
//@end
}
impl<'a, 'b> PartialEqSpecImpl<&'b str> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b str) -> bool { self@ == text(*o) } }
impl<'a, 'b> core::cmp::PartialEq<&'b str> for {X}<'a> {
//@fn @expanded :: ~impl PartialEq<&str> for {X}<'_> :: eq
//@sub /other: &&(\S)/ => other: &&'b \1 ## lifetime named
//@end
}
impl<'a, const N: usize> PartialEqSpecImpl<[u8; N]> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &[u8; N]) -> bool { self@ == o@ } }
impl<'a, const N: usize> core::cmp::PartialEq<[u8; N]> for {X}<'a> {
//@fn @expanded :: ~impl<const N ?: usize> PartialEq<\[u8; N\]> for {X}<'_> :: eq
//@end
}
impl<'a, 'b, const N: usize> PartialEqSpecImpl<&'b [u8; N]> for {X}<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b [u8; N]) -> bool { self@ == o@ } }
impl<'a, 'b, const N: usize> core::cmp::PartialEq<&'b [u8; N]> for {X}<'a> {
//@fn @expanded :: ~impl<const N ?: usize> PartialEq<&\[u8; N\]> for {X}<'_> :: eq
//@sub /other: &&(\S)/ => other: &&'b \1 ## lifetime named
//@end
}
//@endfor
// ---- Containers of the standard library ----
pub open spec fn all_hashed<T: Hash>(s: Seq<T>) -> Seq<Seq<u8>>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { all_hashed(s.drop_last()) + s.last().hashed() } }
pub proof fn all_agree<T: Hash>(a: Seq<T>, b: Seq<T>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).eq_spec(&b[i]),
    ensures all_hashed(a) == all_hashed(b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a.last().eq_spec(&b.last()));
        a.last().agree(&b.last());
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).eq_spec(&b.drop_last()[i]) by { assert(a[i].eq_spec(&b[i])); }
        all_agree(a.drop_last(), b.drop_last());
    }
}
pub uninterp spec fn tag(n: nat) -> Seq<u8>;
impl<T: Hash> Hash for Option<T> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { match self { None => seq![tag(0)], Some(x) => seq![tag(1)] + x.hashed() } }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { if self is Some { self->0.agree(&o->0); } }
}
impl<T: Hash> Hash for Vec<T> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![tag(self@.len())] + all_hashed(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) {
        all_agree(self@, o@);
    }
}
// ---- Sources ----
/// Nick first, then user, then host; a missing part comes first.
pub open spec fn uh_cmp(a: UH, b: UH) -> Ordering {
    match (match (a.0, b.0) { (None, None) => Ordering::Equal, (None, _) => Ordering::Less, (_, None) => Ordering::Greater, (Some(x), Some(y)) => lex(x, y) }) {
        Ordering::Equal => lex(a.1, b.1), c => c }
}
pub open spec fn src_cmp(a: Src, b: Src) -> Ordering {
    match lex(a.0, b.0) {
        Ordering::Equal => match (a.1, b.1) { (None, None) => Ordering::Equal, (None, _) => Ordering::Less, (_, None) => Ordering::Greater, (Some(x), Some(y)) => uh_cmp(x, y) },
        c => c }
}
pub proof fn src_equal(a: Src, b: Src) ensures (src_cmp(a, b) == Ordering::Equal) == (a == b) {
    lex_equal(a.0, b.0);
    if a.1 is Some && b.1 is Some {
        let x = a.1->0; let y = b.1->0;
        lex_equal(x.1, y.1);
        if x.0 is Some && y.0 is Some { lex_equal(x.0->0, y.0->0); }
    }
}
pub type UH = (Option<Seq<u8>>, Seq<u8>);
pub type Src = (Seq<u8>, Option<UH>);
//@item src/ircmsg/source.rs :: pub struct UserHost
//@end
//@item src/ircmsg/source.rs :: pub struct Source
//@end
impl<'a> UserHost<'a> { pub open spec fn view(&self) -> UH { (match self.user { Some(u) => Some(u@), None => None }, self.host@) } }
impl<'a> Source<'a> { pub open spec fn view(&self) -> Src { (self.nick@, match self.userhost { Some(x) => Some(x@), None => None }) } }
impl<'a> PartialEqSpecImpl for UserHost<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for UserHost<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for UserHost<'a> :: eq
//@end
}
impl<'a> core::cmp::Eq for UserHost<'a> { }
impl<'a> PartialOrdSpecImpl for UserHost<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(uh_cmp(self@, o@)) } }
impl<'a> core::cmp::PartialOrd for UserHost<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialOrd for UserHost<'a> :: partial_cmp
//@end
}
impl<'a> OrdSpecImpl for UserHost<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { uh_cmp(self@, o@) } }
impl<'a> core::cmp::Ord for UserHost<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)Ord for UserHost<'a> :: cmp
//@end
}
impl<'a> Hash for UserHost<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.user.hashed() + self.host.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for UserHost<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { self.user.agree(&o.user); self.host.agree(&o.host); }
}
impl<'a> Clone for UserHost<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for UserHost<'a> :: clone
//@ret r
//@spec
        ensures r@ == self@,
//@end
}
impl<'a> PartialEqSpecImpl for Source<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for Source<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for Source<'a> :: eq
//@end
}
impl<'a> core::cmp::Eq for Source<'a> { }
impl<'a> PartialOrdSpecImpl for Source<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(src_cmp(self@, o@)) } }
impl<'a> core::cmp::PartialOrd for Source<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialOrd for Source<'a> :: partial_cmp
//@end
}
impl<'a> OrdSpecImpl for Source<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { src_cmp(self@, o@) } }
impl<'a> core::cmp::Ord for Source<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)Ord for Source<'a> :: cmp
//@end
}
impl<'a> Hash for Source<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.nick.hashed() + self.userhost.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for Source<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { self.nick.agree(&o.nick); self.userhost.agree(&o.userhost); }
}
impl<'a> Clone for Source<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for Source<'a> :: clone
//@ret r
//@spec
        ensures r@ == self@,
//@end
}
/// Arc compares, hashes and clones by what it points to.
pub axiom fn arc_eq<T: core::cmp::PartialEq>()
    ensures
        <Arc<T> as PartialEqSpec<Arc<T>>>::obeys_eq_spec() == <T as PartialEqSpec<T>>::obeys_eq_spec(),
        forall|a: Arc<T>, b: Arc<T>| #[trigger] <Arc<T> as PartialEqSpec<Arc<T>>>::eq_spec(&a, &b) == <T as PartialEqSpec<T>>::eq_spec(&*a, &*b);
impl<T: Hash> Hash for Arc<T> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { (**self).hashed() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { arc_eq::<T>(); (**self).agree(&**o); }
}
//@item src/ircmsg/source.rs :: pub struct SharedSource
//@sub /\(std::sync::Arc</ => (pub Arc< ## path; visibility
//@end
impl<'a> SharedSource<'a> { pub open spec fn view(&self) -> Src { (*self.0)@ } }
impl<'a> PartialEqSpecImpl for SharedSource<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for SharedSource<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for SharedSource<'a> :: eq
//@head
        proof { arc_eq::<Source<'a>>(); }
//@end
}
impl<'a> Hash for SharedSource<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.0.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for SharedSource<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { (*self.0).agree(&*o.0); }
}
impl<'a> Clone for SharedSource<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for SharedSource<'a> :: clone
//@ret r
//@spec
        ensures r@ == self@,
//@end
}
// ---- Kinds of server messages: equal, ordered and hashed as their text (so lookup by text agrees) ----
pub open spec fn three_digits(s: Seq<u8>) -> bool { s.len() == 3 && digit(s[0]) && digit(s[1]) && digit(s[2]) }
/// Proved in C14_numeric.rs.
#[verifier::external_body]
pub struct Numeric { x: u8 }
impl Numeric {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_int(&self) -> (r: u16) ensures r < 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub proof fn valid(&self) ensures three_digits(self@) { }
    #[verifier::external_body]
    pub fn eq_numeric(&self, other: &Numeric) -> (r: bool) ensures r == (self@ == other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp_numeric(&self, other: &Numeric) -> (r: Ordering) ensures r == lex(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_numeric<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + seq![self@] { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    /// Copy.
    #[verifier::external_body]
    pub fn copied(&self) -> (r: Numeric) ensures r@ == self@ { unimplemented!() }
}
impl PartialEqSpecImpl for Numeric { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl core::cmp::PartialEq for Numeric { fn eq(&self, o: &Self) -> bool { self.eq_numeric(o) } }
impl core::cmp::Eq for Numeric { }
impl PartialOrdSpecImpl for Numeric { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lex(self@, o@)) } }
impl core::cmp::PartialOrd for Numeric { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp_numeric(o)) } }
impl OrdSpecImpl for Numeric { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lex(self@, o@) } }
impl core::cmp::Ord for Numeric { fn cmp(&self, o: &Self) -> Ordering { self.cmp_numeric(o) } }
impl Hash for Numeric { open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] } fn hash<H: Hasher>(&self, h: &mut H) { self.hash_numeric(h) } proof fn agree(&self, o: &Self) { } }
impl Clone for Numeric { fn clone(&self) -> (r: Numeric) ensures r@ == self@ { self.copied() } }
/// The type invariant of Cmd, proved in C03_types.rs.
pub broadcast axiom fn valid_Cmd<'a>(s: Cmd<'a>) ensures #![trigger s@] s@.len() > 0, forall|i: int| 0 <= i < s@.len() ==> upper(#[trigger] s@[i]);
//@item src/ircmsg/servermsgkind.rs :: pub enum ServerMsgKindRaw
//@end
impl<'a> ServerMsgKindRaw<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { ServerMsgKindRaw::Numeric(n) => n@, ServerMsgKindRaw::Cmd(c) => c@ } }
    /// Proved in message.rs.
    #[verifier::external_body]
    pub fn as_arg(&self) -> (r: Arg<'_>) ensures r@ == self@ { unimplemented!() }
    /// A numeric begins with a digit, a command with a letter.
    pub proof fn apart(&self, o: &Self)
        ensures self@ == o@ ==> (self is Numeric) == (o is Numeric),
            self is Numeric && o is Cmd ==> lex(self@, o@) is Less,
            self is Cmd && o is Numeric ==> lex(self@, o@) is Greater,
    {
        broadcast use valid_Cmd;
        match self { ServerMsgKindRaw::Numeric(n) => n.valid(), ServerMsgKindRaw::Cmd(c) => { assert(upper(c@[0])); } }
        match o { ServerMsgKindRaw::Numeric(n) => n.valid(), ServerMsgKindRaw::Cmd(c) => { assert(upper(c@[0])); } }
    }
}
/// mem::discriminant, as the derived code uses it: the position of the variant in the declaration.
//@each src/ircmsg/servermsgkind.rs /enum ServerMsgKindRaw<'a> \{[^}]*?\b(Numeric|Cmd)\((?:Numeric|Cmd<'a>)\),[^}]*?\b(Numeric|Cmd)\((?:Numeric|Cmd<'a>)\)/
pub fn which(k: &ServerMsgKindRaw) -> (r: isize) ensures r == (if k is {1} { 0int } else { 1 }) { match k { ServerMsgKindRaw::{1}(_) => 0, ServerMsgKindRaw::{2}(_) => 1 } }
//@endeach
impl<'a> PartialEqSpecImpl for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for ServerMsgKindRaw<'a> :: eq
//@opt /::core::intrinsics::discriminant_value\((self|other)\)/ => which(\1) ## the discriminant
//@opt /unsafe \{ ::core::intrinsics::unreachable\(\) \}/ => unreached() ## must not be reached
//@head
        proof { self.apart(other); }
//@end
}
impl<'a> core::cmp::Eq for ServerMsgKindRaw<'a> { }
impl<'a> PartialOrdSpecImpl for ServerMsgKindRaw<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lex(self@, o@)) } }
impl<'a> core::cmp::PartialOrd for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialOrd for ServerMsgKindRaw<'a> :: partial_cmp
//@end
}
impl<'a> OrdSpecImpl for ServerMsgKindRaw<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lex(self@, o@) } }
impl<'a> core::cmp::Ord for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)Ord for ServerMsgKindRaw<'a> :: cmp
//@opt /::core::intrinsics::discriminant_value\((self|other)\)/ => which(\1) ## the discriminant
//@head
        proof { self.apart(other); }
//@end
}
impl<'a> Hash for ServerMsgKindRaw<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for ServerMsgKindRaw<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) {  }
}
impl<'a> Clone for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for ServerMsgKindRaw<'a> :: clone
//@ret r
//@spec
        ensures r@ == self@, (r is Numeric) == (self is Numeric),
//@end
}
pub fn unreached() -> bool requires false { true }
impl<'a> ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> std::borrow::Borrow<\[u8\]> for ServerMsgKindRaw<'a> :: borrow
//@ret r
//@spec
        ensures r@ == self@,
//@sub /Cmd\(c\) => c\b/ => Cmd(c) => c.0.as_ref() ## Deref
//@end
}
impl<'a> PartialEqSpecImpl<[u8]> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &[u8]) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq<[u8]> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<\[u8\]> for ServerMsgKindRaw<'a> :: eq
//@end
}
impl<'a, 'b> PartialEqSpecImpl<&'b [u8]> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b [u8]) -> bool { self@ == o@ } }
impl<'a, 'b> core::cmp::PartialEq<&'b [u8]> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<&\[u8\]> for ServerMsgKindRaw<'a> :: eq
//@sub /other: &&(\S)/ => other: &&'b \1 ## lifetime named
//@end
}
impl<'a> PartialEqSpecImpl<str> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == text(o) } }
impl<'a> core::cmp::PartialEq<str> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<str> for ServerMsgKindRaw<'a> :: eq
//@end
}
impl<'a, 'b> PartialEqSpecImpl<&'b str> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b str) -> bool { self@ == text(*o) } }
impl<'a, 'b> core::cmp::PartialEq<&'b str> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<&str> for ServerMsgKindRaw<'a> :: eq
//@sub /other: &&(\S)/ => other: &&'b \1 ## lifetime named
//@end
}
impl<'a, 'b> PartialEqSpecImpl<Cmd<'b>> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Cmd<'b>) -> bool { self@ == o@ } }
impl<'a, 'b> core::cmp::PartialEq<Cmd<'b>> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<Cmd<'_>> for ServerMsgKindRaw<'a> :: eq
//@sub /Cmd<'_>/ => Cmd<'b> ## lifetime named
//@head
        proof { self.apart(&ServerMsgKindRaw::Cmd(*other)); }
//@sub /cmd == other/ => cmd.0 == other.0 ## derived comparison of Cmd, across lifetimes
//@end
}
impl<'a> PartialEqSpecImpl<Numeric> for ServerMsgKindRaw<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Numeric) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq<Numeric> for ServerMsgKindRaw<'a> {
//@fn @expanded :: ~impl<'a> PartialEq<Numeric> for ServerMsgKindRaw<'a> :: eq
//@head
        proof { self.apart(&ServerMsgKindRaw::Numeric(*other)); }
//@end
}
// ---- Maps and tags ----
impl Hash for () {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { Seq::empty() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { }
}
impl<A: Hash, B: Hash> Hash for (A, B) {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.0.hashed() + self.1.hashed() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { self.0.agree(&o.0); self.1.agree(&o.1); }
}
/// Vec is ordered by its contents, if they are.
pub axiom fn vec_order<T: core::cmp::Ord>()
    ensures
        <T as OrdSpec>::obeys_cmp_spec() ==> <Vec<T> as OrdSpec>::obeys_cmp_spec(),
        <T as PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==> <Vec<T> as PartialOrdSpec<Vec<T>>>::obeys_partial_cmp_spec();
/// So are () and pairs; a pair is cloned part by part.
pub axiom fn unit_order()
    ensures
        <() as PartialEqSpec<()>>::obeys_eq_spec(), forall|a: (), b: ()| #[trigger] <() as PartialEqSpec<()>>::eq_spec(&a, &b),
        <() as OrdSpec>::obeys_cmp_spec(), <() as PartialOrdSpec<()>>::obeys_partial_cmp_spec();
pub axiom fn pair_order<A: core::cmp::Ord, B: core::cmp::Ord>()
    ensures
        <A as OrdSpec>::obeys_cmp_spec() && <B as OrdSpec>::obeys_cmp_spec() ==> <(A, B) as OrdSpec>::obeys_cmp_spec(),
        <A as PartialOrdSpec<A>>::obeys_partial_cmp_spec() && <B as PartialOrdSpec<B>>::obeys_partial_cmp_spec() ==> <(A, B) as PartialOrdSpec<(A, B)>>::obeys_partial_cmp_spec();
pub axiom fn pair_clone<A: Clone, B: Clone>()
    ensures forall|x: (A, B), y: (A, B)| #[trigger] cloned::<(A, B)>(x, y) ==> cloned::<A>(x.0, y.0) && cloned::<B>(x.1, y.1);
pub struct NameExtractor<'a> { _p: core::marker::PhantomData<&'a u8> }
//@item src/util/flatmap.rs :: pub struct FlatMap
//@sub /\(Vec<E>/ => (pub Vec<E> ## visibility
//@sub /std::marker::PhantomData<X>/ => pub core::marker::PhantomData<X> ## visibility, path
//@end
impl<E: core::cmp::PartialEq, X> PartialEqSpecImpl for FlatMap<E, X> {
    open spec fn obeys_eq_spec() -> bool { <Vec<E> as PartialEqSpec<Vec<E>>>::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { <Vec<E> as PartialEqSpec<Vec<E>>>::eq_spec(&self.0, &o.0) }
}
impl<E: core::cmp::PartialEq, X> core::cmp::PartialEq for FlatMap<E, X> {
//@fn src/util/flatmap.rs :: impl<E: PartialEq, X> std::cmp::PartialEq for FlatMap<E, X> :: eq
//@end
}
impl<E: core::cmp::Eq, X> core::cmp::Eq for FlatMap<E, X> { }
impl<E: core::cmp::PartialOrd, X> PartialOrdSpecImpl for FlatMap<E, X> {
    open spec fn obeys_partial_cmp_spec() -> bool { <Vec<E> as PartialOrdSpec<Vec<E>>>::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { <Vec<E> as PartialOrdSpec<Vec<E>>>::partial_cmp_spec(&self.0, &o.0) }
}
impl<E: core::cmp::PartialOrd, X> core::cmp::PartialOrd for FlatMap<E, X> {
//@fn src/util/flatmap.rs :: impl<E: PartialOrd, X> std::cmp::PartialOrd for FlatMap<E, X> :: partial_cmp
//@end
}
impl<E: core::cmp::Ord, X> OrdSpecImpl for FlatMap<E, X> {
    open spec fn obeys_cmp_spec() -> bool { <Vec<E> as OrdSpec>::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { <Vec<E> as OrdSpec>::cmp_spec(&self.0, &o.0) }
}
impl<E: core::cmp::Ord, X> core::cmp::Ord for FlatMap<E, X> {
//@fn src/util/flatmap.rs :: impl<E: Ord, X> std::cmp::Ord for FlatMap<E, X> :: cmp
//@end
}
impl<E: Hash, X> Hash for FlatMap<E, X> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.0.hashed() }
//@fn src/util/flatmap.rs :: impl<E: std::hash::Hash, X> std::hash::Hash for FlatMap<E, X> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@end
    proof fn agree(&self, o: &Self) { self.0.agree(&o.0); }
}
impl<E: Clone, X> Clone for FlatMap<E, X> {
//@fn src/util/flatmap.rs :: impl<E: Clone, X> Clone for FlatMap<E, X> :: clone
//@ret r
//@spec
        ensures r.0@.len() == self.0@.len(), forall|i: int| 0 <= i < r.0@.len() ==> cloned::<E>(#[trigger] self.0@[i], r.0@[i]),
//@end
}
//@item src/ircmsg/tags.rs :: pub struct Tags
//@sub /\bpairs:/ => pub pairs: ## visibility
//@sub /NameExtractor<'a, MsgTag>/ => NameExtractor<'a> ## the key extractor
//@end
impl<'a> Tags<'a> {
    pub open spec fn t(&self) -> Seq<(Seq<u8>, Seq<u8>)> { self.pairs.0@.map_values(|p: ((Key<'a>, NoNul<'a>), ())| (p.0.0@, p.0.1@)) }
}
impl<'a> PartialEqSpecImpl for Tags<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.t() == o.t() } }
impl<'a> core::cmp::PartialEq for Tags<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for Tags<'a> :: eq
//@head
        proof { unit_order(); tags_same(*self, *other); }
//@end
}
impl<'a> core::cmp::Eq for Tags<'a> { }
impl<'a> PartialOrdSpecImpl for Tags<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(<Vec<((Key<'a>, NoNul<'a>), ())> as OrdSpec>::cmp_spec(&self.pairs.0, &o.pairs.0)) } }
impl<'a> core::cmp::PartialOrd for Tags<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialOrd for Tags<'a> :: partial_cmp
//@end
}
impl<'a> OrdSpecImpl for Tags<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { <Vec<((Key<'a>, NoNul<'a>), ())> as OrdSpec>::cmp_spec(&self.pairs.0, &o.pairs.0) } }
impl<'a> core::cmp::Ord for Tags<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)Ord for Tags<'a> :: cmp
//@head
        proof { unit_order(); pair_order::<Key<'a>, NoNul<'a>>(); pair_order::<(Key<'a>, NoNul<'a>), ()>(); vec_order::<((Key<'a>, NoNul<'a>), ())>(); }
//@end
}
impl<'a> Hash for Tags<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.pairs.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for Tags<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { tags_same(*self, *o); self.pairs.agree(&o.pairs); }
}
impl<'a> Clone for Tags<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for Tags<'a> :: clone
//@ret r
//@spec
        ensures r.t() == self.t(),
//@post
        proof {
            pair_clone::<Key<'a>, NoNul<'a>>(); pair_clone::<(Key<'a>, NoNul<'a>), ()>();
            assert forall|i: int| 0 <= i < self.pairs.0@.len() implies #[trigger] self.t()[i] == r.t()[i] by {
                assert(cloned(self.pairs.0@[i], r.pairs.0@[i]));
                assert(cloned(self.pairs.0@[i].0, r.pairs.0@[i].0));
                assert(cloned(self.pairs.0@[i].0.0, r.pairs.0@[i].0.0) && cloned(self.pairs.0@[i].0.1, r.pairs.0@[i].0.1));
            }
            assert(r.t() =~= self.t());
        }
//@end
}
pub proof fn tags_same<'a>(a: Tags<'a>, b: Tags<'a>)
    ensures (a.t() == b.t()) == PartialEqSpec::eq_spec(&a.pairs, &b.pairs),
{
    unit_order();
    let (x, y) = (a.pairs.0@, b.pairs.0@);
    if a.t() == b.t() {
        assert(x.len() == a.t().len() && y.len() == b.t().len());
        assert forall|i: int| 0 <= i < x.len() implies PartialEqSpec::eq_spec(&#[trigger] x[i], &y[i]) by { assert(a.t()[i] == b.t()[i]); }
    }
    if PartialEqSpec::eq_spec(&a.pairs, &b.pairs) {
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] a.t()[i] == b.t()[i] by { assert(PartialEqSpec::eq_spec(&x[i], &y[i])); }
        assert(a.t() =~= b.t());
    }
}
// ---- Arguments and messages ----
/// Cow<'a, [Arg<'a>]>: compares, hashes and clones as the slice.
#[verifier::external_body]
pub struct Words<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Words<'a> {
    pub uninterp spec fn view(&self) -> Seq<Arg<'a>>;
    pub open spec fn w(&self) -> Seq<Seq<u8>> { self@.map_values(|a: Arg<'a>| a@) }
    pub proof fn same(&self, o: &Self) requires self.w() == o.w() ensures all_hashed(self@) == all_hashed(o@), self@.len() == o@.len() {
        assert(self.w().len() == self@.len() && o.w().len() == o@.len());
        assert forall|i: int| 0 <= i < self@.len() implies PartialEqSpec::eq_spec(&#[trigger] self@[i], &o@[i]) by { assert(self.w()[i] == o.w()[i]); }
        all_agree(self@, o@);
    }
}
impl<'a> PartialEqSpecImpl for Words<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.w() == o.w() } }
impl<'a> core::cmp::PartialEq for Words<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a> Hash for Words<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![tag(self@.len())] + all_hashed(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { self.same(o); }
}
impl<'a> Clone for Words<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.w() == self.w() { unimplemented!() } }
//@item src/ircmsg/args.rs :: pub struct Args
//@sub /\bwords: Cow<'a, \[Arg<'a>\]>/ => pub words: Words<'a> ## Cow by its contract; visibility
//@sub /\blong:/ => pub long: ## visibility
//@end
impl<'a> Args<'a> {
    /// The words, and the long argument.
    pub open spec fn v(&self) -> (Seq<Seq<u8>>, Option<Seq<u8>>) { (self.words.w(), match self.long { Some(l) => Some(l@), None => None }) }
    pub open spec fn w(&self) -> Seq<Seq<u8>> { self.v().0 }
    pub open spec fn l(&self) -> Option<Seq<u8>> { self.v().1 }
}
impl<'a> PartialEqSpecImpl for Args<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
impl<'a> core::cmp::PartialEq for Args<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for Args<'a> :: eq
//@end
}
impl<'a> Hash for Args<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.words.hashed() + self.long.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for Args<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { self.words.agree(&o.words); self.long.agree(&o.long); }
}
impl<'a> Clone for Args<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for Args<'a> :: clone
//@ret r
//@spec
        ensures r.v() == self.v(),
//@end
}
//@item src/ircmsg/client.rs :: pub struct ClientMsg
//@end
//@item src/ircmsg/server.rs :: pub struct ServerMsg
//@end
pub type Tagged = Seq<(Seq<u8>, Seq<u8>)>;
pub type Listed = (Seq<Seq<u8>>, Option<Seq<u8>>);
impl<'a> ClientMsg<'a> { pub open spec fn v(&self) -> (Tagged, Seq<u8>, Listed) { (self.tags.t(), self.cmd@, self.args.v()) } }
impl<'a> ServerMsg<'a> {
    pub open spec fn src(&self) -> Option<Src> { match self.source { Some(s) => Some(s@), None => None } }
    pub open spec fn v(&self) -> (Tagged, Option<Src>, Seq<u8>, Listed) { (self.tags.t(), self.src(), self.kind@, self.args.v()) }
}
impl<'a> PartialEqSpecImpl for ClientMsg<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
impl<'a> core::cmp::PartialEq for ClientMsg<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for ClientMsg<'a> :: eq
//@end
}
impl<'a> Hash for ClientMsg<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.tags.hashed() + self.cmd.hashed() + self.args.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for ClientMsg<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { self.tags.agree(&o.tags); self.cmd.agree(&o.cmd); self.args.agree(&o.args); }
}
impl<'a> Clone for ClientMsg<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for ClientMsg<'a> :: clone
//@ret r
//@spec
        ensures r.v() == self.v(),
//@end
}
impl<'a> PartialEqSpecImpl for ServerMsg<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
impl<'a> core::cmp::PartialEq for ServerMsg<'a> {
//@fn @expanded :: ~impl<'a> (::core::cmp::|std::cmp::|)PartialEq for ServerMsg<'a> :: eq
//@end
}
impl<'a> Hash for ServerMsg<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { self.tags.hashed() + self.source.hashed() + self.kind.hashed() + self.args.hashed() }
//@fn @expanded :: ~impl<'a> (::core|std)::hash::Hash for ServerMsg<'a> :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { self.tags.agree(&o.tags); self.source.agree(&o.source); self.kind.agree(&o.kind); self.args.agree(&o.args); }
}
impl<'a> Clone for ServerMsg<'a> {
//@fn @expanded :: ~impl<'a> (::core::clone::|)Clone for ServerMsg<'a> :: clone
//@ret r
//@spec
        ensures r.v() == self.v(),
//@end
}
// ---- Linked contracts ----
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
//@link types.inc :: impl<'a> {X}<'a>
clone = Clone::clone(self)
//@end
//@endfor
//@link msgparts.inc :: impl<'a> Source<'a>
clone = Clone::clone(self)
//@end
//@for X in Args Tags ClientMsg
//@link cmsg.inc :: impl<'a> {X}<'a>
clone = Clone::clone(self)
//@end
//@endfor
}
fn main() {}
