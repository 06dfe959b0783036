//@meta property C07
//@meta property C11
//@meta property C25
//@meta property C13
//@meta assume atomics are read and written by one thread at a time: the flag of a string is a cached fact about its bytes, so a race can only lose the cache
//@meta assume std's UTF-8 validation (from_utf8, from_utf8_lossy) satisfies its stated contract
//@meta assume OwnedBytes's release of a secret buffer is the drop contract of secretbuf
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include cmpspec.inc

// ---- Trusted contracts on dependencies ----
/// ThinArc<OwnedSlice<u8>>: the shared, reference-counted buffer behind a string.
#[verifier::external_body]
pub struct Shared { x: u8 }
impl Shared {
    pub uninterp spec fn wiped(&self) -> bool;
    #[verifier::external_body]
    pub fn new(o: OwnedSlice) -> (r: Shared) ensures r.wiped() == o.wiped() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_unwrap(self) -> (r: Result<OwnedSlice, Shared>) ensures r matches Ok(o) ==> o.wiped() == self.wiped() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Shared) ensures r.wiped() == self.wiped() { unimplemented!() }
}
/// OwnedSlice<u8>: an owned buffer; `wiped` says whether it is overwritten before it is released.
#[verifier::external_body]
pub struct OwnedSlice { x: u8 }
impl OwnedSlice {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn wiped(&self) -> bool;
    #[verifier::external_body]
    pub fn from_vec(v: Vec<u8>) -> (r: (OwnedSlice, usize)) ensures r.0.bytes() == v@, r.1 == v@.len(), !r.0.wiped() { unimplemented!() }
    #[verifier::external_body]
    pub fn wipe_on_drop(self) -> (r: OwnedSlice) ensures r.bytes() == self.bytes(), r.wiped() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn as_slice<'a>(&self, len: usize) -> (r: &'a [u8])
        requires len <= self.bytes().len(),
        ensures r@ == self.bytes().subrange(0, len as int) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn into_vec_with_slice(self, s: &[u8]) -> (r: (Vec<u8>, Option<OwnedSlice>)) ensures r.0@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn reinit_all(&mut self) { unimplemented!() }
}
/// AtomicI8 as a cache of one fact: 1 if `about` is UTF-8, -1 if it is not, 0 if unknown.
/// Every store must tell the truth; then every load does, under any schedule.
#[verifier::external_body]
pub struct AtomicI8 { x: u8 }
pub open spec fn truthful(v: i8, s: Seq<u8>) -> bool { (v == 1 ==> valid_utf8(s)) && (v == -1 ==> !valid_utf8(s)) }
impl AtomicI8 {
    pub uninterp spec fn about(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub const fn new(v: i8, s: Ghost<Seq<u8>>) -> (r: AtomicI8)
        requires truthful(v, s@),
        ensures r.about() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self) -> (r: i8) ensures truthful(r, self.about()) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: i8) requires truthful(v, self.about()) { unimplemented!() }
    /// A store that changes what the cache is about.
    #[verifier::external_body]
    pub fn store_for(&mut self, v: i8, s: Ghost<Seq<u8>>) requires truthful(v, s@) ensures final(self).about() == s@ { unimplemented!() }
    /// compare_exchange(old, new) on a cache that is to be about another string.
    #[verifier::external_body]
    pub fn exchange_for(&mut self, old_: i8, new: i8, s: Ghost<Seq<u8>>)
        requires truthful(new, s@), forall|v: i8| v != old_ && truthful(v, old(self).about()) ==> truthful(v, s@),
        ensures final(self).about() == s@ { unimplemented!() }
    /// The cache is carried over to another string.
    #[verifier::external_body]
    pub fn carry_for(&mut self, s: Ghost<Seq<u8>>)
        requires forall|v: i8| truthful(v, old(self).about()) ==> truthful(v, s@),
        ensures final(self).about() == s@ { unimplemented!() }
}
/// The UTF-8 checks of the standard library.
pub uninterp spec fn text(s: &str) -> Seq<u8>;
pub uninterp spec fn otext(s: &String) -> Seq<u8>;
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn str_valid(s: &str) ensures valid_utf8(#[trigger] text(s));
pub broadcast axiom fn string_valid(s: &String) ensures valid_utf8(#[trigger] otext(s));
pub broadcast axiom fn lossy_valid(s: Seq<u8>) ensures valid_utf8(s) ==> #[trigger] lossy(s) == s;
/// No buffer exceeds isize::MAX bytes; a valid empty string is UTF-8.
pub broadcast proof fn empty_valid(s: Seq<u8>) requires s.len() == 0 ensures #[trigger] valid_utf8(s) { reveal_with_fuel(valid_utf8, 1); }
#[verifier::external_body]
pub const unsafe fn from_utf8_unchecked<'a>(b: &'a [u8]) -> (r: &'a str) requires valid_utf8(b@) ensures text(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8_ok<'a>(b: &'a [u8]) -> (r: Option<&'a str>) ensures (r is Some) == valid_utf8(b@), r matches Some(s) ==> text(s) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8_lossy<'a>(b: &'a [u8]) -> (r: CowStr<'a>)
    ensures r is Borrowed == valid_utf8(b@), r matches CowStr::Borrowed(s) ==> text(s) == b@, r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body]
pub const fn str_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn string_bytes(s: String) -> (r: Vec<u8>) ensures r@ == otext(&s) { unimplemented!() }
#[verifier::external_body]
pub fn str_owned(s: &str) -> (r: String) ensures otext(&r) == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn slice_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
/// std's Cow over str and over [u8].
pub enum CowStr<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> CowStr<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { CowStr::Borrowed(s) => text(s), CowStr::Owned(s) => otext(s) } }
}
#[verifier::external_body]
pub fn cow_into_owned(c: CowStr) -> (r: String) ensures otext(&r) == c@ { unimplemented!() }
pub enum CowBytes<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> CowBytes<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { CowBytes::Borrowed(s) => s@, CowBytes::Owned(s) => s@ } }
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { match self { CowBytes::Borrowed(s) => s, CowBytes::Owned(s) => s.as_slice() } }
}
/// The base64 engine: standard encoding, which is ASCII and has no forbidden bytes.
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn engine_encode(s: &[u8]) -> (r: String) ensures otext(&r) == b64(s@) { unimplemented!() }
pub open spec fn armored(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 33 < #[trigger] s[i] < 128 && s[i] != 58 }
pub broadcast axiom fn b64_ok(s: Seq<u8>) ensures armored(#[trigger] b64(s)), s.len() > 0 ==> b64(s).len() > 0;
pub open spec fn is_word(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 && s[i] != 13 && s[i] != 10 && s[i] != 32 }
pub open spec fn is_arg(s: Seq<u8>) -> bool { is_word(s) && s.len() > 0 && s[0] != 58 }
pub struct Word<'a>(Bytes<'a>);
pub struct Arg<'a>(Bytes<'a>);
impl<'a> Word<'a> {
    pub closed spec fn inv(&self) -> bool { self.0.inv() }
    pub closed spec fn view(&self) -> Seq<u8> { self.0@ }
    pub closed spec fn is_sec(&self) -> bool { self.0.is_sec() }
    pub unsafe fn from_unchecked(b: Bytes<'a>) -> (r: Self) requires b.inv(), is_word(b@) ensures r.inv(), r@ == b@, r.is_sec() == b.is_sec() { Word(b) }
}
impl<'a> Arg<'a> {
    pub closed spec fn inv(&self) -> bool { self.0.inv() }
    pub closed spec fn view(&self) -> Seq<u8> { self.0@ }
    pub closed spec fn is_sec(&self) -> bool { self.0.is_sec() }
    pub unsafe fn from_unchecked(b: Bytes<'a>) -> (r: Self) requires b.inv(), is_arg(b@) ensures r.inv(), r@ == b@, r.is_sec() == b.is_sec() { Arg(b) }
    pub fn secret(self) -> (r: Self) requires self.inv() ensures r.inv(), r@ == self@, r.is_sec() { Arg(self.0.secret()) }
}
/// names::PLUS
#[verifier::external_body]
pub fn plus<'a>() -> (r: Arg<'a>) ensures r.inv(), r@ == seq![43u8], !r.is_sec() { unimplemented!() }
/// A formatter records what it is asked to print.
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), ()>) ensures final(self).out() == old(self).out().push(text(s)) { unimplemented!() }
    /// debug_struct(..).field("value", v)
    #[verifier::external_body]
    pub fn field_str(&mut self, s: &str) ensures final(self).out() == old(self).out().push(text(s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn field_bytes(&mut self, s: &[u8]) ensures final(self).out() == old(self).out().push(s@) { unimplemented!() }
    /// debug_struct(..).field("owning", b)
    #[verifier::external_body]
    pub fn field_owning(&mut self, b: bool) ensures final(self).out() == old(self).out() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result<(), ()>) ensures final(self).out() == old(self).out() { unimplemented!() }
}
#[verifier::external_body]
pub fn display_placeholder() -> (r: &'static str) ensures text(r) == placeholder() { unimplemented!() }
pub uninterp spec fn placeholder() -> Seq<u8>;

//@item src/string.rs :: pub enum Utf8Policy
//@attr
#[derive(Clone, Copy)]
//@end
/// What a policy promises about the bytes `to`, given the string `from`.
pub open spec fn honest(p: Utf8Policy, from: Seq<u8>, to: Seq<u8>) -> bool {
    match p {
        Utf8Policy::Invalid => !valid_utf8(to),
        Utf8Policy::Recheck => true,
        Utf8Policy::Valid => valid_utf8(to),
        Utf8Policy::Preserve => valid_utf8(from) ==> valid_utf8(to),
        Utf8Policy::PreserveStrict => valid_utf8(from) == valid_utf8(to),
    }
}
#[verifier::external_body]
pub fn policy_i8(p: Utf8Policy) -> (r: i8)
    ensures p is Invalid ==> r == -1, p is Recheck ==> r == 0, p is Valid ==> r == 1,
{ p as i8 }
pub struct Transformation<'a, V> { pub value: V, pub transformed: CowBytes<'a>, pub utf8: Utf8Policy }
/// The contract every Transform has to meet (each one is checked against it where it is implemented).
pub trait Transform: Sized {
    type Value;
    fn transform<'a>(self, bytes: &Bytes<'a>) -> (r: Transformation<'a, Self::Value>)
        requires bytes.inv(),
        ensures honest(r.utf8, bytes@, r.transformed@);
}

// ---- The code ----
pub struct OwnedBytes(Shared);
impl OwnedBytes {
    pub closed spec fn wiped(&self) -> bool { self.0.wiped() }
    /// derive(Clone)
    pub fn clone(&self) -> (r: OwnedBytes) ensures r.wiped() == self.wiped() { OwnedBytes(self.0.clone()) }

//@fn src/string/bytes.rs :: impl OwnedBytes :: from_vec
//@ret r
//@spec
        ensures r.1@ == value@, (r.0 is Some) == (value@.len() > 0), r.0 matches Some(o) ==> (secret ==> o.wiped()),
//@sub /crate::util::OwnedSlice::/ => OwnedSlice:: ## path
//@sub /crate::util::ThinArc::/ => Shared:: ## path
//@sub /&\[\]/ => empty_slice() ## empty slice literal
//@before /\(Some\(OwnedBytes/
        assert(slice@ =~= value@);
//@end
//@fn src/string/bytes.rs :: impl OwnedBytes :: into_vec
//@ret r
//@spec
        ensures r@ == slice@,
//@sub /slice\.to_vec\(\)/ => slice_vec(slice) ## by its contract
//@end
}
#[verifier::external_body]
pub const fn empty_slice<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { &[] }

pub struct Bytes<'a> { value: &'a [u8], ownership: Option<OwnedBytes>, utf8: AtomicI8, secret: bool }
//@item src/string/bytes.rs :: pub struct Bytes<'a>
//@sub /pub struct Bytes/ => pub struct SourceBytes ## the fields as written, for comparison with the struct above
//@end
/// The struct under contract has exactly the fields of the source.
fn same_fields<'a>(s: SourceBytes<'a>) -> Bytes<'a>
{ let SourceBytes { value, ownership, utf8, secret } = s; Bytes { value, ownership, utf8, secret } }

impl<'a> Bytes<'a> {
    pub closed spec fn view(&self) -> Seq<u8> { self.value@ }
    pub closed spec fn is_sec(&self) -> bool { self.secret }
    pub closed spec fn owns(&self) -> bool { self.ownership is Some }
    /// The cached UTF-8 flag is about this string, and the buffer of a secret string is wiped when released.
    pub closed spec fn inv(&self) -> bool {
        self.utf8.about() == self.value@ && (self.secret && self.ownership is Some ==> self.ownership->0.wiped())
    }

//@for F,S in empty,Seq::<u8>::empty()
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: {F}
//@ret r
//@spec
        ensures r.inv(), r@ == {S}, !r.is_sec(), !r.owns(),
//@sub /AtomicI8::new\((\w+)\)/ => AtomicI8::new(\1, Ghost(Seq::<u8>::empty())) ## names the string the flag is about
//@sub /&\[\]/ => empty_slice() ## empty slice literal
//@head
        broadcast use empty_valid;
//@end
//@endfor
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: from_bytes
//@ret r
//@spec
        ensures r.inv(), r@ == value@, !r.is_sec(), !r.owns(),
//@sub /AtomicI8::new\((\w+)\)/ => AtomicI8::new(\1, Ghost(value@)) ## names the string the flag is about
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: from_str
//@ret r
//@spec
        ensures r.inv(), r@ == text(value), !r.is_sec(), !r.owns(),
//@sub /AtomicI8::new\((\w+)\)/ => AtomicI8::new(\1, Ghost(text(value))) ## names the string the flag is about
//@sub /value\.as_bytes\(\)/ => str_bytes(value) ## by its contract
//@head
        broadcast use str_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: from_secret
//@ret r
//@spec
        ensures r.inv(), r@ == value@, r.is_sec(), r.owns() == (value@.len() > 0),
//@sub /AtomicI8::new\((\w+)\)/ => AtomicI8::new(\1, Ghost(value@)) ## names the string the flag is about
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: is_owning
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.owns(),
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: is_secret
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.is_sec(),
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: owning
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == self@, r.is_sec() == self.is_sec(), r.owns() || r@.len() == 0,
//@sub /std::mem::transmute\(self\)/ => extend(self_) ## transmute that extends a lifetime only
//@sub /mut self\)/ => self) ## Verus: self is rebound below
//@sub /if !self\.is_owning\(\)/ => let mut self_ = self; if !self_.is_owning() ## rebinding of self
//@sub /let secret = self\.secret/ => let secret = self_.secret ## rebinding of self
//@sub /self\.owning_force/ => self_.owning_force ## rebinding of self
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: secret
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == self@, r.is_sec(),
//@sub /mut self\)/ => self) ## Verus: self is rebound below
//@sub /\bself\./ => self_. ## rebinding of self
//@sub /\bself\b(?=\s*\}\s*$)/ => self_ ## rebinding of self
//@head
        let mut self_ = self;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: owning_force
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == old(self)@, final(self).is_sec() == secret, final(self).owns() || final(self)@.len() == 0,
//@sub /self\.value\.to_vec\(\)/ => slice_vec(self.value) ## by its contract
//@sub /self\.utf8\.load\(Relaxed\)\.into\(\)/ => AtomicI8::new(self.utf8.load(), Ghost(value@)) ## From<i8>; names the string the flag is about
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@.len() == 0),
//@sub /self\.value\.is_empty\(\)/ => (self.value.len() == 0) ## is_empty of a slice
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: len
//@ret r
//@spec
        requires self.inv(),
        ensures r == self@.len(),
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: is_utf8_lazy
//@ret r
//@spec
        requires self.inv(),
        ensures r matches Some(b) ==> b == valid_utf8(self@),
//@sub /load\(Relaxed\)/ => load() ## memory order dropped
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: to_utf8
//@ret r
//@spec
        requires self.inv(),
        ensures (r is Some) == valid_utf8(self@), r matches Some(s) ==> text(s) == self@,
//@sub /std::str::from_utf8_unchecked/ => from_utf8_unchecked ## by its contract
//@sub /std::str::from_utf8\(self\.value\)\.ok\(\)/ => from_utf8_ok(self.value) ## by its contract
//@sub /, Relaxed\)/ => ) ## memory order dropped
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: to_utf8_lossy
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == lossy(self@), valid_utf8(self@) ==> r@ == self@,
//@sub /Cow<'_, str>/ => CowStr<'_> ## std's Cow
//@head
        broadcast use lossy_valid;
//@end
//@fn src/string/bytes.rs :: impl Bytes<'static> :: to_utf8_lossy_static
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == lossy(self@), valid_utf8(self@) ==> r@ == self@,
//@sub /Cow<'static, str>/ => CowStr<'a> ## std's Cow
//@sub /Cow::Owned\(self\.to_utf8_lossy\(\)\.into_owned\(\)\)/ => CowStr::Owned(cow_into_owned(self.to_utf8_lossy())) ## std's Cow
//@head
        broadcast use lossy_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: utf8_cow
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == lossy(self@), r is Borrowed == valid_utf8(self@),
//@sub /Cow<'a, str>/ => CowStr<'a> ## std's Cow
//@sub /\bCow::/ => CowStr:: ## std's Cow
//@sub /std::str::from_utf8_unchecked/ => from_utf8_unchecked ## by its contract
//@sub /String::from_utf8_lossy/ => from_utf8_lossy ## by its contract
//@sub /, Relaxed\)/ => ) ## memory order dropped
//@head
        broadcast use lossy_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: into_utf8_lossy
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == lossy(self@), valid_utf8(self@) ==> r@ == self@, r.is_sec() == self.is_sec(), valid_utf8(r@),
//@sub /\bCow::/ => CowStr:: ## std's Cow
//@sub /s\.as_bytes\(\)/ => str_bytes(s) ## by its contract
//@sub /o\.into_bytes\(\)/ => string_bytes(o) ## by its contract
//@sub /(?s)(value: str_bytes.*?)1i8\.into\(\)/ => \1AtomicI8::new(1i8, Ghost(text(s))) ## From<i8>; names the string the flag is about
//@sub /1i8\.into\(\)/ => AtomicI8::new(1i8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@head
        broadcast use lossy_valid, str_valid, string_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: to_base64_impl
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == b64(self@), r.is_sec() == self.is_sec(),
//@sub /use base64::[^;]*;/ => ## import
//@sub /ENGINE\.encode/ => engine_encode ## by its contract
//@sub /encoded\.into_bytes\(\)/ => string_bytes(encoded) ## by its contract
//@sub /1i8\.into\(\)/ => AtomicI8::new(1i8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@head
        broadcast use string_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: to_base64
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == b64(self@), r.is_sec() == self.is_sec(),
//@sub /super::Word/ => Word ## path
//@head
        broadcast use b64_ok;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: to_base64_plus
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == (if self@.len() == 0 { seq![43u8] } else { b64(self@) }), r.is_sec() == self.is_sec(),
//@sub /super::Arg/ => Arg ## path
//@sub /crate::names::PLUS/ => plus() ## the constant "+"
//@head
        broadcast use b64_ok;
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: utf8_for_policy
//@ret r
//@spec
        requires self.inv(),
        ensures forall|to: Seq<u8>| honest(utf8, self@, to) ==> truthful(r, to),
//@sub /load\(Relaxed\)/ => load() ## memory order dropped
//@sub /utf8 as i8/ => policy_i8(utf8) ## enum discriminant
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: as_bytes
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@end
//@fn src/string/bytes.rs :: impl AsRef<[u8]> for Bytes<'_> :: as_ref
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@end
//@fn src/string/bytes.rs :: impl std::borrow::Borrow<[u8]> for Bytes<'_> :: borrow
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@end
//@fn src/string/bytes.rs :: impl<'a> Deref for Bytes<'a> :: deref
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@sub /Self::Target/ => [u8] ## associated type named
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: as_bytes_unsafe
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: using_value
//@ret r
//@spec
        requires self.inv(), honest(utf8, self@, value@),
        ensures r.inv(), r@ == value@, r.is_sec() == self.is_sec() || r@.len() == 0,
//@sub /utf8: utf8\.into\(\)/ => utf8: AtomicI8::new(utf8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@sub /value\.is_empty\(\)/ => (value.len() == 0) ## is_empty of a slice
//@sub /self\.ownership\.clone\(\)/ => clone_ownership(&self.ownership) ## Option::clone
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: transform
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), exists|t: Transformation<'a, T::Value>| #[trigger] call_ensures(T::transform, (tf, &*old(self)), t) && final(self)@ == t.transformed@
            && (final(self).is_sec() == old(self).is_sec() || final(self)@.len() == 0) && r == t.value,
//@sub /let tfed = tf\.transform\(self\)/ => let tfed: Transformation<'a, T::Value> = tf.transform(self) ## type made explicit
//@sub /\bCow::/ => CowBytes:: ## std's Cow
//@sub /tfed\.transformed\.as_ref\(\)\.is_empty\(\)/ => (tfed.transformed.as_ref().len() == 0) ## is_empty of a slice
//@sub /Utf8Policy::PreserveStrict => \(\)/ => Utf8Policy::PreserveStrict => self.utf8.carry_for(Ghost(s@)) ## names the string the flag is about
//@sub /let _ = self\.utf8\.compare_exchange\(([-\w]+), ([-\w]+), Relaxed, Relaxed\)/ => self.utf8.exchange_for(\1, \2, Ghost(s@)) ## names the string the flag is about
//@sub /self\.utf8\.store\(tfed\.utf8 as i8, Relaxed\)/ => self.utf8.store_for(policy_i8(tfed.utf8), Ghost(s@)) ## names the string the flag is about
//@sub /utf8: utf8\.into\(\)/ => utf8: AtomicI8::new(utf8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@end
//@fn src/string/bytes.rs :: impl<'a> Bytes<'a> :: into_vec
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@sub /self\.value\.to_vec\(\)/ => slice_vec(self.value) ## by its contract
//@end
//@fn src/string/bytes.rs :: impl Clone for Bytes<'_> :: clone
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == self@, r.is_sec() == self.is_sec(), r.owns() == self.owns(),
//@sub /self\.utf8\.load\(Relaxed\)\.into\(\)/ => AtomicI8::new(self.utf8.load(), Ghost(self.value@)) ## From<i8>; names the string the flag is about
//@sub /self\.ownership\.clone\(\)/ => clone_ownership(&self.ownership) ## Option::clone
//@end
//@fn src/string/bytes.rs :: impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> :: make_owning
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == old(self)@, final(self).is_sec() == old(self).is_sec(), final(self).owns() || final(self)@.len() == 0,
//@end
//@fn src/string/bytes.rs :: impl std::fmt::Display for Bytes<'_> :: fmt
//@name fmt_display
//@ret r
//@spec
        requires self.inv(),
        ensures self.is_sec() ==> final(f).out() == old(f).out().push(placeholder()),
            !self.is_sec() && valid_utf8(self@) ==> final(f).out() == old(f).out().push(self@),
            !self.is_sec() && !valid_utf8(self@) ==> final(f).out() == old(f).out().push(placeholder()),
//@sub /std::fmt::Formatter<'_>/ => Formatter ## a formatter that records
//@sub /std::fmt::Result/ => Result<(), ()> ## the error is opaque
//@sub /DISPLAY_PLACEHOLDER/ => display_placeholder() ## the constant
//@end
//@fn src/string/bytes.rs :: impl std::fmt::Debug for Bytes<'_> :: fmt
//@name fmt_debug
//@ret r
//@spec
        requires self.inv(),
        ensures self.is_sec() ==> final(f).out() == old(f).out().push(placeholder()),
//@sub /std::fmt::Formatter<'_>/ => Formatter ## a formatter that records
//@sub /std::fmt::Result/ => Result<(), ()> ## the error is opaque
//@sub /let mut f = f\.debug_struct\("Bytes"\);/ => ## the debug builder is the recording formatter
//@sub /let f = f\.field\("owning", &self\.is_owning\(\)\);/ => f.field_owning(self.is_owning()); ## the debug builder is the recording formatter
//@sub /f\.field\("value", &v\)/ => f.field_str(v) ## the debug builder is the recording formatter
//@sub /f\.field\("value", &self\.value\)/ => f.field_bytes(self.value) ## the debug builder is the recording formatter
//@sub /f\.field\("value", &DISPLAY_PLACEHOLDER\)/ => f.field_str(display_placeholder()) ## the debug builder is the recording formatter
//@sub /\}\s*\.finish\(\)/ => } f.finish() ## the debug builder is the recording formatter
//@end
//@fn src/string/bytes.rs :: impl<'a> From<Vec<u8>> for Bytes<'a> :: from
//@name from_vec
//@ret r
//@spec
        ensures r.inv(), r@ == value@, !r.is_sec(),
//@sub /0i8\.into\(\)/ => AtomicI8::new(0i8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@end
//@fn src/string/bytes.rs :: impl<'a> From<String> for Bytes<'a> :: from
//@name from_string
//@ret r
//@spec
        ensures r.inv(), r@ == otext(&value), !r.is_sec(),
//@sub /1i8\.into\(\)/ => AtomicI8::new(1i8, Ghost(value@)) ## From<i8>; names the string the flag is about
//@sub /value\.into_bytes\(\)/ => string_bytes(value) ## by its contract
//@head
        broadcast use string_valid;
//@end
//@fn src/string/bytes.rs :: impl<'a> From<&'a [u8]> for Bytes<'a> :: from
//@name from_slice
//@ret r
//@spec
        ensures r.inv(), r@ == value@, !r.is_sec(),
//@sub /value\.to_vec\(\)\.into\(\)/ => Bytes::from_vec(slice_vec(value)) ## Into named
//@end
//@fn src/string/bytes.rs :: impl<'a> From<&'a str> for Bytes<'a> :: from
//@name from_string_slice
//@ret r
//@spec
        ensures r.inv(), r@ == text(value), !r.is_sec(),
//@sub /value\.to_owned\(\)\.into\(\)/ => Bytes::from_string(str_owned(value)) ## Into named
//@end
//@fn src/string/bytes.rs :: impl<'a> From<Cow<'a, [u8]>> for Bytes<'a> :: from
//@name from_cow
//@ret r
//@spec
        ensures r.inv(), r@ == value@, !r.is_sec(),
//@sub /Cow<'a, \[u8\]>/ => CowBytes<'a> ## std's Cow
//@sub /Cow::Borrowed\(s\) => s\.into\(\)/ => CowBytes::Borrowed(s) => Bytes::from_slice(s) ## std's Cow, Into named
//@sub /Cow::Owned\(s\) => s\.into\(\)/ => CowBytes::Owned(s) => Bytes::from_vec(s) ## std's Cow, Into named
//@end
//@fn src/string/bytes.rs :: impl<'a> From<Cow<'a, str>> for Bytes<'a> :: from
//@name from_cow_str
//@ret r
//@spec
        ensures r.inv(), r@ == value@, !r.is_sec(),
//@sub /Cow<'a, str>/ => CowStr<'a> ## std's Cow
//@sub /Cow::Borrowed\(s\) => s\.into\(\)/ => CowStr::Borrowed(s) => Bytes::from_string_slice(s) ## std's Cow, Into named
//@sub /Cow::Owned\(s\) => s\.into\(\)/ => CowStr::Owned(s) => Bytes::from_string(s) ## std's Cow, Into named
//@end
//@fn src/string/bytes.rs :: impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> :: from
//@name into_cow
//@ret r
//@spec
        requires value.inv(),
        ensures r@ == value@,
//@sub /-> Self/ => -> CowBytes<'a> ## std's Cow
//@sub /\bCow::/ => CowBytes:: ## std's Cow
//@end
//@fn src/string/bytes.rs :: impl PartialEq for Bytes<'_> :: eq
//@ret r
//@spec
        requires self.inv(), b.inv(),
        ensures r == (self@ == b@),
//@head
        proof { seq_eq(); }
//@end
//@fn src/string/bytes.rs :: impl PartialEq<str> for Bytes<'_> :: eq
//@name eq_str
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == text(other)),
//@sub /load\(Relaxed\)/ => load() ## memory order dropped
//@sub /other\.as_bytes\(\)/ => str_bytes(other) ## by its contract
//@head
        broadcast use str_valid;
        proof { seq_eq(); }
//@end
//@fn src/string/bytes.rs :: impl PartialEq<&str> for Bytes<'_> :: eq
//@name eq_str_ref
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == text(*other)),
//@sub /self == \*other/ => self.eq_str(*other) ## the comparison named
//@end
//@fn src/string/bytes.rs :: impl PartialEq<[u8]> for Bytes<'_> :: eq
//@name eq_slice
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == other@),
//@head
        proof { seq_eq(); }
//@end
//@fn src/string/bytes.rs :: impl PartialEq<&[u8]> for Bytes<'_> :: eq
//@name eq_slice_ref
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == other@),
//@sub /self == \*other/ => self.eq_slice(*other) ## the comparison named
//@end
//@fn src/string/bytes.rs :: impl<const N: usize> PartialEq<[u8; N]> for Bytes<'_> :: eq
//@name eq_array<const N: usize>
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == other@),
//@head
        proof { seq_eq(); }
//@end
//@fn src/string/bytes.rs :: impl<const N: usize> PartialEq<&[u8; N]> for Bytes<'_> :: eq
//@name eq_array_ref<const N: usize>
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@ == other@),
//@sub /self == \*other/ => self.eq_array(*other) ## the comparison named
//@end
//@fn src/string/bytes.rs :: impl PartialOrd for Bytes<'_> :: partial_cmp
//@ret r
//@spec
        requires self.inv(), other.inv(),
        ensures r == Some(lex(self@, other@)),
//@end
//@fn src/string/bytes.rs :: impl Ord for Bytes<'_> :: cmp
//@ret r
//@spec
        requires self.inv(), other.inv(),
        ensures r == lex(self@, other@),
//@head
        proof { slice_order(); }
//@end
//@fn src/string/bytes.rs :: impl std::hash::Hash for Bytes<'_> :: hash
//@spec
        requires self.inv(),
        ensures final(hasher).fed() == old(hasher).fed().push(self@),
//@sub /std::hash::Hasher/ => Hasher ## a hasher that records
//@post
        assert(old(hasher).fed() + seq![self@] =~= old(hasher).fed().push(self@));
//@end
}
pub fn clone_ownership(o: &Option<OwnedBytes>) -> (r: Option<OwnedBytes>)
    ensures (r is Some) == (o is Some), r matches Some(x) ==> x.wiped() == o->0.wiped(),
{ match o { Some(x) => Some(x.clone()), None => None } }
#[verifier::external_body]
pub unsafe fn extend<'a, 'b>(s: Bytes<'a>) -> (r: Bytes<'b>) ensures r.inv() == s.inv(), r@ == s@, r.is_sec() == s.is_sec(), r.owns() == s.owns() { unimplemented!() }
// ---- Linked contracts ----
impl<'a> Bytes<'a> { pub open spec fn free(&self) -> bool { self.owns() || self@.len() == 0 } }
//@link strings.inc :: impl<'a> Bytes<'a> :: inv Bytes
empty from_str from_bytes from_secret from_vec from_string from_slice from_string_slice
make_owning as_bytes as_bytes_unsafe is_owning is_secret owning secret is_empty len into_vec clone is_utf8_lazy using_value as_ref
//@end
//@link bytescmp.inc :: impl<'a> Bytes<'a> :: inv Bytes
eq_bytes = self.eq(b)
cmp_bytes = self.cmp(other)
partial_cmp_bytes = self.partial_cmp(other)
hash_bytes = self.hash(hasher)
eq_str eq_str_ref eq_slice eq_slice_ref eq_array eq_array_ref
//@end
}
fn main() {}
