// ---- Strings, by the contracts proved in bytes_impl.rs ----
#[verifier::external_body]
pub struct Bytes<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Bytes<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn is_sec(&self) -> bool;
    /// Nothing is borrowed: the bytes are its own, or there are none.
    pub uninterp spec fn free(&self) -> bool;
    #[verifier::external_body]
    pub fn make_owning(&mut self) ensures final(self).free(), final(self)@ == old(self)@, final(self).is_sec() == old(self).is_sec() no_unwind { unimplemented!() }
    #[verifier::external_body]
    pub const fn empty() -> (r: Bytes<'a>) ensures r@ == Seq::<u8>::empty(), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Bytes<'a>) ensures r@ == Seq::<u8>::empty(), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_str(s: &'a str) -> (r: Bytes<'a>) ensures r@ == text(s), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_bytes(s: &'a [u8]) -> (r: Bytes<'a>) ensures r@ == s@, !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secret(v: Vec<u8>) -> (r: Bytes<'a>) ensures r@ == v@, r.is_sec() { unimplemented!() }
    /// From<Vec<u8>>, From<String>, From<&[u8]>, From<&str>
    #[verifier::external_body]
    pub fn from_vec(v: Vec<u8>) -> (r: Bytes<'a>) ensures r@ == v@, !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_string(v: String) -> (r: Bytes<'a>) ensures r@ == otext(&v), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(v: &'a [u8]) -> (r: Bytes<'a>) ensures r@ == v@, !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_string_slice(v: &'a str) -> (r: Bytes<'a>) ensures r@ == text(v), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub const fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub const unsafe fn as_bytes_unsafe(&self) -> (r: &'a [u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub const fn is_owning(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_secret(&self) -> (r: bool) ensures r == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn owning<'b>(self) -> (r: Bytes<'b>) ensures r@ == self@, r.is_sec() == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn secret(self) -> (r: Bytes<'a>) ensures r@ == self@, r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub const fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes<'a>) ensures r@ == self@, r.is_sec() == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_utf8_lazy(&self) -> (r: Option<bool>) ensures r matches Some(b) ==> b == valid_utf8(self@) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn using_value(&self, value: &'a [u8], utf8: Utf8Policy) -> (r: Bytes<'a>)
        requires honest(utf8, self@, value@),
        ensures r@ == value@, r.is_sec() == self.is_sec() || r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn transform<T: Transform>(&mut self, tf: T) -> (r: T::Value)
        ensures final(self)@ == tf.image(old(self)@), final(self).is_sec() == old(self).is_sec() || final(self)@.len() == 0
        no_unwind { unimplemented!() }
}
/// No slice exceeds isize::MAX bytes.
pub broadcast axiom fn bytes_len<'a>(s: &Bytes<'a>) ensures (#[trigger] s@).len() <= isize::MAX as nat;
pub uninterp spec fn text(s: &str) -> Seq<u8>;
pub uninterp spec fn otext(s: &String) -> Seq<u8>;
pub broadcast axiom fn str_valid(s: &str) ensures valid_utf8(#[trigger] text(s));
pub broadcast axiom fn string_valid(s: &String) ensures valid_utf8(#[trigger] otext(s));
#[verifier::external_body]
pub const fn str_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn vec_ref(s: &Vec<u8>) -> (r: &[u8]) ensures r@ == s@ { s.as_ref() }
/// A transform, as the function on byte strings it computes.
pub trait Transform: Sized {
    type Value;
    spec fn image(self, s: Seq<u8>) -> Seq<u8>;
}
#[derive(Clone, Copy)]
pub enum Utf8Policy { Invalid, Recheck, Valid, Preserve, PreserveStrict }
/// What a policy promises about the bytes `to`, given the string `from`.
pub open spec fn honest(p: Utf8Policy, from: Seq<u8>, to: Seq<u8>) -> bool {
    match p {
        Utf8Policy::Invalid => !valid_utf8(to),
        Utf8Policy::Recheck => true,
        Utf8Policy::Valid => valid_utf8(to),
        Utf8Policy::Preserve => valid_utf8(from) ==> valid_utf8(to),
        Utf8Policy::PreserveStrict => valid_utf8(from) == valid_utf8(to),
    }
}
//@item src/error.rs :: pub enum InvalidString
//@attr
#[derive(Clone, Copy, Debug)]
//@end
// ---- Specification: what each string type may hold ----
pub open spec fn bad_Bytes(b: u8) -> bool { false }
pub open spec fn bad_NoNul(b: u8) -> bool { b == 0 }
pub open spec fn bad_Line(b: u8) -> bool { bad_NoNul(b) || b == 13 || b == 10 }
pub open spec fn bad_Word(b: u8) -> bool { bad_Line(b) || b == 32 }
pub open spec fn bad_Arg(b: u8) -> bool { bad_Word(b) }
pub open spec fn bad_Key(b: u8) -> bool { bad_Word(b) || b == 61 || b == 59 }
pub open spec fn bad_Target(b: u8) -> bool { bad_Word(b) || b == 44 }
pub open spec fn bad_Nick(b: u8) -> bool { bad_Target(b) || b == 33 || b == 64 }
pub open spec fn bad_User(b: u8) -> bool { bad_Word(b) || b == 64 || b == 37 }
pub open spec fn bad_Cmd(b: u8) -> bool { !upper(b) }
pub open spec fn any_start(s: Seq<u8>) -> bool { true }
pub open spec fn arg_start(s: Seq<u8>) -> bool { s.len() > 0 && s[0] != 58 }
//@for X,L in Bytes,any_start NoNul,any_start Line,any_start Word,any_start Arg,arg_start Key,arg_start Target,arg_start Nick,arg_start User,arg_start Cmd,arg_start
pub open spec fn lead_{X}(s: Seq<u8>) -> bool { {L}(s) }
pub open spec fn ok_{X}(s: Seq<u8>) -> bool { lead_{X}(s) && forall|i: int| 0 <= i < s.len() ==> !bad_{X}(#[trigger] s[i]) }
/// The error names a real offence: emptiness, a leading colon, or the first forbidden byte.
pub open spec fn offence_{X}(s: Seq<u8>, e: InvalidString) -> bool {
    match e {
        InvalidString::Empty => !lead_{X}(s) && s.len() == 0,
        InvalidString::Colon => !lead_{X}(s) && s.len() > 0 && s[0] == 58,
        InvalidString::Byte(b) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == b && bad_{X}(b) && forall|k: int| 0 <= k < i ==> !bad_{X}(#[trigger] s[k]),
    }
}
//@endfor
