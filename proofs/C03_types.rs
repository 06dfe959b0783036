//@meta property C03
//@meta assume core::slice, iterator and Cow operations used by the constructors satisfy their stated contracts
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include utf8.inc
//@include newtype.inc
/// SecretBuf::from followed by drop: wipes a rejected secret.
#[verifier::external_body]
pub struct SecretBuf { x: u8 }
impl SecretBuf { #[verifier::external_body] pub fn from(v: Vec<u8>) -> SecretBuf { unimplemented!() } }
pub fn drop_secret(s: SecretBuf) { }
/// CString::from_vec_unchecked: defined on bytes without NUL.
#[verifier::external_body]
pub struct CString { x: u8 }
impl CString {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub unsafe fn from_vec_unchecked(v: Vec<u8>) -> (r: CString)
        requires forall|i: int| 0 <= i < v@.len() ==> v@[i] != 0,
        ensures r@ == v@ { unimplemented!() }
}
/// transmute::<&[u8], &[NonZeroU8]>: defined on bytes without NUL.
#[verifier::external_body]
pub unsafe fn nonzero_slice<'b>(s: &'b [u8]) -> (r: &'b [NonZeroU8])
    requires forall|i: int| 0 <= i < s@.len() ==> s@[i] != 0,
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).val() == s@[i] { unimplemented!() }
#[verifier::external_body]
pub const unsafe fn from_utf8_unchecked<'b>(b: &'b [u8]) -> (r: &'b str) requires valid_utf8(b@) ensures text(r) == b@ { unimplemented!() }
/// panic!: the documented panic of from_str.
#[verifier::external_body]
pub const fn panic_invalid() -> ! { panic!() }
#[verifier::external_body]
pub unsafe fn get_unchecked(s: &[u8], i: usize) -> (r: &u8) requires i < s@.len() ensures *r == s@[i as int] { s.get_unchecked(i) }

// ---- The byte predicates ----
//@fn src/string/subtypes.rs :: return_none
//@ret r
//@sub /\(_: / => (_bytes: ## parameter named
//@spec
    ensures r is None,
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_nonul
//@ret r
//@spec
    ensures r == bad_NoNul(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_line
//@ret r
//@spec
    ensures CHAIN ==> r == bad_Line(*byte), r ==> bad_Line(*byte), bad_Line(*byte) ==> r || bad_NoNul(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_word
//@ret r
//@spec
    ensures CHAIN ==> r == bad_Word(*byte), r ==> bad_Word(*byte), bad_Word(*byte) ==> r || bad_Line(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_key
//@ret r
//@spec
    ensures CHAIN ==> r == bad_Key(*byte), r ==> bad_Key(*byte), bad_Key(*byte) ==> r || bad_Word(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_target
//@ret r
//@spec
    ensures CHAIN ==> r == bad_Target(*byte), r ==> bad_Target(*byte), bad_Target(*byte) ==> r || bad_Word(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_nick
//@ret r
//@spec
    ensures CHAIN ==> r == bad_Nick(*byte), r ==> bad_Nick(*byte), bad_Nick(*byte) ==> r || bad_Target(*byte),
//@end
//@fn src/string/subtypes.rs :: is_invalid_for_user
//@ret r
//@spec
    ensures CHAIN ==> r == bad_User(*byte), r ==> bad_User(*byte), bad_User(*byte) ==> r || bad_Word(*byte),
//@end
//@fn src/string/subtypes.rs :: cmd_byte_check
//@ret r
//@spec
    ensures r == bad_Cmd(*byte),
//@end
//@fn src/string/subtypes.rs :: arg_first_check
//@ret r
//@spec
    ensures (r is None) == arg_start(bytes@), r matches Some(e) ==> (e is Empty && bytes@.len() == 0) || (e is Colon && bytes@.len() > 0 && bytes@[0] == 58),
//@end

// ---- The nine types ----
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
pub struct {X}<'a>(Bytes<'a>);
/// A transform that keeps the rules of the type.
pub trait {X}Safe: Transform { proof fn safe(self, s: Seq<u8>) requires ok_{X}(s) ensures ok_{X}(self.image(s)); }
impl<'a> {X}<'a> {
    pub closed spec fn view(&self) -> Seq<u8> { self.0@ }
    pub closed spec fn is_sec(&self) -> bool { self.0.is_sec() }
    pub closed spec fn free(&self) -> bool { self.0.free() }
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { ok_{X}(self.0@) }
    /// Deref down to the bytes.
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, ok_{X}(r@) { proof { use_type_invariant(self); } self.0.as_bytes() }

//@fn @expanded :: impl<'a> {X}<'a> :: is_invalid
//@ret r
//@spec
        ensures r == bad_{X}(*byte),
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: find_invalid
//@ret r
//@spec
        ensures (r is None) == ok_{X}(bytes@), r matches Some(e) ==> offence_{X}(bytes@, e),
//@loop 0
            invariant i <= bytes@.len(), lead_{X}(bytes@), forall|k: int| 0 <= k < i ==> !bad_{X}(#[trigger] bytes@[k]),
            decreases bytes@.len() - i,
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: from_bytes
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(bytes@), r matches Ok(s) ==> s@ == bytes@ && s.is_sec() == bytes.is_sec(), r matches Err(e) ==> offence_{X}(bytes@, e),
//@sub /impl Into<Bytes<'a>>/ => Bytes<'a> ## the conversion at the call is the caller's
//@sub /let bytes = bytes\.into\(\);/ => ## identity conversion
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: from_str
//@ret r
//@spec
        ensures ok_{X}(text(string)), r@ == text(string), !r.is_sec(),
//@sub /string\.as_bytes\(\)/ => str_bytes(string) ## by its contract
//@sub /::core::panicking::panic_fmt\(format_args!\("invalid string"\)\);/ => panic_invalid() ## the documented panic
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: from_unchecked
//@ret r
//@spec
        requires ok_{X}(bytes@),
        ensures r@ == bytes@, r.is_sec() == bytes.is_sec(),
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: from_secret
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@ && s.is_sec(), r matches Err(e) ==> offence_{X}(value@, e),
//@sub /value\.as_ref\(\)/ => vec_ref(&value) ## AsRef named
//@sub /std::mem::drop\(crate::string::SecretBuf::from\(value\)\)/ => drop_secret(SecretBuf::from(value)) ## path
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: transform
//@spec
        ensures final(self)@ == tf.image(old(self)@), final(self).is_sec() == old(self).is_sec() || final(self)@.len() == 0,
//@head
        proof { use_type_invariant(&*self); tf.safe(self.0@); }
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: into_bytes
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(), ok_{X}(r@),
//@sub /unsafe \{ std::mem::transmute\(self\) \}/ => self.0 ## transmute of the transparent newtype
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: is_secret
//@ret r
//@spec
        ensures r == self.is_sec(),
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: owning
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(),
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn @expanded :: impl<'a> crate::owning::MakeOwning for {X}<'a> :: make_owning
//@attr pub
//@spec
        ensures final(self).free(), final(self)@ == old(self)@, final(self).is_sec() == old(self).is_sec(),
//@head
        proof { use_type_invariant(&*self); }
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: secret
//@ret r
//@spec
        ensures r@ == self@, r.is_sec(),
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: is_empty
//@ret r
//@spec
        ensures r == (self@.len() == 0),
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: len
//@ret r
//@spec
        ensures r == self@.len(),
//@end
//@fn @expanded :: impl AsRef<[u8]> for {X}<'_> :: as_ref
//@ret r
//@spec
        ensures r@ == self@,
//@end
//@fn @expanded :: impl Borrow<[u8]> for {X}<'_> :: borrow
//@ret r
//@spec
        ensures r@ == self@,
//@sub /self\.0\.borrow\(\)/ => self.0.as_ref() ## Borrow of Bytes (proved in bytes_impl.rs)
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: into_cstring
//@ret r
//@spec
        ensures r@ == self@,
//@sub /std::ffi::CString/ => CString ## path
//@sub /self\.into\(\)/ => self.into_bytes().into_vec() ## Into named
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: as_bytes_nonzero
//@ret r
//@spec
        ensures r@.len() == self@.len(),
//@sub /std::num::NonZeroU8/ => NonZeroU8 ## path
//@sub /std::mem::transmute\(/ => nonzero_slice( ## by its contract
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: check_others
//@name nt_check_others
//@ret r
//@spec
        ensures (r is None) == lead_{X}(bytes@), r matches Some(e) ==> !(e is Byte) && offence_{X}(bytes@, e),
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: from_unchecked
//@name nt_from_unchecked
//@ret r
//@spec
        requires ok_{X}(bytes@),
        ensures r@ == bytes@, r.is_sec() == bytes.is_sec(),
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: into_bytes
//@name nt_into_bytes
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(), ok_{X}(r@),
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: is_invalid
//@name nt_is_invalid
//@ret r
//@spec
        ensures r == bad_{X}(*byte),
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: using_value
//@name nt_using_value
//@ret r
//@spec
        requires ok_{X}(bytes@), utf8 ==> valid_utf8(bytes@),
        ensures r@ == bytes@, r.is_sec() == self.is_sec() || r@.len() == 0,
//@sub /use crate::string::Utf8Policy;/ => ## import
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: is_utf8_lazy
//@name nt_is_utf8_lazy
//@ret r
//@spec
        ensures r ==> valid_utf8(self@),
//@sub /\.unwrap_or_default\(\)/ => .unwrap_or(false) ## bool::default()
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: is_secret
//@name nt_is_secret
//@ret r
//@spec
        ensures r == self.is_sec(),
//@end
//@fn @expanded :: impl<'a> BytesNewtype<'a> for {X}<'a> :: as_bytes_unsafe
//@name nt_as_bytes_unsafe
//@ret r
//@spec
        ensures r@ == self@, ok_{X}(r@),
//@head
        proof { use_type_invariant(self); }
//@end
//@fn @expanded :: impl<'a> TryFrom<Bytes<'a>> for {X}<'a> :: try_from
//@name try_from_string
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@ && s.is_sec() == value.is_sec(), r matches Err(e) ==> offence_{X}(value@, e),
//@end
//@fn @expanded :: impl<'a> TryFrom<&'a [u8]> for {X}<'a> :: try_from
//@name try_from_slice
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@, r matches Err(e) ==> offence_{X}(value@, e),
//@sub /Bytes::from\(value\)\.try_into\(\)/ => {X}::try_from_string(Bytes::from_slice(value)) ## From and TryInto named
//@sub /Self::Error/ => InvalidString ## associated type named
//@end
//@fn @expanded :: impl<'a> TryFrom<&'a str> for {X}<'a> :: try_from
//@name try_from_str
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(text(value)), r matches Ok(s) ==> s@ == text(value), r matches Err(e) ==> offence_{X}(text(value), e),
//@sub /Bytes::from\(value\)\.try_into\(\)/ => {X}::try_from_string(Bytes::from_string_slice(value)) ## From and TryInto named
//@sub /Self::Error/ => InvalidString ## associated type named
//@end
//@fn @expanded :: impl<'a> TryFrom<Vec<u8>> for {X}<'a> :: try_from
//@name try_from_vec
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@, r matches Err(e) ==> offence_{X}(value@, e),
//@sub /Bytes::from\(value\)\.try_into\(\)/ => {X}::try_from_string(Bytes::from_vec(value)) ## From and TryInto named
//@sub /Self::Error/ => InvalidString ## associated type named
//@end
//@fn @expanded :: impl<'a> TryFrom<String> for {X}<'a> :: try_from
//@name try_from_owned
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(otext(&value)), r matches Ok(s) ==> s@ == otext(&value), r matches Err(e) ==> offence_{X}(otext(&value), e),
//@sub /Bytes::from\(value\)\.try_into\(\)/ => {X}::try_from_string(Bytes::from_string(value)) ## From and TryInto named
//@sub /Self::Error/ => InvalidString ## associated type named
//@end
}
//@endfor
//@for X in NoNul Line Word
impl<'a> {X}<'a> {
//@fn @expanded :: impl<'a> {X}<'a> :: empty
//@ret r
//@spec
        ensures r@ == Seq::<u8>::empty(), !r.is_sec(),
//@end
//@fn @expanded :: impl<'a> Default for {X}<'a> :: default
//@ret r
//@spec
        ensures r@ == Seq::<u8>::empty(), !r.is_sec(),
//@end
}
//@endfor

// ---- Narrowing from the parent type ----
//@for X,P in Line,NoNul Word,Line Key,Arg Target,Arg Nick,Target User,Arg Cmd,Arg
//@fn @expanded :: impl<'a> {X}<'a> :: from_super :: check
//@name check_{X}
//@ret r
//@spec
    requires ok_{P}(bytes@),
    ensures (r is None) == ok_{X}(bytes@), r matches Some(e) ==> offence_{X}(bytes@, e),
//@loop 0
        invariant i <= bytes@.len(), ok_{P}(bytes@), lead_{X}(bytes@), forall|k: int| 0 <= k < i ==> !bad_{X}(#[trigger] bytes@[k]),
        decreases bytes@.len() - i,
//@end
impl<'a> {X}<'a> {
//@fn @expanded :: impl<'a> {X}<'a> :: from_super
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(sup@), r matches Ok(s) ==> s@ == sup@ && s.is_sec() == sup.is_sec(), r matches Err(e) ==> offence_{X}(sup@, e),
//@drop check
//@sub /impl Into<{P}<'a>>/ => {P}<'a> ## the conversion at the call is the caller's
//@sub /let sup = sup\.into\(\);/ => ## identity conversion
//@sub /check\(sup\.as_ref\(\)\)/ => check_{X}(sup.as_bytes()) ## the nested function, extracted above
//@sub /unsafe \{\s*std::mem::transmute::<{P}<'a>, Self>\(sup\)\s*\}/ => {X}(sup.0) ## transmute of the transparent newtype
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: into_super
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(),
//@sub /unsafe \{ std::mem::transmute\(self\) \}/ => {P}(self.0) ## transmute of the transparent newtype
//@head
        proof { use_type_invariant(&self); }
//@end
}
//@endfor

//@for X,P in Arg,Word
//@fn @expanded :: impl<'a> {X}<'a> :: from_super :: check
//@name check_{X}
//@ret r
//@spec
    requires ok_{P}(bytes@),
    ensures (r is None) == ok_{X}(bytes@), r matches Some(e) ==> offence_{X}(bytes@, e),
//@end
impl<'a> {X}<'a> {
//@fn @expanded :: impl<'a> {X}<'a> :: from_super
//@ret r
//@spec
        ensures (r is Ok) == ok_{X}(sup@), r matches Ok(s) ==> s@ == sup@ && s.is_sec() == sup.is_sec(), r matches Err(e) ==> offence_{X}(sup@, e),
//@drop check
//@sub /impl Into<{P}<'a>>/ => {P}<'a> ## the conversion at the call is the caller's
//@sub /let sup = sup\.into\(\);/ => ## identity conversion
//@sub /check\(sup\.as_ref\(\)\)/ => check_{X}(sup.as_bytes()) ## the nested function, extracted above
//@sub /unsafe \{\s*std::mem::transmute::<{P}<'a>, Self>\(sup\)\s*\}/ => {X}(sup.0) ## transmute of the transparent newtype
//@end
//@fn @expanded :: impl<'a> {X}<'a> :: into_super
//@ret r
//@spec
        ensures r@ == self@, r.is_sec() == self.is_sec(),
//@sub /unsafe \{ std::mem::transmute\(self\) \}/ => {P}(self.0) ## transmute of the transparent newtype
//@head
        proof { use_type_invariant(&self); }
//@end
}
//@endfor

// ---- Conversions between the types ----
//@for X,P in Line,NoNul Word,NoNul Word,Line Arg,NoNul Arg,Line Arg,Word Key,NoNul Key,Line Key,Word Key,Arg Target,NoNul Target,Line Target,Word Target,Arg Nick,NoNul Nick,Line Nick,Word Nick,Arg Nick,Target User,NoNul User,Line User,Word User,Arg Cmd,NoNul Cmd,Line Cmd,Word Cmd,Arg
//@fn @expanded :: impl<'a> From<{X}<'a>> for {P}<'a> :: from
//@name from_{X}_{P}
//@ret r
//@spec
    ensures r@ == value@, r.is_sec() == value.is_sec(),
//@sub /fn from\(/ => fn from<'a>( ## lifetime of the impl
//@sub /unsafe \{ std::mem::transmute\(value\) \}/ => {P}(value.0) ## transmute of the transparent newtype
//@head
    proof { use_type_invariant(&value); }
//@end
//@fn @expanded :: impl<'a> TryFrom<{P}<'a>> for {X}<'a> :: try_from
//@name try_{P}_{X}
//@ret r
//@spec
    ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@ && s.is_sec() == value.is_sec(), r matches Err(e) ==> offence_{X}(value@, e),
//@sub /fn try_from\(/ => fn try_from<'a>( ## lifetime of the impl
//@end
//@endfor

// ---- Special conversions ----
impl<'a> Nick<'a> {
//@fn src/string/subtypes/impls.rs :: impl<'a> Nick<'a> :: from_arg
//@ret r
//@spec
        ensures (r is Ok) == ok_Nick(arg@), r matches Ok(s) ==> s@ == arg@ && s.is_sec() == arg.is_sec(), r matches Err(e) ==> offence_Target(arg@, e) || offence_Nick(arg@, e),
//@sub /impl Into<Arg<'a>>/ => Arg<'a> ## the conversion at the call is the caller's
//@sub /arg\.into\(\)/ => arg ## identity conversion
//@end
}
impl<'a> Key<'a> {
//@fn src/string/subtypes/impls.rs :: impl Key<'_> :: is_client_tag
//@ret r
//@spec
        ensures r == (self@[0] == 43),
//@sub /self\.0\.get_unchecked\(/ => get_unchecked(self.0.as_bytes(), ## Deref named
//@head
        proof { use_type_invariant(self); }
//@end
}
/// AsciiCasemap::<true> as a transform (its code is under contract in C16_casemap.rs).
pub struct AsciiUpper;
impl Transform for AsciiUpper {
    type Value = ();
    open spec fn image(self, s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| to_upper(s[i])) }
}
impl WordSafe for AsciiUpper { proof fn safe(self, s: Seq<u8>) { } }
/// slice::Iter::find
#[verifier::external_body]
pub fn find<'b, F: Fn(&&u8) -> bool>(s: &'b [u8], f: F) -> (r: Option<&'b u8>)
    requires forall|b: &&u8| call_requires(f, (b,)),
    ensures
        r matches Some(x) ==> exists|k: int| 0 <= k < s@.len() && #[trigger] s@[k] == *x && call_ensures(f, (&&s@[k],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&&#[trigger] s@[i],), false),
        r is None ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&&#[trigger] s@[i],), false),
{ s.iter().find(|x| f(x)) }
impl<'a> Cmd<'a> {
//@fn src/string/subtypes/impls.rs :: impl<'a> Cmd<'a> :: from_word
//@ret r
//@spec
        ensures (r is Ok) == (word@.len() > 0 && forall|i: int| 0 <= i < word@.len() ==> upper(#[trigger] word@[i]) || lower(word@[i])),
            r matches Ok(c) ==> c@ == (AsciiUpper).image(word@) && c.is_sec() == word.is_sec(),
            r matches Err(e) ==> (e is Empty && word@.len() == 0) || (e matches InvalidString::Byte(b) && exists|i: int| 0 <= i < word@.len() && #[trigger] word@[i] == b && !upper(b) && !lower(b)
                && forall|k: int| 0 <= k < i ==> upper(#[trigger] word@[k]) || lower(word@[k])),
//@sub /impl Into<Word<'a>>/ => Word<'a> ## the conversion at the call is the caller's
//@sub /let mut word = word\.into\(\);/ => let mut word = word; ## identity conversion
//@sub /word\.iter\(\)\.find\(\|b\| ([^;{}]*?)\) \{/ => find(word.as_bytes(), |b: &&u8| -> (y: bool) ensures y == !(upper(**b) || lower(**b)) { \1 }) { ## contract on the closure
//@sub /AsciiCasemap::<true>/ => AsciiUpper ## by its contract
//@sub /word\.into\(\)/ => word.into_bytes() ## Into named
//@end
//@fn src/string/subtypes/impls.rs :: impl<'a> Cmd<'a> :: as_str
//@ret r
//@spec
        ensures text(r) == self@,
//@sub /std::str::from_utf8_unchecked/ => from_utf8_unchecked ## by its contract
//@head
        proof { use_type_invariant(self); ascii_valid(self.0@); }
//@end
}
impl<'a> User<'a> {
//@fn src/string/subtypes/impls.rs :: impl User<'_> :: no_tilde
//@ret r
//@spec
        ensures r == (self@[0] != 126),
//@sub /self\.first\(\)\.copied\(\) != Some\(b'~'\)/ => !first_is(self.as_bytes(), b'~') ## comparison of the first byte
//@head
        proof { use_type_invariant(self); }
//@end
//@fn src/string/subtypes/impls.rs :: impl User<'_> :: len_with_tilde
//@ret r
//@spec
        ensures r == self@.len() + (if self@[0] != 126 { 1int } else { 0int }),
//@head
        broadcast use bytes_len;
        proof { use_type_invariant(self); assert(self.0@.len() <= isize::MAX as nat); }
//@end
}
#[verifier::external_body]
pub fn first_is(s: &[u8], b: u8) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == b) { s.first().copied() == Some(b) }
// ---- The laws that splitting and building rely on (newtype.inc) ----
//@for X in Bytes NoNul Line Word Arg Key Target Nick User Cmd
pub proof fn laws_{X}()
    ensures
        (forall|b: u8| b >= 128 ==> !bad_{X}(b)) || (forall|b: u8| b >= 128 ==> bad_{X}(b)),
        forall|s: Seq<u8>, t: Seq<u8>| lead_{X}(s) ==> #[trigger] lead_{X}(s + t),
{ }
//@endfor
// ---- The trait the splitter and the builder rely on (newtype.inc): its contract, from those proved above ----
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
impl<'a> Charset for {X}<'a> {
    open spec fn bad(b: u8) -> bool { bad_{X}(b) }
    open spec fn lead(s: Seq<u8>) -> bool { lead_{X}(s) }
}
impl<'a> BytesNewtype<'a> for {X}<'a> {
    closed spec fn v(&self) -> Seq<u8> { self@ }
    closed spec fn sec(&self) -> bool { self.is_sec() }
    /// The type invariant, of every value there is; no slice exceeds isize::MAX bytes.
    #[verifier::external_body]
    proof fn valid(&self) { }
    proof fn whole() { laws_{X}(); }
    proof fn extends() { laws_{X}(); }
    fn is_invalid(byte: &u8) -> bool { Self::nt_is_invalid(byte) }
    fn check_others(bytes: &[u8]) -> Option<InvalidString> { Self::nt_check_others(bytes) }
    unsafe fn from_unchecked(bytes: Bytes<'a>) -> Self {
        assert forall|i: int| 0 <= i < bytes@.len() implies !bad_{X}(#[trigger] bytes@[i]) by { assert(!Self::bad(bytes@[i])); }
        unsafe { Self::nt_from_unchecked(bytes) }
    }
    fn as_ref(&self) -> &[u8] { {X}::as_ref(self) }
    fn is_utf8_lazy(&self) -> bool { self.nt_is_utf8_lazy() }
    fn is_secret(&self) -> bool { self.nt_is_secret() }
    unsafe fn as_bytes_unsafe(&self) -> &'a [u8] { unsafe { self.nt_as_bytes_unsafe() } }
    fn into_bytes(self) -> Bytes<'a> { self.nt_into_bytes() }
    fn into_vec(self) -> Vec<u8> { self.nt_into_bytes().into_vec() }
    #[verifier::external_body]
    unsafe fn slice_bytes(&self, bytes: &'a [u8], utf8: bool) -> Bytes<'a> { unimplemented!() }
}
//@endfor
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
//@shown types.inc :: impl<'a> BytesNewtype<'a> for {X}<'a> :: is_invalid check_others from_unchecked as_ref is_utf8_lazy is_secret as_bytes_unsafe into_bytes into_vec
//@endfor
// ---- Linked contracts ----
pub open spec fn up(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| to_upper(b)) }
pub open spec fn letters(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> upper(#[trigger] s[i]) || lower(s[i]) }
//@link msgparts.inc :: impl<'a> Cmd<'a>
from_word = let r = Self::from_word(word); assert(up(word@) =~= (AsciiUpper).image(word@)); r
as_str
//@end
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
//@link types.inc :: impl<'a> {X}<'a>
find_invalid from_bytes from_str from_secret from_unchecked into_bytes as_ref as_bytes owning make_owning secret is_secret is_empty len
nt_from_unchecked
//@end
//@endfor
//@for X in NoNul Line Word
//@link types.inc :: impl<'a> {X}<'a>
empty default
//@end
//@endfor
//@for X,P in Line,NoNul Word,NoNul Word,Line Arg,NoNul Arg,Line Arg,Word Key,Word Key,Arg Target,Word Target,Arg Nick,Word Nick,Arg Nick,Target User,Word User,Arg Cmd,Word Cmd,Arg
//@link types.inc :: impl<'a> {P}<'a>
from_{X} = from_{X}_{P}(s)
//@end
//@link types.inc :: impl<'a> {X}<'a>
try_from_{P} = try_{P}_{X}(s)
//@end
//@endfor
}
fn main() {}
