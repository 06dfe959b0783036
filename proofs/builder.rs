//@meta property C03 C07
//@meta assume Vec stubs satisfy their stated contracts
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include utf8.inc
/// std::str::from_utf8, of which only success or failure is used.
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub fn from_utf8(s: &[u8]) -> (r: Result<(), Utf8Error>) ensures (r is Ok) == valid_utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub unsafe fn from_utf8_unchecked(v: Vec<u8>) -> (r: String) requires valid_utf8(v@) ensures otext(&r) == v@ { unimplemented!() }
/// char::encode_utf8, as a string on its own.
#[verifier::external_body]
pub fn encode_utf8(c: char) -> (r: &'static str) ensures text(r) == encode_utf8_spec(c) { unimplemented!() }
pub uninterp spec fn encode_utf8_spec(c: char) -> Seq<u8>;
/// Vec::{shrink_to_fit, reserve, reserve_exact}: capacity only.
#[verifier::external_body]
pub fn shrink_to_fit(v: &mut Vec<u8>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
#[verifier::external_body]
pub fn reserve(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
#[verifier::external_body]
pub fn reserve_exact(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { v.reserve_exact(n) }

//@item src/string/builder.rs :: struct Builder
//@attr
pub
//@sub /\bbytes: Vec/ => pub bytes: Vec ## visibility
//@sub /\butf8: bool/ => pub utf8: bool ## visibility
//@sub /\bmarker: / => pub marker:  ## visibility
//@end
impl<T: Charset> Builder<T> {
    /// The contents obey T's rules, and are only said to be UTF-8 if they are.
    pub open spec fn inv(&self) -> bool { ok::<T>(self.bytes@) && (self.utf8 ==> valid_utf8(self.bytes@)) }
    pub open spec fn view(&self) -> Seq<u8> { self.bytes@ }
}
pub proof fn appended<'a, T: BytesNewtype<'a>>(s: Seq<u8>, t: Seq<u8>)
    requires ok::<T>(s), forall|i: int| 0 <= i < t.len() ==> !T::bad(#[trigger] t[i]),
    ensures ok::<T>(s + t), valid_utf8(s) && valid_utf8(t) ==> valid_utf8(s + t),
{
    T::extends();
    assert forall|i: int| 0 <= i < (s + t).len() implies !T::bad(#[trigger] (s + t)[i]) by { if i >= s.len() { assert((s + t)[i] == t[i - s.len()]); } }
    if valid_utf8(s) && valid_utf8(t) { valid_utf8_concat(s, t); }
}
/// The first forbidden byte.
pub open spec fn offender<T: Charset>(s: Seq<u8>, b: u8) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == b && T::bad(b) && forall|k: int| 0 <= k < i ==> !T::bad(#[trigger] s[k])
}
pub open spec fn clean<T: Charset>(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !T::bad(#[trigger] s[i]) }
impl<'a, T: BytesNewtype<'a>> Builder<T> {
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: new
//@ret r
//@spec
        ensures r.inv(), r@ == init.v(),
//@sub /new<'b>\(init: T::This<'b>\)/ => new(init: T) ## T::This is T with any lifetime
//@sub /where\s+T::This<'b>: BytesNewtype<'b>,/ => ## T::This is T with any lifetime
//@head
        proof { init.valid(); }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: shrink_to_fit
//@spec
        requires old(self).inv(), ensures final(self).inv(), final(self)@ == old(self)@,
//@sub /self\.bytes\.(\w+)\(\)/ => \1(&mut self.bytes) ## Vec method
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: reserve
//@spec
        requires old(self).inv(), ensures final(self).inv(), final(self)@ == old(self)@,
//@sub /self\.bytes\.(\w+)\(len\)/ => \1(&mut self.bytes, len) ## Vec method
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: reserve_exact
//@spec
        requires old(self).inv(), ensures final(self).inv(), final(self)@ == old(self)@,
//@sub /self\.bytes\.(\w+)\(len\)/ => \1(&mut self.bytes, len) ## Vec method
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: check_utf8
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == old(self)@, (r is Ok) == valid_utf8(old(self)@),
//@sub /std::str::Utf8Error/ => Utf8Error ## only success or failure is used
//@sub /std::str::from_utf8\(&self\.bytes\)/ => from_utf8(vec_ref(&self.bytes)) ## only success or failure is used
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: build
//@ret r
//@spec
        requires self.inv(),
        ensures r.v() == self@, !r.sec(),
//@sub /String::from_utf8_unchecked/ => from_utf8_unchecked ## String::from_utf8_unchecked
//@sub /\bstring\.into\(\)/ => Bytes::from_string(string) ## From<String>
//@sub /self\.bytes\.into\(\)/ => Bytes::from_vec(self.bytes) ## From<Vec<u8>>
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: append_unchecked
//@spec
        requires old(self).inv(), clean::<T>(string@), utf8 ==> valid_utf8(string@),
        ensures final(self).inv(), final(self)@ == old(self)@ + string@,
//@sub /string: impl AsRef<\[u8\]>/ => string: &[u8] ## AsRef
//@sub /let string = string\.as_ref\(\);/ => ## AsRef
//@sub /self\.utf8 &= utf8;/ => self.utf8 = self.utf8 && utf8; ## compound assignment on bool
//@head
        proof { appended::<T>(self.bytes@, string@); }
//@post
        proof { assert(self.bytes@ =~= old(self).bytes@ + string@); }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: append
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == old(self)@ + string.v(),
//@sub /append<'b>/ => append ## T::This is T with any lifetime
//@sub /string: impl Into<T::This<'b>>/ => string: T ## T::This is T with any lifetime
//@sub /where\s+T::This<'b>: BytesNewtype<'b>,/ => ## T::This is T with any lifetime
//@sub /let string = string\.into\(\);/ => ## Into is applied by the caller
//@head
        proof { string.valid(); }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: try_append
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(), (r is Ok) == clean::<T>(string@),
            r is Ok ==> final(self)@ == old(self)@ + string@,
            r matches Err(e) ==> *final(self) == *old(self) && e is Byte && offender::<T>(string@, e->Byte_0),
//@sub /string: impl AsRef<\[u8\]>/ => string: &[u8] ## AsRef
//@sub /let string = string\.as_ref\(\);/ => ## AsRef
//@sub /for byte in string\.iter\(\)/ => for byte in it: string ## slice iteration, named for the invariant
//@sub /ascii &= byte\.is_ascii\(\);/ => ascii = ascii && byte.is_ascii(); ## compound assignment on bool
//@sub /self\.utf8 &= ascii;/ => self.utf8 = self.utf8 && ascii; ## compound assignment on bool
//@loop 0
            invariant
                *self == *old(self), self.inv(),
                forall|k: int| 0 <= k < it.index@ ==> !T::bad(#[trigger] string@[k]),
                ascii ==> forall|k: int| 0 <= k < it.index@ ==> #[trigger] string@[k] < 128,
//@post
        proof { assert(self.bytes@ =~= old(self).bytes@ + string@); }
//@before /self\.utf8 &= ascii/
        proof { appended::<T>(self.bytes@, string@); if ascii { ascii_valid(string@); } }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: try_append_str
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(), (r is Ok) == clean::<T>(text(string)),
            r is Ok ==> final(self)@ == old(self)@ + text(string),
            r matches Err(e) ==> *final(self) == *old(self) && e is Byte && offender::<T>(text(string), e->Byte_0),
//@sub /string: impl AsRef<str>/ => string: &str ## AsRef
//@sub /let string = string\.as_ref\(\)\.as_bytes\(\);/ => let bytes = str_bytes(string); ## AsRef; the parameter keeps its name for the contract
//@sub /for byte in string\.iter\(\)/ => for byte in it: bytes ## slice iteration, named for the invariant
//@sub /extend_from_slice\(string\)/ => extend_from_slice(bytes) ## renamed above
//@head
        broadcast use str_valid;
//@loop 0
            invariant
                *self == *old(self), self.inv(), bytes@ == text(string),
                forall|k: int| 0 <= k < it.index@ ==> !T::bad(#[trigger] bytes@[k]),
//@post
        proof { assert(self.bytes@ =~= old(self).bytes@ + text(string)); }
//@before /self\.bytes\.extend_from_slice/
        proof { appended::<T>(self.bytes@, bytes@); }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: try_push
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(), (r is Ok) == !T::bad(byte),
            r is Ok ==> final(self)@ == old(self)@.push(byte),
            r matches Err(e) ==> *final(self) == *old(self) && e == InvalidString::Byte(byte),
//@sub /self\.utf8 &= byte\.is_ascii\(\);/ => self.utf8 = self.utf8 && byte.is_ascii(); ## compound assignment on bool
//@before /self\.utf8 &=/
            proof {
                let t = seq![byte];
                appended::<T>(self.bytes@, t);
                if byte < 128 { ascii_valid(t); }
                assert(self.bytes@ + t =~= self.bytes@.push(byte));
            }
//@end
//@fn src/string/builder.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: try_push_char
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(), (r is Ok) == clean::<T>(encode_utf8_spec(c)),
            r is Ok ==> final(self)@ == old(self)@ + encode_utf8_spec(c),
            r is Err ==> *final(self) == *old(self),
//@sub /let mut buf = \[0u8; 4\];/ => ## the encoded character as a string on its own
//@sub /c\.encode_utf8\(&mut buf\)/ => encode_utf8(c) ## the encoded character as a string on its own
//@end
}
// ---- Linked contracts ----
//@link source.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: inv Builder :: sub <U: BytesNewtype<'a>>->;string: U->string: T;where T: Wider<'a, U>->
new build
append = self.append(string)
//@end
//@link ctcp.rs :: impl<'a, T: BytesNewtype<'a>> Builder<T> :: inv Builder :: sub <U: BytesNewtype<'a>>->;string: U->string: T;where T: Wider<'a, U>->;encode_utf8_char->encode_utf8_spec
new reserve_exact build try_push_char
append = self.append(string)
//@end
}
fn main() {}
