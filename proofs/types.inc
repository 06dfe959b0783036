// ---- The string types, by the contracts proved in C03_types.rs ----
//@for X in NoNul Line Word Arg Key Target Nick User Cmd
#[verifier::external_body]
pub struct {X}<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Charset for {X}<'a> {
    open spec fn bad(b: u8) -> bool { bad_{X}(b) }
    open spec fn lead(s: Seq<u8>) -> bool { lead_{X}(s) }
}
impl<'a> {X}<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn is_sec(&self) -> bool;
    pub uninterp spec fn free(&self) -> bool;
    #[verifier::external_body]
    pub fn make_owning(&mut self) ensures final(self).free(), final(self)@ == old(self)@, final(self).is_sec() == old(self).is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn find_invalid(bytes: &[u8]) -> (r: Option<InvalidString>)
        ensures (r is None) == ok_{X}(bytes@), r matches Some(e) ==> offence_{X}(bytes@, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(bytes: Bytes<'a>) -> (r: Result<Self, InvalidString>)
        ensures (r is Ok) == ok_{X}(bytes@), r matches Ok(s) ==> s@ == bytes@ && s.is_sec() == bytes.is_sec(), r matches Err(e) ==> offence_{X}(bytes@, e) { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_str(string: &'a str) -> (r: Self) ensures ok_{X}(text(string)), r@ == text(string), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secret(value: Vec<u8>) -> (r: Result<Self, InvalidString>)
        ensures (r is Ok) == ok_{X}(value@), r matches Ok(s) ==> s@ == value@ && s.is_sec(), r matches Err(e) ==> offence_{X}(value@, e) { unimplemented!() }
    #[verifier::external_body]
    pub const unsafe fn from_unchecked(bytes: Bytes<'a>) -> (r: Self) requires ok_{X}(bytes@) ensures r@ == bytes@, r.is_sec() == bytes.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Bytes<'a>) ensures r@ == self@, r.is_sec() == self.is_sec(), ok_{X}(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn owning<'b>(self) -> (r: {X}<'b>) ensures r@ == self@, r.is_sec() == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn secret(self) -> (r: Self) ensures r@ == self@, r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_secret(&self) -> (r: bool) ensures r == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.is_sec() == self.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub const fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// Deref to [u8], then first().
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&u8>) ensures (r is Some) == (self@.len() > 0), r matches Some(b) ==> *b == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn nt_from_unchecked(bytes: Bytes<'a>) -> (r: Self) requires ok_{X}(bytes@) ensures r@ == bytes@, r.is_sec() == bytes.is_sec() { unimplemented!() }
}
pub broadcast axiom fn valid_{X}<'a>(s: {X}<'a>) ensures #![trigger s@] ok_{X}(s@), s@.len() <= isize::MAX as nat;
impl<'a> BytesNewtype<'a> for {X}<'a> {
    open spec fn v(&self) -> Seq<u8> { self@ }
    open spec fn sec(&self) -> bool { self.is_sec() }
    proof fn valid(&self) {
        valid_{X}(*self);
        assert forall|i: int| 0 <= i < self@.len() implies !Self::bad(#[trigger] self@[i]) by { assert(!bad_{X}(self@[i])); }
    }
    proof fn whole() { }
    proof fn extends() { }
    #[verifier::external_body]
    fn is_invalid(byte: &u8) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn check_others(bytes: &[u8]) -> Option<InvalidString> { unimplemented!() }
    #[verifier::external_body]
    unsafe fn from_unchecked(bytes: Bytes<'a>) -> Self { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> &[u8] { unimplemented!() }
    #[verifier::external_body]
    fn is_utf8_lazy(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn is_secret(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    unsafe fn as_bytes_unsafe(&self) -> &'a [u8] { unimplemented!() }
    #[verifier::external_body]
    fn into_bytes(self) -> Bytes<'a> { unimplemented!() }
    #[verifier::external_body]
    fn into_vec(self) -> Vec<u8> { unimplemented!() }
    #[verifier::external_body]
    unsafe fn slice_bytes(&self, bytes: &'a [u8], utf8: bool) -> Bytes<'a> { unimplemented!() }
}
impl<'a> Wider<'a, {X}<'a>> for {X}<'a> { proof fn wider() { } }
//@endfor
//@for X in NoNul Line Word
impl<'a> {X}<'a> {
    #[verifier::external_body]
    pub const fn empty() -> (r: Self) ensures r@ == Seq::<u8>::empty(), !r.is_sec() { unimplemented!() }
    #[verifier::external_body]
    pub const fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty(), !r.is_sec() { unimplemented!() }
}
impl<'a> Empty<'a> for {X}<'a> { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
//@endfor
/// From between the types, as C03_types.rs proves it.
//@for X,P in Line,NoNul Word,NoNul Word,Line Arg,NoNul Arg,Line Arg,Word Key,Word Key,Arg Target,Word Target,Arg Nick,Word Nick,Arg Nick,Target User,Word User,Arg Cmd,Word Cmd,Arg
impl<'a> Wider<'a, {X}<'a>> for {P}<'a> { proof fn wider() { } }
impl<'a> {P}<'a> {
    #[verifier::external_body]
    pub fn from_{X}(s: {X}<'a>) -> (r: Self) ensures r@ == s@, r.is_sec() == s.is_sec() { unimplemented!() }
}
impl<'a> {X}<'a> {
    #[verifier::external_body]
    pub fn try_from_{P}(s: {P}<'a>) -> (r: Result<Self, InvalidString>)
        ensures (r is Ok) == ok_{X}(s@), r matches Ok(x) ==> x@ == s@ && x.is_sec() == s.is_sec(), r matches Err(e) ==> offence_{X}(s@, e) { unimplemented!() }
}
//@endfor
// ---- Splitter, by the contracts proved in splitter.rs (its invariant holds between operations) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Splitter<T> { t: T }
impl<T> Splitter<T> {
    pub uninterp spec fn rem(&self) -> Seq<u8>;
    pub uninterp spec fn of(&self) -> T;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.rem().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
}
impl<'a, T: BytesNewtype<'a>> Splitter<T> {
    #[verifier::external_body]
    pub proof fn chars(&self) ensures forall|i: int| 0 <= i < self.rem().len() ==> !T::bad(#[trigger] self.rem()[i]) { }
    #[verifier::external_body]
    pub fn new(string: T) -> (r: Self) ensures r.rem() == string.v(), r.of() == string { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_byte(&self) -> (r: Option<u8>) ensures (r is Some) == (self.rem().len() > 0), r matches Some(b) ==> b == self.rem()[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn next_byte(&mut self) -> (r: Option<u8>) ensures does_next_byte(old(self).rem(), r, final(self).rem()), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn consume_invalid<'b, U: BytesNewtype<'b>>(&mut self) ensures final(self).rem() == suf(old(self).rem(), skip::<U>(old(self).rem())), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn consume_whitespace(&mut self) ensures final(self).rem() == suf(old(self).rem(), blanks(old(self).rem())), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn until_byte_eq(&mut self, byte: u8) ensures final(self).rem() == pre(old(self).rem(), until(old(self).rem(), byte)), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn until_count(&mut self, len: usize) ensures final(self).rem() == pre(old(self).rem(), count(old(self).rem(), len)), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn string<U: BytesNewtype<'a>>(&mut self, require_rest: bool) -> (r: Result<U, InvalidString>)
        ensures does_string(old(self).rem(), require_rest, r, final(self).rem(), old(self).of().sec()), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn string_or_default<U: Empty<'a>>(&mut self, require_rest: bool) -> (r: U)
        ensures does_string_or_default(old(self).rem(), require_rest, r, final(self).rem(), old(self).of().sec()), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn rest<U: Wider<'a, T>>(&mut self) -> (r: Result<U, InvalidString>)
        ensures does_rest(old(self).rem(), r, final(self).rem(), old(self).of().sec()), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn rest_or_default<U: Wider<'a, T> + Empty<'a>>(&mut self) -> (r: U)
        ensures does_rest_or_default(old(self).rem(), r, final(self).rem(), old(self).of().sec()), final(self).of() == old(self).of() { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until_byte_eq_string<U: BytesNewtype<'a>>(&mut self, byte: u8, require_rest: bool) -> (r: Result<U, InvalidString>)
        ensures final(self).of() == old(self).of(), chain_string(old(self).rem(), until(old(self).rem(), byte), require_rest, r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until2_string<U: BytesNewtype<'a>>(&mut self, byte: u8, byte2: u8, require_rest: bool) -> (r: Result<U, InvalidString>)
        ensures final(self).of() == old(self).of(), chain_string(old(self).rem(), until2(old(self).rem(), byte, byte2), require_rest, r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until_count_string<U: BytesNewtype<'a>>(&mut self, len: usize, require_rest: bool) -> (r: Result<U, InvalidString>)
        ensures final(self).of() == old(self).of(), chain_string(old(self).rem(), count(old(self).rem(), len), require_rest, r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until_byte_eq_rest<U: Wider<'a, T>>(&mut self, byte: u8) -> (r: Result<U, InvalidString>)
        ensures final(self).of() == old(self).of(), chain_rest(old(self).rem(), until(old(self).rem(), byte), r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until_count_rest<U: Wider<'a, T>>(&mut self, len: usize) -> (r: Result<U, InvalidString>)
        ensures final(self).of() == old(self).of(), chain_rest(old(self).rem(), count(old(self).rem(), len), r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_end_until_byte_eq_rest_or_default<U: Wider<'a, T> + Empty<'a>>(&mut self, byte: u8) -> (r: U)
        ensures final(self).of() == old(self).of(), chain_rest_or_default(old(self).rem(), until(old(self).rem(), byte), r, final(self).rem(), old(self).of().sec()) { unimplemented!() }
}
