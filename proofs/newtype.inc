// ---- The nine string types (and Bytes), by the contracts proved in C03_types.rs ----
/// BytesNewtype with the contracts of its implementations.
pub trait Charset: Sized {
    /// Bytes the type forbids; what it demands of the start of the string.
    spec fn bad(b: u8) -> bool;
    spec fn lead(s: Seq<u8>) -> bool;
}
pub open spec fn ok<T: Charset>(s: Seq<u8>) -> bool { T::lead(s) && forall|i: int| 0 <= i < s.len() ==> !T::bad(#[trigger] s[i]) }
pub trait BytesNewtype<'a>: Charset {
    spec fn v(&self) -> Seq<u8>;
    spec fn sec(&self) -> bool;
    /// The type invariant.
    proof fn valid(&self) ensures ok::<Self>(self.v()), self.v().len() <= isize::MAX as nat;
    /// Each type forbids either no byte or every byte outside ASCII.
    proof fn whole() ensures (forall|b: u8| b >= 128 ==> !Self::bad(b)) || (forall|b: u8| b >= 128 ==> Self::bad(b));
    /// What is demanded of the start of a string does not depend on what follows.
    proof fn extends() ensures forall|s: Seq<u8>, t: Seq<u8>| Self::lead(s) ==> #[trigger] Self::lead(s + t);
    fn is_invalid(byte: &u8) -> (r: bool) ensures r == Self::bad(*byte);
    fn check_others(bytes: &[u8]) -> (r: Option<InvalidString>)
        ensures (r is None) == Self::lead(bytes@), r matches Some(e) ==> !(e is Byte) && !Self::lead(bytes@)
            && (e is Empty ==> bytes@.len() == 0) && (e is Colon ==> bytes@.len() > 0 && bytes@[0] == 58);
    unsafe fn from_unchecked(bytes: Bytes<'a>) -> (r: Self)
        requires ok::<Self>(bytes@),
        ensures r.v() == bytes@, r.sec() == bytes.is_sec();
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v();
    fn is_utf8_lazy(&self) -> (r: bool) ensures r ==> valid_utf8(self.v());
    fn is_secret(&self) -> (r: bool) ensures r == self.sec();
    unsafe fn as_bytes_unsafe(&self) -> (r: &'a [u8]) ensures r@ == self.v();
    fn into_bytes(self) -> (r: Bytes<'a>) ensures r@ == self.v(), r.is_sec() == self.sec();
    fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self.v();
    /// `using_value(bytes, utf8).into_bytes()`: the value in between never leaves the expression.
    unsafe fn slice_bytes(&self, bytes: &'a [u8], utf8: bool) -> (r: Bytes<'a>)
        requires utf8 ==> valid_utf8(bytes@),
        ensures r@ == bytes@, r.is_sec() == self.sec() || r@.len() == 0;
}
/// `U: From<T>` among the string types: every string of T is one of U but for its start
/// (each conversion is proved in C03_types.rs).
pub trait Wider<'a, T: BytesNewtype<'a>>: BytesNewtype<'a> {
    proof fn wider() ensures forall|b: u8| Self::bad(b) ==> T::bad(b);
}
