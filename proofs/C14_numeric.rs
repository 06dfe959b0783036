//@meta property C14
//@meta property C25
//@meta assume core::fmt and serde write and read what the contracts of their stubs say
use vstd::prelude::*;
verus! {
//@include std.inc
//@include common.inc
//@include cmpspec.inc
/// mem::transmute between [u8; 3] and [NonZero<u8>; 3] (same layout): defined on non-zero bytes.
#[verifier::external_body]
pub const unsafe fn transmute_in(b: [u8; 3]) -> (r: [NonZeroU8; 3])
    requires b[0] != 0, b[1] != 0, b[2] != 0,
    ensures r[0].val() == b[0], r[1].val() == b[1], r[2].val() == b[2],
{ unimplemented!() }
#[verifier::external_body]
pub const unsafe fn transmute_out(b: &[NonZeroU8; 3]) -> (r: &[u8; 3])
    ensures b[0].val() == r[0], b[1].val() == r[1], b[2].val() == r[2],
{ unimplemented!() }
/// str::from_utf8_unchecked: defined on valid UTF-8, of which ASCII is a part.
pub uninterp spec fn text(s: &str) -> Seq<u8>;
#[verifier::external_body]
pub const unsafe fn from_utf8_unchecked(b: &[u8; 3]) -> (r: &str)
    requires b[0] < 128, b[1] < 128, b[2] < 128,
    ensures text(r) == b@,
{ unimplemented!() }
/// std::num::TryFromIntError, from a conversion that fails.
#[verifier::external_body]
pub struct TryFromIntError { x: u8 }
#[verifier::external_body]
pub fn too_big(v: u16) -> (r: TryFromIntError)
    requires v > 255,
{ unimplemented!() }
/// A Write that only records what it was given.
pub trait Write { spec fn out(&self) -> Seq<u8>; fn write_all(&mut self, b: &[u8; 3]) -> (r: Result<(), ()>)
    ensures r is Ok ==> final(self).out() == old(self).out() + b@; }

// ---- Specification ----
pub open spec fn hundreds(n: int) -> int { n / 100 }
pub open spec fn tens(n: int) -> int { (n / 10) % 10 }
pub open spec fn ones(n: int) -> int { n % 10 }
/// The three digits of n.
pub open spec fn digits(n: int) -> Seq<u8> {
    seq![(48 + hundreds(n)) as u8, (48 + tens(n)) as u8, (48 + ones(n)) as u8]
}
pub open spec fn value(s: Seq<u8>) -> int { 100 * (s[0] - 48) + 10 * (s[1] - 48) + (s[2] - 48) }
pub open spec fn three_digits(s: Seq<u8>) -> bool { s.len() == 3 && digit(s[0]) && digit(s[1]) && digit(s[2]) }
/// The documented classification.
pub open spec fn class(n: int) -> Option<bool> {
    if n < 400 { Some(false) }
    else if n <= 568 { Some(true) }
    else if n == 670 || n == 671 || n == 704 || n == 705 || n == 706 || n == 740 || n == 741 || n == 900 || n == 901 || n == 903 || n == 908 { Some(false) }
    else if n == 691 || n == 696 || n == 723 || n == 902 || (904 <= n <= 907) { Some(true) }
    else { None }
}
/// A value is determined by its digits, and the digits by the value.
pub proof fn value_digits(n: int)
    requires 0 <= n < 1000,
    ensures three_digits(digits(n)), value(digits(n)) == n,
{ }
pub proof fn digits_value(s: Seq<u8>)
    requires three_digits(s),
    ensures 0 <= value(s) < 1000, digits(value(s)) =~= s,
{ }
/// Order of the digits is the order of the values.
pub open spec fn less(a: Seq<u8>, b: Seq<u8>) -> bool {
    a[0] < b[0] || (a[0] == b[0] && (a[1] < b[1] || (a[1] == b[1] && a[2] < b[2])))
}
pub proof fn order(a: Seq<u8>, b: Seq<u8>)
    requires three_digits(a), three_digits(b),
    ensures less(a, b) == (value(a) < value(b)), (a == b) == (value(a) == value(b)),
{ digits_value(a); digits_value(b); }

//@item src/ircmsg/numeric.rs :: pub struct Numeric
//@attr
#[derive(Copy, Clone)]
//@end
impl Numeric {
    pub closed spec fn view(&self) -> Seq<u8> { seq![self.0[0].val(), self.0[1].val(), self.0[2].val()] }
    /// The invariant: three ASCII digits.
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { three_digits(self@) }

//@fn src/ircmsg/numeric.rs :: impl Numeric :: from_bytes
//@ret r
//@spec
        ensures (r is Some) == three_digits(bytes@), r matches Some(n) ==> n@ == bytes@,
//@loop 0
            invariant
                i <= 3, bytes@.len() == 3,
                forall|k: int| 0 <= k < i ==> digit(#[trigger] bytes@[k]) && retval@[k] == bytes@[k],
            decreases 3 - i,
//@before /Some\(unsafe/
        assert(retval@ =~= bytes@);
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: from_bytes_unchecked
//@ret r
//@spec
        requires three_digits(bytes@),
        ensures r@ == bytes@,
//@sub /std::mem::transmute::<\[u8; 3\], \[[^\]]*; 3\]>\(/ => transmute_in( ## transmute, by its contract
//@head
        assert(seq![bytes[0], bytes[1], bytes[2]] =~= bytes@);
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: from_int
//@ret r
//@spec
        ensures (r is Some) == (x < 1000), r matches Some(n) ==> n@ == digits(x as int),
//@sub /\bint\b/ => x ## `int` is a Verus type
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: from_int_unchecked
//@ret r
//@spec
        requires x < 1000,
        ensures r@ == digits(x as int),
//@sub /\bint\b/ => x ## `int` is a Verus type
//@before /unsafe \{ Self::from/
        assert([h, t, o]@ =~= digits(x as int));
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: as_bytes
//@ret r
//@spec
        ensures r@ == self@,
//@sub /std::mem::transmute\(&self\.0\)/ => { let r = transmute_out(&self.0); assert(r@ =~= self@); r } ## transmute, by its contract
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: as_str
//@ret r
//@spec
        ensures text(r) == self@,
//@sub /std::str::from_utf8_unchecked/ => from_utf8_unchecked ## by its contract
//@head
        proof { use_type_invariant(self); }
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: into_int
//@ret r
//@spec
        ensures r == value(self@), r < 1000,
//@head
        proof { use_type_invariant(&self); }
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + self@,
//@sub /std::io::Result<\(\)>/ => Result<(), ()> ## the error is opaque
//@end

//@fn src/ircmsg/numeric.rs :: impl Numeric :: is_error
//@ret r
//@spec
        ensures r == class(value(self@)),
//@end
}
//@fn src/ircmsg/numeric.rs :: impl TryFrom<u16> for Numeric :: try_from
//@ret r
//@spec
    ensures (r is Ok) == (value < 1000), r matches Ok(n) ==> n@ == digits(value as int),
//@sub /Result<Self, Self::Error>/ => Result<Numeric, TryFromIntError> ## Self named
//@sub /Self::from_int/ => Numeric::from_int ## Self named
//@sub /u8::try_from\(value\)\.unwrap_err\(\)/ => too_big(value) ## the conversion u8::try_from fails exactly above 255
//@end
//@fn src/ircmsg/numeric.rs :: impl From<Numeric> for u16 :: from
//@ret r
//@name u16_from
//@spec
    ensures r == value(val@),
//@sub /value: Numeric/ => val: Numeric ## parameter renamed (it shadows the specification function)
//@sub /value\.into_int/ => val.into_int ## parameter renamed
//@sub /-> Self/ => -> u16 ## Self named
//@end

/// The property over the contracts alone: the conversions are inverse to each other.
fn property(n: Numeric, s: &[u8], v: u16) {
    proof { use_type_invariant(n); digits_value(n@); }
    let i = n.into_int();
    let back = Numeric::from_int(i);
    assert(back is Some && back->0@ == n@);
    let back = Numeric::from_bytes(n.as_bytes());
    assert(back is Some && back->0@ == n@);
    let m = Numeric::from_int(v);
    if let Some(m) = m { proof { value_digits(v as int); } let w = m.into_int(); assert(w == v); }
    let ser = u16_from(n);
    let de = try_from(ser);
    assert(de is Ok && de->Ok_0@ == n@);
}
/// Numerics are equal, ordered and hashed as their digits; by `order` above that is the order of the integers.
pub open spec fn vals(a: [NonZeroU8; 3]) -> Seq<u8> { seq![a[0].val(), a[1].val(), a[2].val()] }
impl core::cmp::PartialOrd for NonZeroU8 { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl core::cmp::Ord for NonZeroU8 { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
/// Equality and order of arrays of NonZeroU8 in the standard library.
pub axiom fn array_order()
    ensures
        <[NonZeroU8; 3] as PartialEqSpec<[NonZeroU8; 3]>>::obeys_eq_spec(),
        forall|a: [NonZeroU8; 3], b: [NonZeroU8; 3]| #[trigger] <[NonZeroU8; 3] as PartialEqSpec<[NonZeroU8; 3]>>::eq_spec(&a, &b) == (vals(a) == vals(b)),
        <[NonZeroU8; 3] as OrdSpec>::obeys_cmp_spec(),
        forall|a: [NonZeroU8; 3], b: [NonZeroU8; 3]| #[trigger] <[NonZeroU8; 3] as OrdSpec>::cmp_spec(&a, &b) == lex(vals(a), vals(b));
impl PartialEqSpecImpl for Numeric { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl core::cmp::PartialEq for Numeric {
//@fn @expanded :: ~impl (::core::cmp::|std::cmp::|)PartialEq for Numeric :: eq
//@head
        proof { array_order(); }
//@end
}
impl core::cmp::Eq for Numeric { }
impl PartialOrdSpecImpl for Numeric { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lex(self@, o@)) } }
impl core::cmp::PartialOrd for Numeric {
//@fn @expanded :: ~impl (::core::cmp::|std::cmp::|)PartialOrd for Numeric :: partial_cmp
//@end
}
impl OrdSpecImpl for Numeric { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lex(self@, o@) } }
impl core::cmp::Ord for Numeric {
//@fn @expanded :: ~impl (::core::cmp::|std::cmp::|)Ord for Numeric :: cmp
//@head
        proof { array_order(); }
//@end
}
impl Hash for Numeric {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] }
//@fn @expanded :: ~impl (::core|std)::hash::Hash for Numeric :: hash
//@sub /(::core|std)::hash::/ => ## a hasher that records
//@opt /\b__H\b/ => H ## name of the type parameter
//@post
        assert(final(state).fed() =~= old(state).fed() + self.hashed());
//@end
    proof fn agree(&self, o: &Self) { }
}
/// "Ordering follows the integers."
pub fn integer_order(a: Numeric, b: Numeric) {
    let c = a.cmp(&b);
    let (m, n) = (a.into_int(), b.into_int());
    proof {
        use_type_invariant(&a); use_type_invariant(&b);
        order(a@, b@); order(b@, a@); lex_equal(a@, b@);
        reveal_with_fuel(lex, 4);
        assert(a@.drop_first().drop_first()[0] == a@[2] && b@.drop_first().drop_first()[0] == b@[2]);
    }
    assert(c is Less == (m < n) && c is Greater == (m > n) && c is Equal == (m == n));
}
// ---- Linked contracts ----
//@link msgparts.inc :: impl Numeric
from_bytes as_str
//@end
//@link compare.rs :: impl Numeric
eq_numeric = core::cmp::PartialEq::eq(self, other)
cmp_numeric = core::cmp::Ord::cmp(self, other)
hash_numeric = Hash::hash(self, state)
into_int
as_bytes
copied = *self
//@end
}
fn main() {}
