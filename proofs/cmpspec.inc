// ---- Order and hashing ----
use core::cmp::Ordering;
/// Lexicographic order of bytes.
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
pub proof fn lex_equal(a: Seq<u8>, b: Seq<u8>)
    ensures (lex(a, b) == Ordering::Equal) == (a == b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lex_equal(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); } }
            assert(a =~= b);
        }
    } else { assert((a == b) == (a =~= b)); }
}
/// Ord of byte slices in the standard library.
pub axiom fn slice_order()
    ensures
        <[u8] as OrdSpec>::obeys_cmp_spec(), forall|a: &[u8], b: &[u8]| #[trigger] <[u8] as OrdSpec>::cmp_spec(a, b) == lex(a@, b@),
        <[u8] as PartialOrdSpec<[u8]>>::obeys_partial_cmp_spec(), forall|a: &[u8], b: &[u8]| #[trigger] <[u8] as PartialOrdSpec<[u8]>>::partial_cmp_spec(a, b) == Some(lex(a@, b@));
/// Equality of sequences is element by element.
pub proof fn seq_eq() ensures forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] a.len() == #[trigger] b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) ==> a == b
{ assert forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] a.len() == #[trigger] b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) implies a == b by { assert(a =~= b); } }
/// A hasher records what it is fed.
pub trait Hasher { spec fn fed(&self) -> Seq<Seq<u8>>; }
pub trait Hash: core::cmp::PartialEq {
    /// What hashing feeds to a hasher.
    spec fn hashed(&self) -> Seq<Seq<u8>>;
    fn hash<H: Hasher>(&self, h: &mut H) ensures final(h).fed() == old(h).fed() + self.hashed();
    /// Equal values hash equally.
    proof fn agree(&self, o: &Self) requires self.eq_spec(o) ensures self.hashed() == o.hashed();
}
/// Hash of byte slices in the standard library.
impl Hash for [u8] {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { seq_eq(); }
}
//@for T in u8 u16 u32 u64 usize isize bool
impl Hash for {T} {
    uninterp spec fn hashed(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
    proof fn agree(&self, o: &Self) { }
}
//@endfor
/// Every one of these feeds something.
pub broadcast axiom fn fed_u8(x: u8) ensures (#[trigger] x.hashed()).len() > 0;
pub broadcast axiom fn fed_usize(x: usize) ensures (#[trigger] x.hashed()).len() > 0;
pub broadcast axiom fn fed_bool(x: bool) ensures (#[trigger] x.hashed()).len() > 0;
