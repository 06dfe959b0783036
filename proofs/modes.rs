//@meta property C15
//@meta assume the characters of a mode set's Display output are written by core::fmt
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@include std.inc
//@include common.inc
/// u64::{count_ones, ilog2 of a non-zero, trailing_zeros}
pub open spec fn bit(m: u64, i: u64) -> bool { m & (1u64 << i) != 0 }
pub open spec fn ones(m: u64, k: nat) -> nat decreases k { if k == 0 { 0 } else { ones(m, (k - 1) as nat) + if bit(m, (k - 1) as u64) { 1nat } else { 0 } } }
#[verifier::external_body]
pub const fn count_ones(m: u64) -> (r: u32) ensures r == ones(m, 64) { m.count_ones() }
#[derive(Clone, Copy)]
pub struct NonZeroU64 { v: u64 }
impl NonZeroU64 {
    pub closed spec fn val(&self) -> u64 { self.v }
    pub fn new(v: u64) -> (r: Option<NonZeroU64>) ensures (r is None) == (v == 0), r matches Some(n) ==> n.val() == v && v != 0 { if v == 0 { None } else { Some(NonZeroU64 { v }) } }
    #[verifier::external_body]
    pub fn ilog2(self) -> (r: u32) requires self.val() != 0 ensures r < 64, bit(self.val(), r as u64), forall|i: u64| r < i < 64 ==> !#[trigger] bit(self.val(), i) { self.v.ilog2() }
    #[verifier::external_body]
    pub fn trailing_zeros(self) -> (r: u32) requires self.val() != 0 ensures r < 64, bit(self.val(), r as u64), forall|i: u64| i < r ==> !#[trigger] bit(self.val(), i) { self.v.trailing_zeros() }
}
#[verifier::external_body]
pub unsafe fn from_u32_unchecked(x: u32) -> (r: char) requires x < 128 ensures r as u32 == x { unimplemented!() }
pub fn cmp_u8(a: u8, b: u8) -> (r: Ordering) ensures r == if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body]
pub fn split_first<'b>(s: &'b [u8]) -> (r: Option<(&'b u8, &'b [u8])>)
    ensures (r is None) == (s@.len() == 0), r matches Some((b, t)) ==> *b == s@[0] && t@ == s@.drop_first() { s.split_first() }

// ---- Specification: letters and bits ----
pub open spec fn is_letter(b: u8) -> bool { upper(b) || lower(b) }
/// Position in the alphabet, 1 to 26.
pub open spec fn place(b: u8) -> int { if lower(b) { b - 96 } else { b - 64 } }
pub open spec fn ix(b: u8) -> u64 { ((26 - place(b)) * 2 + if lower(b) { 1int } else { 0int }) as u64 }
pub open spec fn xi(i: int) -> u8 { (65 + (if i % 2 == 1 { 32int } else { 0int }) + 25 - i / 2) as u8 }
/// Alphabetically first, by case (lower first) second.
pub open spec fn before(a: u8, b: u8) -> bool { place(a) < place(b) || (place(a) == place(b) && lower(a) && upper(b)) }
pub proof fn ix_xi(b: u8) requires is_letter(b) ensures ix(b) < 52, xi(ix(b) as int) == b, ix(b) == (26 - place(b)) * 2 + (if lower(b) { 1int } else { 0int }) { }
pub proof fn xi_ix(i: int) requires 0 <= i < 52 ensures is_letter(xi(i)), ix(xi(i)) == i { }
pub proof fn order(a: u8, b: u8) requires is_letter(a), is_letter(b) ensures before(a, b) == (ix(a) > ix(b)), (a == b) == (ix(a) == ix(b)) { }
/// The letters whose bits, below k, are set.
pub open spec fn low(m: u64, k: nat) -> Set<u8> decreases k {
    if k == 0 { Set::<u8>::empty() } else if bit(m, (k - 1) as u64) { low(m, (k - 1) as nat).insert(xi(k - 1)) } else { low(m, (k - 1) as nat) }
}
pub open spec fn letters(m: u64) -> Set<u8> { low(m, 52) }
pub proof fn low_has(m: u64, k: nat, b: u8)
    requires k <= 52,
    ensures low(m, k).contains(b) == (is_letter(b) && ix(b) < k && bit(m, ix(b))),
    decreases k
{ if k > 0 { low_has(m, (k - 1) as nat, b); xi_ix(k - 1); if is_letter(b) { ix_xi(b); } } }
pub broadcast proof fn members(m: u64, b: u8)
    ensures #[trigger] letters(m).contains(b) == (is_letter(b) && bit(m, ix(b))),
{ low_has(m, 52, b); if is_letter(b) { ix_xi(b); } }
pub open spec fn small(m: u64) -> bool { m < 0x10_0000_0000_0000u64 }
pub proof fn bits(m: u64, n: u64, k: u64, j: u64)
    requires k < 64, j < 64,
    ensures
        bit(m | n, k) == (bit(m, k) || bit(n, k)),
        bit(m & n, k) == (bit(m, k) && bit(n, k)),
        bit(m & !n, k) == (bit(m, k) && !bit(n, k)),
        bit(1u64 << j, k) == (j == k),
        !bit(0, k),
        small(m) && small(n) ==> small(m | n),
        small(m) ==> small(m & n) && small(m & !n),
        j < 52 ==> small(1u64 << j),
        small(m) && k >= 52 ==> !bit(m, k),
{
    assert((m | n) & (1u64 << k) != 0 <==> (m & (1u64 << k) != 0) || (n & (1u64 << k) != 0)) by (bit_vector);
    assert((m & n) & (1u64 << k) != 0 <==> (m & (1u64 << k) != 0) && (n & (1u64 << k) != 0)) by (bit_vector);
    assert((m & !n) & (1u64 << k) != 0 <==> (m & (1u64 << k) != 0) && !(n & (1u64 << k) != 0)) by (bit_vector) requires k < 64;
    assert((1u64 << j) & (1u64 << k) != 0 <==> j == k) by (bit_vector) requires k < 64, j < 64;
    assert(0u64 & (1u64 << k) == 0) by (bit_vector);
    assert(m < 0x10_0000_0000_0000u64 && n < 0x10_0000_0000_0000u64 ==> (m | n) < 0x10_0000_0000_0000u64) by (bit_vector);
    assert(m < 0x10_0000_0000_0000u64 ==> (m & n) < 0x10_0000_0000_0000u64) by (bit_vector);
    assert(m < 0x10_0000_0000_0000u64 ==> (m & !n) < 0x10_0000_0000_0000u64) by (bit_vector);
    assert(j < 52 ==> (1u64 << j) < 0x10_0000_0000_0000u64) by (bit_vector);
    assert(m < 0x10_0000_0000_0000u64 && 52 <= k < 64 ==> m & (1u64 << k) == 0) by (bit_vector);
}
/// Bit operations are set operations.
pub proof fn sets(m: u64, n: u64)
    requires small(m), small(n),
    ensures
        letters(m | n) == letters(m).union(letters(n)), letters(m & n) == letters(m).intersect(letters(n)), letters(m & !n) == letters(m).difference(letters(n)),
        small(m | n), small(m & n), small(m & !n),
        letters(0) == Set::<u8>::empty(),
{
    broadcast use members;
    bits(m, n, 0, 0);
    assert forall|b: u8| is_letter(b) implies
        bit(m | n, #[trigger] ix(b)) == (bit(m, ix(b)) || bit(n, ix(b))) && bit(m & n, ix(b)) == (bit(m, ix(b)) && bit(n, ix(b)))
        && bit(m & !n, ix(b)) == (bit(m, ix(b)) && !bit(n, ix(b))) && !bit(0, ix(b)) by { ix_xi(b); bits(m, n, ix(b), 0); }
    assert(letters(m | n) =~= letters(m).union(letters(n)));
    assert(letters(m & n) =~= letters(m).intersect(letters(n)));
    assert(letters(m & !n) =~= letters(m).difference(letters(n)));
    assert(letters(0) =~= Set::<u8>::empty());
}
pub proof fn single(b: u8) requires is_letter(b) ensures letters(1u64 << ix(b)) == set![b], small(1u64 << ix(b)) {
    broadcast use members;
    ix_xi(b);
    bits(0, 0, 0, ix(b));
    assert forall|c: u8| is_letter(c) implies bit(1u64 << ix(b), #[trigger] ix(c)) == (b == c) by { ix_xi(c); bits(0, 0, ix(c), ix(b)); }
    assert(letters(1u64 << ix(b)) =~= set![b]);
}
/// Equal sets are equal words.
pub proof fn same(m: u64, n: u64)
    requires small(m), small(n),
    ensures (m == n) == (letters(m) == letters(n)), (m == 0) == (letters(m) == Set::<u8>::empty()),
{
    broadcast use members;
    if letters(m) == letters(n) {
        assert forall|i: u64| i < 52 implies #[trigger] bit(m, i) == bit(n, i) by { xi_ix(i as int); let b = xi(i as int); assert(letters(m).contains(b) == letters(n).contains(b)); }
        words(m, n);
    }
    sets(m, 0);
    if letters(m) == Set::<u8>::empty() {
        assert forall|i: u64| i < 52 implies #[trigger] bit(m, i) == bit(0, i) by { xi_ix(i as int); let b = xi(i as int); assert(!letters(m).contains(b)); bits(0, 0, i, 0); }
        words(m, 0);
    }
}
pub proof fn words(m: u64, n: u64)
    requires small(m), small(n), forall|i: u64| i < 52 ==> #[trigger] bit(m, i) == bit(n, i),
    ensures m == n,
{
    if m != n {
        let d = m ^ n;
        assert(m != n ==> m ^ n != 0) by (bit_vector);
        let k = top(d);
        assert(m < 0x10_0000_0000_0000u64 && n < 0x10_0000_0000_0000u64 && d == m ^ n && k < 64 && d & (1u64 << k) != 0 ==> k < 52 && (m & (1u64 << k) != 0) != (n & (1u64 << k) != 0)) by (bit_vector);
        assert(bit(m, k) == bit(n, k));
    }
}
pub proof fn top(d: u64) -> (k: u64)
    ensures d != 0 ==> k < 64 && d & (1u64 << k) != 0,
{ top_below(d, 64) }
pub proof fn top_below(d: u64, n: u64) -> (k: u64)
    requires n <= 64,
    ensures d != 0 && (n == 64 || d < (1u64 << n)) ==> k < n && d & (1u64 << k) != 0,
    decreases n
{
    if n == 0 { assert(d < (1u64 << 0u64) ==> d == 0) by (bit_vector); 0 } else {
        let j = (n - 1) as u64;
        if d & (1u64 << j) != 0 { j } else {
            assert(j < 64 && d & (1u64 << j) == 0 && (j == 63 || d < (1u64 << ((j + 1) as u64))) ==> d < (1u64 << j)) by (bit_vector);
            top_below(d, j)
        }
    }
}
/// The letters, counted.
pub proof fn count(m: u64, k: nat)
    requires k <= 52,
    ensures low(m, k).len() == ones(m, k),
    decreases k
{
    if k > 0 {
        let j = (k - 1) as nat;
        count(m, j);
        low_has(m, j, xi(j as int));
        xi_ix(j as int);
    }
}
pub proof fn counted(m: u64) requires small(m) ensures letters(m).len() == ones(m, 64) { count(m, 52); tail(m, 64); }
pub proof fn tail(m: u64, k: nat) requires small(m), 52 <= k <= 64 ensures ones(m, k) == ones(m, 52) decreases k {
    if k > 52 { tail(m, (k - 1) as nat); bits(m, 0, (k - 1) as u64, 0); }
}

// ---- The code: modes ----
//@item src/state/mode.rs :: pub struct Mode
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@sub /std::num::NonZeroU8/ => NonZeroU8 ## path
//@end
impl Mode {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { is_letter(self.0.val()) }
    pub closed spec fn view(&self) -> u8 { self.0.val() }
//@fn src/state/mode.rs :: impl Mode :: new
//@ret r
//@spec
        ensures (r is Some) == is_letter(letter), r matches Some(m) ==> m@ == letter,
//@end
//@fn src/state/mode.rs :: impl Mode :: new_unchecked
//@ret r
//@spec
        requires is_letter(letter),
        ensures r@ == letter,
//@end
//@fn src/state/mode.rs :: impl Mode :: into_nonzero_u8
//@ret r
//@spec
        ensures r.val() == self@, is_letter(self@),
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn src/state/mode.rs :: impl Mode :: into_char
//@ret r
//@spec
        ensures r as u32 == self@ as u32,
//@sub /char::from_u32_unchecked/ => from_u32_unchecked ## char::from_u32_unchecked
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn src/state/mode.rs :: impl Mode :: index
//@ret r
//@spec
        ensures r == ix(self@), is_letter(self@), r < 52,
//@sub /pub\(self\)/ => ## visibility
//@head
        proof { use_type_invariant(&self); ix_xi(self.0.val()); }
//@before /let letter_id/
        proof {
            assert(65 <= raw <= 90 ==> raw & 31 == raw - 64) by (bit_vector);
            assert(97 <= raw <= 122 ==> raw & 31 == raw - 96) by (bit_vector);
        }
//@before /\(letter_id << 1\)/
        proof { assert(letter_id <= 25 ==> letter_id << 1u8 == 2 * letter_id) by (bit_vector); }
//@end
//@fn src/state/mode.rs :: impl Mode :: new_from_index
//@ret r
//@spec
        requires index < 52,
        ensures r@ == xi(index as int), is_letter(r@), ix(r@) == index,
//@sub /pub\(self\)/ => ## visibility
//@head
        proof {
            assert((index & 1) << 5u32 == if index % 2 == 1 { 32u32 } else { 0u32 }) by (bit_vector);
            assert(index >> 1u32 == index / 2) by (bit_vector);
            xi_ix(index as int);
        }
//@end
//@fn src/state/mode.rs :: impl Mode :: mask
//@ret r
//@spec
        ensures r == 1u64 << ix(self@), is_letter(self@), small(r), letters(r) == set![self@],
//@sub /pub\(self\)/ => ## visibility
//@head
        proof { use_type_invariant(&self); single(self@); ix_xi(self@); }
//@end
//@fn src/state/mode.rs :: impl std::cmp::Ord for Mode :: cmp
//@ret r
//@spec
        ensures r is Less == before(self@, other@), r is Equal == (self@ == other@), r is Greater == before(other@, self@),
//@sub /std::cmp::Ordering/ => Ordering ## path
//@sub /other\.index\(\)\.cmp\(&self\.index\(\)\)/ => cmp_u8(other.index(), self.index()) ## u8::cmp
//@head
        proof { use_type_invariant(self); use_type_invariant(other); order(self@, other@); order(other@, self@); }
//@end
}
pub proof fn mode_eq(a: Mode, b: Mode) ensures (a == b) == (a@ == b@) { }

// ---- Mode sets ----
//@item src/state/mode.rs :: pub struct ModeSet
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
impl ModeSet {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { small(self.0) }
    pub closed spec fn view(&self) -> Set<u8> { letters(self.0) }
//@fn src/state/mode.rs :: impl ModeSet :: new
//@ret r
//@spec
        ensures r@ == Set::<u8>::empty(),
//@head
        proof { sets(0, 0); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: with
//@ret r
//@spec
        ensures r@ == self@.insert(mode@), is_letter(mode@),
//@head
        proof { use_type_invariant(&self); use_type_invariant(&mode); single(mode@); sets(self.0, 1u64 << ix(mode@)); assert(self@.union(set![mode@]) =~= self@.insert(mode@)); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: set
//@ret r
//@spec
        ensures final(self)@ == old(self)@.insert(mode@), r == !old(self)@.contains(mode@), is_letter(mode@),
//@head
        broadcast use members;
        proof {
            use_type_invariant(&*self); use_type_invariant(&mode); single(mode@); sets(self.0, 1u64 << ix(mode@));
            assert(self@.union(set![mode@]) =~= self@.insert(mode@));
            same(self.0, self.0 | (1u64 << ix(mode@)));
            if self@.contains(mode@) { assert(self@.insert(mode@) =~= self@); } else { assert(self@.insert(mode@).contains(mode@)); }
        }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: unset
//@ret r
//@spec
        ensures final(self)@ == old(self)@.remove(mode@), r == old(self)@.contains(mode@), is_letter(mode@),
//@head
        broadcast use members;
        proof {
            use_type_invariant(&*self); use_type_invariant(&mode); single(mode@); sets(self.0, 1u64 << ix(mode@));
            assert(self@.difference(set![mode@]) =~= self@.remove(mode@));
            same(self.0, self.0 & !(1u64 << ix(mode@)));
            if !self@.contains(mode@) { assert(self@.remove(mode@) =~= self@); } else { assert(!self@.remove(mode@).contains(mode@)); }
        }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: contains
//@ret r
//@spec
        ensures r == self@.contains(mode@),
//@head
        broadcast use members;
        proof { use_type_invariant(self); use_type_invariant(&mode); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: is_empty
//@ret r
//@spec
        ensures r == (self@ == Set::<u8>::empty()),
//@head
        proof { use_type_invariant(self); same(self.0, 0); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: len
//@ret r
//@spec
        ensures r == self@.len(),
//@sub /self\.0\.count_ones\(\)/ => count_ones(self.0) ## u64::count_ones
//@head
        proof { use_type_invariant(self); counted(self.0); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: union
//@ret r
//@spec
        ensures r@ == self@.union(b@),
//@head
        proof { use_type_invariant(&self); use_type_invariant(&b); sets(self.0, b.0); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: intersection
//@ret r
//@spec
        ensures r@ == self@.intersect(b@),
//@head
        proof { use_type_invariant(&self); use_type_invariant(&b); sets(self.0, b.0); }
//@end
//@fn src/state/mode.rs :: impl ModeSet :: difference
//@ret r
//@spec
        ensures r@ == self@.difference(b@),
//@head
        proof { use_type_invariant(&self); use_type_invariant(&b); sets(self.0, b.0); }
//@end
//@fn src/state/mode.rs :: impl PartialOrd for ModeSet :: partial_cmp
//@ret r
//@spec
        ensures
            r == Some(Ordering::Less) <==> self@.subset_of(b@) && self@ != b@,
            r == Some(Ordering::Greater) <==> b@.subset_of(self@) && self@ != b@,
            r == Some(Ordering::Equal) <==> self@ == b@,
            r is None <==> !self@.subset_of(b@) && !b@.subset_of(self@),
//@sub /std::cmp::Ordering/ => Ordering ## path
//@before /match \(intersect/
        proof {
            use_type_invariant(self); use_type_invariant(b); use_type_invariant(&intersect);
            same(intersect.0, self.0); same(intersect.0, b.0); same(self.0, b.0);
            assert(self@.subset_of(b@) <==> self@.intersect(b@) =~= self@);
            assert(b@.subset_of(self@) <==> self@.intersect(b@) =~= b@);
        }
//@end
//@fn src/state/mode.rs :: impl IntoIterator for ModeSet :: into_iter
//@ret r
//@spec
        ensures r@ == self@,
//@sub /Self::IntoIter/ => ModeSetIter ## type IntoIter
//@head
        proof { use_type_invariant(&self); }
//@end
//@fn src/state/mode.rs :: impl IntoIterator for &ModeSet :: into_iter
//@name iter_ref
//@ret r
//@spec
        ensures r@ == self@,
//@sub /into_iter\(self\)/ => into_iter(&self) ## receiver
//@sub /Self::IntoIter/ => ModeSetIter ## type IntoIter
//@head
        proof { use_type_invariant(self); }
//@end
//@fn src/state/mode.rs :: impl FromIterator<Mode> for ModeSet :: from_iter
//@ret r
//@spec
        ensures forall|b: u8| #[trigger] r@.contains(b) <==> exists|i: int| 0 <= i < iter@.len() && (#[trigger] iter@[i])@ == b,
//@sub /<T: IntoIterator<Item = Mode>>\(iter: T\)/ => (iter: &[Mode]) ## any iterator, as the sequence it yields
//@sub /for mode in iter(?= )/ => for mode in it: iter ## named for the invariant
//@sub /ms\.set\(mode\)/ => ms.set(*mode) ## any iterator, as the sequence it yields
//@loop 0
            invariant forall|b: u8| #[trigger] ms@.contains(b) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] iter@[i])@ == b,
//@before /ms\.set\(mode\)/
            let ghost was = ms@;
            let ghost k = it.index@;
            proof {
                assert(*mode == iter@[k]);
                assert forall|b: u8| #[trigger] was.insert(mode@).contains(b) <==> exists|i: int| 0 <= i < k + 1 && (#[trigger] iter@[i])@ == b by {
                    if b == mode@ { assert(iter@[k]@ == b); }
                    if was.insert(mode@).contains(b) && b != mode@ { assert(was.contains(b)); }
                    if exists|i: int| 0 <= i < k + 1 && (#[trigger] iter@[i])@ == b {
                        let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] iter@[i])@ == b;
                        if i < k { assert(was.contains(b)); }
                    }
                }
            }
//@end
}
//@item src/state/mode.rs :: pub struct ModeSetIter
//@end
impl ModeSetIter {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { small(self.0) }
    /// What is still to come.
    pub closed spec fn view(&self) -> Set<u8> { letters(self.0) }
//@fn src/state/mode.rs :: impl Iterator for ModeSetIter :: next
//@ret r
//@spec
        ensures
            (r is None) == (old(self)@ == Set::<u8>::empty()), r is None ==> final(self)@ == old(self)@,
            r matches Some(m) ==> old(self)@.contains(m@) && final(self)@ == old(self)@.remove(m@) && forall|b: u8| #[trigger] old(self)@.contains(b) && b != m@ ==> before(m@, b),
//@sub /Self::Item/ => Mode ## type Item
//@sub /NonZeroU64::new\(self\.0\)\.map\(\|value\| \{/ => match NonZeroU64::new(self.0) { None => None, Some(value) => Some({ ## Option::map unfolded
//@sub /mode\s*\}\)\s*\}\s*$/ => mode }) } } ## Option::map unfolded
//@head
        broadcast use members;
        proof {
            use_type_invariant(&*self); same(self.0, 0);
            assert forall|i: u64| 52 <= i < 64 implies !#[trigger] bit(self.0, i) by { bits(self.0, 0, i, 0); }
        }
//@before /self\.0 &=/
            proof {
                single(mode@); sets(self.0, 1u64 << ix(mode@));
                assert(self@.difference(set![mode@]) =~= self@.remove(mode@));
                assert forall|b: u8| #[trigger] self@.contains(b) && b != mode@ implies before(mode@, b) by { ix_xi(b); order(mode@, b); assert(bit(self.0, ix(b))); }
            }
//@end
//@fn src/state/mode.rs :: impl DoubleEndedIterator for ModeSetIter :: next_back
//@ret r
//@spec
        ensures
            (r is None) == (old(self)@ == Set::<u8>::empty()), r is None ==> final(self)@ == old(self)@,
            r matches Some(m) ==> old(self)@.contains(m@) && final(self)@ == old(self)@.remove(m@) && forall|b: u8| #[trigger] old(self)@.contains(b) && b != m@ ==> before(b, m@),
//@sub /Self::Item/ => Mode ## type Item
//@sub /NonZeroU64::new\(self\.0\)\.map\(\|value\| \{/ => match NonZeroU64::new(self.0) { None => None, Some(value) => Some({ ## Option::map unfolded
//@sub /mode\s*\}\)\s*\}\s*$/ => mode }) } } ## Option::map unfolded
//@head
        broadcast use members;
        proof {
            use_type_invariant(&*self); same(self.0, 0);
            assert forall|i: u64| 52 <= i < 64 implies !#[trigger] bit(self.0, i) by { bits(self.0, 0, i, 0); }
        }
//@before /self\.0 &=/
            proof {
                single(mode@); sets(self.0, 1u64 << ix(mode@));
                assert(self@.difference(set![mode@]) =~= self@.remove(mode@));
                assert forall|b: u8| #[trigger] self@.contains(b) && b != mode@ implies before(b, mode@) by { ix_xi(b); order(b, mode@); assert(bit(self.0, ix(b))); }
            }
//@end
//@fn src/state/mode.rs :: impl Iterator for ModeSetIter :: size_hint
//@ret r
//@spec
        ensures r.0 == self@.len(), r.1 == Some(r.0),
//@sub /self\.0\.count_ones\(\)/ => count_ones(self.0) ## u64::count_ones
//@head
        proof { use_type_invariant(self); counted(self.0); }
//@end
}

// ---- Mode types ----
//@item src/state/mode.rs :: pub enum ModeType
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@sub / = 0/ => ## discriminants in order from 0
//@end
pub open spec fn type_ix(t: ModeType) -> int {
    match t { ModeType::TypeA => 0, ModeType::TypeB => 1, ModeType::TypeC => 2, ModeType::TypeD => 3, ModeType::Status => 4 }
}
pub open spec fn ix_type(i: int) -> ModeType { if i == 0 { ModeType::TypeA } else if i == 1 { ModeType::TypeB } else if i == 2 { ModeType::TypeC } else if i == 3 { ModeType::TypeD } else { ModeType::Status } }
/// The cast of a variant to its discriminant, and back.
pub fn discriminant(t: ModeType) -> (r: u8) ensures r == type_ix(t)
{ match t { ModeType::TypeA => 0, ModeType::TypeB => 1, ModeType::TypeC => 2, ModeType::TypeD => 3, ModeType::Status => 4 } }
pub unsafe fn transmute(i: u8) -> (r: ModeType) requires i <= 4 ensures r == ix_type(i as int)
{ if i == 0 { ModeType::TypeA } else if i == 1 { ModeType::TypeB } else if i == 2 { ModeType::TypeC } else if i == 3 { ModeType::TypeD } else { ModeType::Status } }
impl ModeType {
//@fn src/state/mode.rs :: impl ModeType :: index
//@ret r
//@spec
        ensures r == type_ix(self),
//@sub /pub\(self\)/ => ## visibility
//@sub /\(self as u8\)/ => discriminant(self) ## enum cast
//@end
//@fn src/state/mode.rs :: impl ModeType :: is_listlike
//@ret r
//@spec
        ensures r == (self is TypeA || self is Status),
//@end
//@fn src/state/mode.rs :: impl ModeType :: needs_arg_to_set
//@ret r
//@spec
        ensures r == !(self is TypeD),
//@end
//@fn src/state/mode.rs :: impl ModeType :: needs_arg_to_unset
//@ret r
//@spec
        ensures r == !(self is TypeC || self is TypeD),
//@end
}
//@item src/state/mode.rs :: pub struct ModeTypes
//@sub /\[ModeSet; 4\]/ => pub [ModeSet; 4] ## visibility
//@end
/// Each mode has at most one type.
pub open spec fn disjoint(s: Seq<ModeSet>) -> bool {
    forall|b: u8, i: int, j: int| 0 <= i < j < s.len() ==> !(#[trigger] s[i]@.contains(b) && #[trigger] s[j]@.contains(b))
}
impl ModeTypes {
    pub open spec fn coherent(&self) -> bool { disjoint(self.0@) }
    /// The modes of a type (none of a table's modes is of type Status).
    pub open spec fn of(&self, t: ModeType) -> Set<u8> { if t is Status { Set::<u8>::empty() } else { self.0@[type_ix(t)]@ } }
//@fn src/state/mode.rs :: impl ModeTypes :: new
//@ret r
//@spec
        ensures r.coherent(), forall|t: ModeType| #[trigger] r.of(t) == Set::<u8>::empty(),
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: from_set
//@ret r
//@spec
        ensures r.coherent(), forall|t: ModeType| #[trigger] r.of(t) == if t == mode_type && !(t is Status) { set@ } else { Set::<u8>::empty() },
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: from_sets
//@ret r
//@spec
        ensures
            r.0.coherent(),
            forall|m: u8| #[trigger] r.1@.contains(m) <==> twice(a@, b@, c@, d@, m),
            r.0.of(ModeType::TypeA) == a@.difference(r.1@), r.0.of(ModeType::TypeB) == b@.difference(r.1@),
            r.0.of(ModeType::TypeC) == c@.difference(r.1@), r.0.of(ModeType::TypeD) == d@.difference(r.1@),
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: parse
//@ret r
//@spec
        ensures
            r.0.coherent(),
            r.2@ == rest_of(bytes@),
            forall|m: u8| #[trigger] r.1@.contains(m) <==> twice(field(bytes@, 0), field(bytes@, 1), field(bytes@, 2), field(bytes@, 3), m),
            forall|t: ModeType| !(t is Status) ==> #[trigger] r.0.of(t) == field(bytes@, type_ix(t)).difference(r.1@),
//@sub /fn parse\(mut bytes: &\[u8\]\)/ => fn parse<'x>(bytes: &'x [u8]) ## the parameter keeps its value for the contract
//@sub /ModeSet, &\[u8\]\)/ => ModeSet, &'x [u8]) ## lifetime
//@sub /let mut set_iter = sets\.iter_mut\(\);/ => let mut bytes_ = bytes; let mut at = 0usize; ## iter_mut, as an index
//@sub /let mut set = set_iter\.next\(\)\.unwrap\(\);/ => ## iter_mut, as an index
//@sub /bytes\.split_first\(\)/ => split_first(bytes_) ## slice method; renamed above
//@sub /bytes = rest;/ => bytes_ = rest; ## renamed above
//@sub /let Some\(next_set\) = set_iter\.next\(\) else \{\s*break;\s*\};\s*set = next_set;/ => if at + 1 >= sets.len() { break; } at += 1; ## iter_mut, as an index
//@sub /\bset\.set\(mode\)/ => sets[at].set(mode) ## iter_mut, as an index
//@sub /let \[a, b, c, d\] = sets;/ => let (a, b, c, d) = (sets[0], sets[1], sets[2], sets[3]); ## array pattern
//@sub /overlap, bytes\)/ => overlap, bytes_) ## renamed above
//@before /while let Some/
        let ghost mut pos = 0int;
        proof { assert forall|i: int| 0 <= i < 4 implies sets@[i]@ == #[trigger] field_upto(bytes@, 0, i) by { field_start(bytes@, i); } }
//@loop 0
            invariant_except_break
                bytes_@ == bytes@.subrange(pos, bytes@.len() as int), at == commas(bytes@, pos),
            invariant
                sets@.len() == 4, at < 4, 0 <= pos <= bytes@.len(),
                forall|i: int| 0 <= i < 4 ==> (#[trigger] sets@[i])@ == field_upto(bytes@, pos, i),
            ensures
                commas(bytes@, pos) < 4 && pos == bytes@.len() && bytes_@.len() == 0
                || pos > 0 && commas(bytes@, pos) == 4 && bytes@[pos - 1] == 44 && bytes_@ == bytes@.subrange(pos, bytes@.len() as int),
            decreases bytes_@.len(),
//@before /let byte = \*byte/
            proof {
                assert(byte == bytes@[pos]);
                assert forall|i: int| 0 <= i < 4 implies #[trigger] field_upto(bytes@, pos + 1, i) == if is_letter(bytes@[pos]) && commas(bytes@, pos) == i { field_upto(bytes@, pos, i).insert(bytes@[pos]) } else { field_upto(bytes@, pos, i) } by { field_grow(bytes@, pos, i); }
                assert(commas(bytes@, pos + 1) == commas(bytes@, pos) + if bytes@[pos] == 44 { 1int } else { 0int });
                pos = pos + 1;
            }
//@before /let \[a, b, c, d\]/
        proof {
            assert forall|i: int| 0 <= i < 4 implies #[trigger] field_upto(bytes@, pos, i) == field(bytes@, i) by { field_done(bytes@, pos, i); }
            rest_done(bytes@, pos);
            assert(bytes_@ =~= rest_of(bytes@));
        }
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: get
//@ret r
//@spec
        requires self.coherent(),
        ensures forall|t: ModeType| (r == Some(t)) == #[trigger] self.of(t).contains(mode@),
//@sub /for value in (\[[^\]]*\]) \{/ => let values = \1;\nlet ghost vs = values@;\nfor at in 0..values.len()\ninvariant self.coherent(), values@ == vs, forall|k: int| 0 <= k < vs.len() ==> #[trigger] vs[k] < 4, forall|k: int| 0 <= k < at ==> !self.0@[#[trigger] values@[k] as int]@.contains(mode@)\n{ let value = values[at]; ## array iteration, with its invariant
//@sub /std::mem::transmute::<u8, ModeType>/ => transmute ## transmute of a discriminant
//@before /return Some/
                proof { assert(self.0@[value as int]@.contains(mode@)); assert(values@[at as int] == value); assert forall|t: ModeType| (Some(ix_type(value as int)) == Some(t)) == #[trigger] self.of(t).contains(mode@) by { if !(t is Status) && type_ix(t) != value { assert(!self.0@[type_ix(t)]@.contains(mode@)); } } }
//@before /None\s*\}\s*$/
        proof {
            assert(values@[0] == 3 && values@[1] == 0 && values@[2] == 1 && values@[3] == 2);
            assert forall|t: ModeType| !#[trigger] self.of(t).contains(mode@) by { assert(!self.0@[values@[0] as int]@.contains(mode@)); assert(!self.0@[values@[1] as int]@.contains(mode@)); assert(!self.0@[values@[2] as int]@.contains(mode@)); assert(!self.0@[values@[3] as int]@.contains(mode@)); }
        }
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: insert
//@spec
        requires old(self).coherent(),
        ensures final(self).coherent(),
            forall|t: ModeType| #[trigger] final(self).of(t) == if t is Status { Set::<u8>::empty() } else if t == mode_type { old(self).of(t).insert(mode@) } else { old(self).of(t).remove(mode@) },
//@sub /for \(idx, set\) in self\.0\.iter_mut\(\)\.enumerate\(\) \{/ => for idx in 0..self.0.len()\ninvariant forall|k: int| idx <= k < 4 ==> (#[trigger] self.0@[k])@ == old(self).0@[k]@, forall|k: int| 0 <= k < idx ==> (#[trigger] self.0@[k])@ == if k == type_ix(mode_type) { old(self).0@[k]@.insert(mode@) } else { old(self).0@[k]@.remove(mode@) }\n{ let set = &mut self.0[idx]; ## iter_mut().enumerate(), with its invariant
//@post
        proof { assert forall|b: u8, i: int, j: int| 0 <= i < j < 4 implies !(#[trigger] self.0@[i]@.contains(b) && #[trigger] self.0@[j]@.contains(b)) by { assert(!(old(self).0@[i]@.contains(b) && old(self).0@[j]@.contains(b))); } }
//@end
//@fn src/state/mode.rs :: impl ModeTypes :: insert_set
//@spec
        requires old(self).coherent(),
        ensures final(self).coherent(),
            forall|t: ModeType| #[trigger] final(self).of(t) == if t is Status { Set::<u8>::empty() } else if t == mode_type { old(self).of(t).union(mode_set@) } else { old(self).of(t).difference(mode_set@) },
//@sub /for \(idx, set\) in self\.0\.iter_mut\(\)\.enumerate\(\) \{/ => for idx in 0..self.0.len()\ninvariant forall|k: int| idx <= k < 4 ==> (#[trigger] self.0@[k])@ == old(self).0@[k]@, forall|k: int| 0 <= k < idx ==> (#[trigger] self.0@[k])@ == if k == type_ix(mode_type) { old(self).0@[k]@.union(mode_set@) } else { old(self).0@[k]@.difference(mode_set@) }\n{ let set = &mut self.0[idx]; ## iter_mut().enumerate(), with its invariant
//@post
        proof { assert forall|b: u8, i: int, j: int| 0 <= i < j < 4 implies !(#[trigger] self.0@[i]@.contains(b) && #[trigger] self.0@[j]@.contains(b)) by { assert(!(old(self).0@[i]@.contains(b) && old(self).0@[j]@.contains(b))); } }
//@end
}
/// In at least two of the sets.
pub open spec fn twice(a: Set<u8>, b: Set<u8>, c: Set<u8>, d: Set<u8>, m: u8) -> bool {
    (a.contains(m) && b.contains(m)) || (a.contains(m) && c.contains(m)) || (a.contains(m) && d.contains(m))
    || (b.contains(m) && c.contains(m)) || (b.contains(m) && d.contains(m)) || (c.contains(m) && d.contains(m))
}
/// Commas among the first n bytes.
pub open spec fn commas(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { commas(s, n - 1) + if s[n - 1] == 44 { 1int } else { 0int } } }
/// The letters of the i-th comma-separated field, as far as it lies within the first n bytes.
pub open spec fn field_upto(s: Seq<u8>, n: int, i: int) -> Set<u8> decreases n {
    if n <= 0 { Set::<u8>::empty() } else if is_letter(s[n - 1]) && commas(s, n - 1) == i { field_upto(s, n - 1, i).insert(s[n - 1]) } else { field_upto(s, n - 1, i) }
}
pub open spec fn field(s: Seq<u8>, i: int) -> Set<u8> { field_upto(s, s.len() as int, i) }
/// What follows the fourth comma.
pub open spec fn rest_from(s: Seq<u8>, n: int) -> Seq<u8> decreases s.len() - n {
    if n >= s.len() { Seq::<u8>::empty() } else if s[n] == 44 && commas(s, n) == 3 { s.subrange(n + 1, s.len() as int) } else { rest_from(s, n + 1) }
}
pub open spec fn rest_of(s: Seq<u8>) -> Seq<u8> { rest_from(s, 0) }
pub proof fn field_start(s: Seq<u8>, i: int) ensures field_upto(s, 0, i) == Set::<u8>::empty() { }
pub proof fn field_grow(s: Seq<u8>, n: int, i: int)
    requires 0 <= n < s.len(),
    ensures field_upto(s, n + 1, i) == if is_letter(s[n]) && commas(s, n) == i { field_upto(s, n, i).insert(s[n]) } else { field_upto(s, n, i) } { }
pub proof fn more_commas(s: Seq<u8>, a: int, b: int) requires 0 <= a <= b ensures commas(s, a) <= commas(s, b) decreases b - a { if a < b { more_commas(s, a, b - 1); } }
pub proof fn field_done(s: Seq<u8>, n: int, i: int)
    requires 0 <= n <= s.len(), 0 <= i < 4, n == s.len() || commas(s, n) >= 4,
    ensures field_upto(s, n, i) == field(s, i),
{ field_rest(s, n, s.len() as int, i); }
pub proof fn field_rest(s: Seq<u8>, n: int, k: int, i: int)
    requires 0 <= n <= k <= s.len(), 0 <= i < 4, n == s.len() || commas(s, n) >= 4,
    ensures field_upto(s, k, i) == field_upto(s, n, i),
    decreases k - n
{ if n < k { field_rest(s, n, k - 1, i); more_commas(s, n, k - 1); } }
pub proof fn rest_done(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), (n == s.len() && commas(s, n) < 4) || (n > 0 && s[n - 1] == 44 && commas(s, n) == 4),
    ensures rest_of(s) == if commas(s, n) < 4 { Seq::<u8>::empty() } else { s.subrange(n, s.len() as int) },
{ rest_at(s, n, 0); }
pub proof fn rest_at(s: Seq<u8>, n: int, k: int)
    requires 0 <= k <= n <= s.len(), (n == s.len() && commas(s, n) < 4) || (k < n && s[n - 1] == 44 && commas(s, n) == 4),
    ensures rest_from(s, k) == if commas(s, n) < 4 { Seq::<u8>::empty() } else { s.subrange(n, s.len() as int) },
    decreases n - k
{
    if k < n {
        more_commas(s, k + 1, n);
        if s[k] == 44 && commas(s, k) == 3 { if k + 1 < n { more_commas(s, k + 1, n - 1); } }
        else if k + 1 == n && commas(s, n) == 4 { assert(commas(s, n - 1) == 3); }
        else { rest_at(s, n, k + 1); }
    }
}


// ---- Status modes ----
pub struct ParseError { x: u8 }
#[verifier::external_body]
pub fn parse_error() -> ParseError { unimplemented!() }
/// slice::splitn(2, |c| *c == byte): first the part before the first such byte, then what follows it.
#[verifier::external_body]
pub struct Splitn2<'a> { x: &'a [u8] }
impl<'a> Splitn2<'a> {
    pub uninterp spec fn to_come(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures (r is None) == (old(self).to_come().len() == 0),
            r matches Some(p) ==> p@ == old(self).to_come()[0] && final(self).to_come() == old(self).to_come().drop_first() { unimplemented!() }
}
pub open spec fn first_at(s: Seq<u8>, b: u8, n: int) -> int decreases s.len() - n { if n >= s.len() { s.len() as int } else if s[n] == b { n } else { first_at(s, b, n + 1) } }
#[verifier::external_body]
pub fn splitn2<'a>(s: &'a [u8], byte: u8) -> (r: Splitn2<'a>)
    ensures ({ let k = first_at(s@, byte, 0); r.to_come() == if k == s@.len() { seq![s@] } else { seq![s@.subrange(0, k), s@.subrange(k + 1, s@.len() as int)] } })
{ unimplemented!() }
/// slice::Iter<u8>, copied.
#[verifier::external_body]
pub struct Copied<'a> { x: &'a [u8] }
#[verifier::external_body]
pub fn copied<'a>(s: &'a [u8]) -> (r: Copied<'a>) ensures r.to_come() == s@ { unimplemented!() }
impl<'a> Copied<'a> {
    pub uninterp spec fn to_come(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures (r is None) == (old(self).to_come().len() == 0), r is None ==> final(self).to_come() == old(self).to_come(),
            r matches Some(p) ==> p == old(self).to_come()[0] && final(self).to_come() == old(self).to_come().drop_first() { unimplemented!() }
}
pub fn ascii(o: Option<u8>) -> (r: Option<u8>) ensures r == if o is Some && o->0 < 128 { o } else { None::<u8> }
{ match o { Some(b) if b < 128 => Some(b), _ => None } }
/// Whether a prefix is known for the i-th mode: one is there and it and those before are ASCII.
pub open spec fn known(prefixes: Seq<u8>, i: int) -> bool { i < prefixes.len() && forall|j: int| 0 <= j <= i ==> #[trigger] prefixes[j] < 128 }
pub open spec fn prefix_of(prefixes: Seq<u8>, i: int) -> u8 { if known(prefixes, i) { prefixes[i] } else { 0 } }
/// The pairs the first n mode characters stand for.
pub open spec fn pairs(modes: Seq<u8>, prefixes: Seq<u8>, n: int) -> Seq<(u8, u8)> decreases n {
    if n <= 0 { Seq::<(u8, u8)>::empty() } else if is_letter(modes[n - 1]) { pairs(modes, prefixes, n - 1).push((modes[n - 1], prefix_of(prefixes, n - 1))) } else { pairs(modes, prefixes, n - 1) }
}
pub open spec fn clash(x: (u8, u8), y: (u8, u8)) -> bool { x.0 == y.0 || (x.1 != 0 && x.1 == y.1) }
/// No mode and no prefix is repeated.
pub open spec fn distinct(p: Seq<(u8, u8)>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> !clash(#[trigger] p[i], #[trigger] p[j]) }
pub proof fn pairs_prefix(modes: Seq<u8>, prefixes: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b,
    ensures pairs(modes, prefixes, a).len() <= pairs(modes, prefixes, b).len(), forall|i: int| 0 <= i < pairs(modes, prefixes, a).len() ==> #[trigger] pairs(modes, prefixes, a)[i] == pairs(modes, prefixes, b)[i],
    decreases b - a
{ if a < b { pairs_prefix(modes, prefixes, a, b - 1); } }
pub open spec fn raw(m: Seq<(Mode, u8)>) -> Seq<(u8, u8)> { m.map_values(|p: (Mode, u8)| (p.0@, p.1)) }
/// The PREFIX value, taken apart: `(modes)prefixes`.
pub open spec fn well_formed(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 40 && first_at(s.drop_first(), 41, 0) < s.len() - 1 }
pub open spec fn modes_in(s: Seq<u8>) -> Seq<u8> { s.drop_first().subrange(0, first_at(s.drop_first(), 41, 0)) }
pub open spec fn prefixes_in(s: Seq<u8>) -> Seq<u8> { s.drop_first().subrange(first_at(s.drop_first(), 41, 0) + 1, s.len() - 1) }
pub open spec fn pairs_in(s: Seq<u8>) -> Seq<(u8, u8)> { pairs(modes_in(s), prefixes_in(s), modes_in(s).len() as int) }
pub proof fn first_at_bound(s: Seq<u8>, b: u8, n: int) requires 0 <= n <= s.len() ensures n <= first_at(s, b, n) <= s.len() decreases s.len() - n { if n < s.len() { first_at_bound(s, b, n + 1); } }
//@item src/state/mode.rs :: pub struct StatusModes
//@sub /\bmap: / => pub map:  ## visibility
//@end
#[verifier::external_body]
pub fn first_and_rest<'b>(s: &'b [u8]) -> (r: Option<(u8, &'b [u8])>)
    ensures (r is None) == (s@.len() == 0), r matches Some((b, t)) ==> b == s@[0] && t@ == s@.drop_first() { s.split_first().map(|(a, b)| (*a, b)) }
impl StatusModes {
    pub open spec fn view(&self) -> Seq<(u8, u8)> { raw(self.map@) }
//@fn src/state/mode.rs :: impl StatusModes :: new
//@ret r
//@spec
        ensures r@.len() == 0,
//@end
//@fn src/state/mode.rs :: impl StatusModes :: parse
//@ret r
//@spec
        ensures
            (r is Ok) == (well_formed(arg@) && distinct(pairs_in(arg@))),
            r matches Ok(m) ==> m@ == pairs_in(arg@),
//@sub /(?s)ParseError::InvalidField\(.*?\n\s*\)\)/ => parse_error()) ## the text of the error
//@sub /let Some\(\(b'\(', arg\)\) = arg\.split_first\(\)/ => let Some((b'(', arg_)) = first_and_rest(arg) ## slice method; the parameter keeps its name for the contract
//@sub /arg\.splitn\(2, \|c\| \*c == b'\)'\)/ => splitn2(arg_, b')') ## slice method
//@sub /(modes|prefixes)\.iter\(\)\.copied\(\)/ => copied(\1) ## copied slice iterator
//@sub /Vec::with_capacity\(modes\.len\(\)\)/ => Vec::<(Mode, u8)>::with_capacity(modes.len()) ## type of the elements
//@sub /prefix_iter\.next\(\)\.filter\(u8::is_ascii\)\.unwrap_or_else\(\|\| \{/ => match ascii(prefix_iter.next()) { Some(p) => p, None => { ## Option::filter, unwrap_or_else unfolded
//@sub /(skip_prefixes = true;\s*b'.0')\s*\}\)/ => \1 } } ## Option::unwrap_or_else unfolded
//@sub /for \(mode_b, prefix_b\) in map\.iter\(\)\.copied\(\) \{/ => for at in 0..map.len()\ninvariant now == (mode@, prefix), 0 < n <= modes@.len(), raw(map@) == pairs(modes@, prefixes@, n - 1), pairs(modes@, prefixes@, n) == raw(map@).push(now), modes@ == modes_in(arg@), prefixes@ == prefixes_in(arg@), forall|k: int| 0 <= k < at ==> !clash(#[trigger] raw(map@)[k], now)\n{ let (mode_b, prefix_b) = map[at]; proof { mode_eq(mode, mode_b); assert(raw(map@)[at as int] == (mode_b@, prefix_b)); pairs_prefix(modes@, prefixes@, n, modes@.len() as int); let all = pairs_in(arg@); let k = raw(map@).len() as int; assert(pairs(modes@, prefixes@, n)[at as int] == raw(map@)[at as int]); assert(pairs(modes@, prefixes@, n)[k] == now); assert(all[at as int] == raw(map@)[at as int] && all[k] == now); assert(clash(all[at as int], all[k]) ==> !distinct(all)); } ## copied iteration, with its invariant
//@before /let mut splitter/
        proof { first_at_bound(arg_@, 41, 0); assert(arg_@ =~= arg@.drop_first()); }
//@before /let mut map = /
        let ghost mut n = 0int;
        proof {
            assert(modes@ == modes_in(arg@));
            assert(prefixes@ =~= prefixes_in(arg@));
        }
//@loop 0
            invariant_except_break
                !skip_prefixes ==> n <= prefixes@.len() && prefix_iter.to_come() == prefixes@.subrange(n, prefixes@.len() as int) && forall|j: int| 0 <= j < n ==> #[trigger] prefixes@[j] < 128,
            invariant
                well_formed(arg@), modes@ == modes_in(arg@), prefixes@ == prefixes_in(arg@),
                0 <= n <= modes@.len(), mode_iter.to_come() == modes@.subrange(n, modes@.len() as int),
                skip_prefixes ==> forall|k: int| n <= k ==> !#[trigger] known(prefixes@, k),
                raw(map@) == pairs(modes@, prefixes@, n), distinct(raw(map@)),
            ensures n == modes@.len(),
            decreases modes@.len() - n,
//@before /let prefix = if/
            let ghost skipped = skip_prefixes;
            proof { if !skip_prefixes && n < prefixes@.len() { assert(prefix_iter.to_come()[0] == prefixes@[n]); } }
//@before /let Some\(mode\) = mode_iter\.next/
            proof {
                if skip_prefixes && !skipped { assert forall|k: int| n <= k implies !#[trigger] known(prefixes@, k) by { if n < prefixes@.len() { assert(prefixes@[n] >= 128); } } }
                assert(skipped ==> !known(prefixes@, n));
                assert(prefix == prefix_of(prefixes@, n));
                if !skip_prefixes { assert(prefix_iter.to_come() =~= prefixes@.subrange(n + 1, prefixes@.len() as int)); }
            }
//@before /let Some\(mode\) = Mode::new/
            let ghost ch = mode;
            proof {
                assert(mode == modes@[n]);
                assert(mode_iter.to_come() =~= modes@.subrange(n + 1, modes@.len() as int));
                n = n + 1;
            }
//@before /for \(mode_b/
            let ghost now = (mode@, prefix);
//@before /map\.push/
            let ghost was = map@;
            proof {
                assert forall|i: int, j: int| 0 <= i < j < raw(was).push(now).len() implies !clash(#[trigger] raw(was).push(now)[i], #[trigger] raw(was).push(now)[j]) by { assert(!clash(raw(was)[i], if j < raw(was).len() { raw(was)[j] } else { now })); }
                assert(raw(was.push((mode, prefix))) =~= raw(was).push(now));
            }
//@end
//@fn src/state/mode.rs :: impl StatusModes :: contains
//@ret r
//@spec
        ensures r == exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == mode@,
//@sub /self\.map\.iter\(\)\.any\(\|\(m, _\)\| \*m == mode\)/ => find_pair(&self.map, |p: &(Mode, u8)| -> (o: bool) ensures o == (p.0@ == mode@) { proof { mode_eq(p.0, mode); } p.0 == mode }).is_some() ## iterator; closure contract
//@post
        proof { assert(forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (self.map@[i].0@, self.map@[i].1)); assert(forall|i: int| 0 <= i < self.map@.len() ==> (#[trigger] self.map@[i]).0@ == self@[i].0); }
//@end
//@fn src/state/mode.rs :: impl StatusModes :: get_prefix
//@ret r
//@spec
        ensures
            r matches Some(p) ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == (mode@, p.val()),
            r is None && distinct(self@) ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).0 != mode@ || self@[i].1 == 0,
//@sub /self\.map\.iter\(\)\.find\(\|\(m, _\)\| \*m == mode\)\.and_then\(\|\(_, p\)\| NonZeroU8::new\(\*p\)\)/ => match find_pair(&self.map, |p: &(Mode, u8)| -> (o: bool) ensures o == (p.0@ == mode@) { proof { mode_eq(p.0, mode); } p.0 == mode }) { None => None, Some((_, p)) => NonZeroU8::new(p) } ## iterator; closure contract; Option::and_then unfolded
//@post
        proof {
            assert(forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (self.map@[i].0@, self.map@[i].1));
            assert(forall|i: int| 0 <= i < self.map@.len() ==> (#[trigger] self.map@[i]).0@ == self@[i].0);
            if r is None && distinct(self@) { assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).0 != mode@ || self@[i].1 == 0 by {
                assert forall|j: int| 0 <= j < self.map@.len() && (#[trigger] self.map@[j]).0@ == mode@ && self@[i].0 == mode@ implies i == j by { assert(self@[j].0 == mode@); assert(i < j ==> !clash(self@[i], self@[j])); assert(j < i ==> !clash(self@[j], self@[i])); }
            } }
        }
//@end
//@fn src/state/mode.rs :: impl StatusModes :: get_mode
//@ret r
//@spec
        ensures
            r matches Some(m) ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == (m@, prefix.val()),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).1 != prefix.val(),
//@sub /self\.map\.iter\(\)\.find\(\|\(_, p\)\| \*p == prefix\.get\(\)\)\.map\(\|pair\| pair\.0\)/ => match find_pair(&self.map, |p: &(Mode, u8)| -> (o: bool) ensures o == (p.1 == prefix.val()) { p.1 == prefix.get() }) { None => None, Some(pair) => Some(pair.0) } ## iterator; closure contract; Option::map unfolded
//@post
        proof { assert(forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (self.map@[i].0@, self.map@[i].1)); assert(forall|i: int| 0 <= i < self.map@.len() ==> (#[trigger] self.map@[i]).1 == self@[i].1); }
//@end
}
/// slice::Iter::{find, any}: the first pair the predicate accepts.
#[verifier::external_body]
pub fn find_pair<F: Fn(&(Mode, u8)) -> bool>(s: &Vec<(Mode, u8)>, f: F) -> (r: Option<(Mode, u8)>)
    requires forall|b: &(Mode, u8)| call_requires(f, (b,)),
    ensures
        r matches Some(x) ==> exists|k: int| 0 <= k < s@.len() && #[trigger] s@[k] == x && call_ensures(f, (&s@[k],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), false),
        r is None ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
{ s.iter().find(|x| f(x)).copied() }
}
fn main() {}
