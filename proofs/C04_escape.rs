//@meta property C04
//@meta assume Vec and iterator stubs satisfy their stated contracts
use vstd::prelude::*;
verus! {
//@include std.inc

// ---- Trusted contracts on dependencies ----
#[verifier::external_body]
pub struct Bytes<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct NoNul<'a> { _p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct Word<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Bytes<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn secret(&self) -> bool;
    #[verifier::external_body]
    pub fn from_secret(v: Vec<u8>) -> (r: Bytes<'a>) ensures r@ == v@, r.secret() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_plain(v: Vec<u8>) -> (r: Bytes<'a>) ensures r@ == v@, !r.secret() { unimplemented!() }
}
impl<'a> NoNul<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn secret(&self) -> bool;
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn as_bytes_unsafe(&self) -> (r: &'a [u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_secret(&self) -> (r: bool) ensures r == self.secret() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Bytes<'a>) ensures r@ == self@, r.secret() == self.secret() { unimplemented!() }
    /// The unchecked constructor: the bytes must be free of NUL.
    #[verifier::external_body]
    pub unsafe fn from_unchecked(b: Bytes<'a>) -> (r: NoNul<'a>)
        requires no_nul(b@),
        ensures r@ == b@, r.secret() == b.secret()
    { unimplemented!() }
}
impl<'a> Word<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn secret(&self) -> bool;
    /// The unchecked constructor: the bytes must make up a word.
    #[verifier::external_body]
    pub unsafe fn from_unchecked(b: Bytes<'a>) -> (r: Word<'a>)
        requires is_word(b@),
        ensures r@ == b@, r.secret() == b.secret()
    { unimplemented!() }
}
impl<'a> Word<'a> {
    #[verifier::external_body]
    pub fn into_nonul(self) -> (r: NoNul<'a>) ensures r@ == self@, r.secret() == self.secret() { unimplemented!() }
}
/// The type invariant of NoNul.
pub broadcast axiom fn nonul_inv<'a>(s: &NoNul<'a>) ensures no_nul(#[trigger] s@);
/// A slice and its bytes are at most isize::MAX long (Rust's allocation limit).
pub broadcast axiom fn nonul_len<'a>(s: &NoNul<'a>) ensures (#[trigger] s@).len() <= isize::MAX as nat;

#[verifier::external_body]
pub fn position<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
    ensures
        r matches Some(k) ==> k < s@.len() && call_ensures(f, (&s@[k as int],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&s@[i],), false),
        r is None ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), false),
{ s.iter().position(|x| f(x)) }
#[verifier::external_body]
pub fn count_matching<F: Fn(&&u8) -> bool>(s: &[u8], f: F) -> (r: usize)
    ensures r <= s@.len()
{ s.iter().filter(|x| f(x)).count() }
pub assume_specification<T> [Option::<T>::unwrap_unchecked] (o: Option<T>) -> (r: T)
    requires o is Some,
    ensures o == Some(r);
/// std's NonZeroU8.
#[derive(Copy, Clone)]
pub struct NonZeroU8 { v: u8 }
pub open spec fn nz(x: NonZeroU8) -> u8 { x.val() }
impl NonZeroU8 {
    pub closed spec fn val(&self) -> u8 { self.v }
    pub const unsafe fn new_unchecked(x: u8) -> (r: NonZeroU8)
        requires x != 0,
        ensures nz(r) == x
    { NonZeroU8 { v: x } }
    pub const fn get(self) -> (r: u8) ensures r == nz(self) { self.v }
}

//@include escspec.inc
// ---- The code ----
//@fn src/string/tf/escape.rs :: unescape_byte
//@ret r
//@spec
    ensures r == uncode(*byte), *byte != 0 ==> r != 0,
//@end

//@fn src/string/tf/escape.rs :: escape_byte
//@ret r
//@spec
    ensures r is Some == special(*byte), r matches Some(c) ==> nz(c) == code(*byte),
//@end

//@fn src/string/tf/escape.rs :: escape
//@ret r
//@spec
    ensures r@ == esc(tag_value@), r.secret() == tag_value.secret(),
//@sub /impl Into<NoNul<'a>>/ => NoNul<'a> ## the conversion at the call is the caller's
//@sub /let tag_value = tag_value\.into\(\);/ => ## identity conversion
//@sub /tag_value\.iter\(\)\.position\(\|c\| ([^;{}]*?)\) else/ => position(tag_value.bytes(), |c: &u8| -> (y: bool) ensures y == special(*c) { \1 }) else ## contract on the closure
//@sub /rest\.iter\(\)\.filter\(\|c\| ([^;{}]*?)\)\.count\(\)/ => count_matching(rest, |c: &&u8| { \1 }) ## count of a filter
//@sub /new_bytes\.into\(\)/ => Bytes::from_plain(new_bytes) ## From<Vec<u8>>
//@head
    broadcast use nonul_inv, nonul_len;
    proof { esc_word(tag_value@); }
//@before /return unsafe/
    proof { esc_plain(tag_value@); }
//@before /let mut new_bytes = Vec/
    proof { assert(tag_value@.subrange(0, first_idx as int) =~= no_escape@); }
//@before /\(new_bytes, rest\)\s*\}/
    proof {
        let pre = tag_value@.subrange(0, first_idx as int);
        let s1 = tag_value@.subrange(0, first_idx as int + 1);
        esc_plain(pre);
        assert(s1.drop_last() =~= pre);
        assert(new_bytes@ =~= esc(s1));
        assert(rest@ =~= tag_value@.subrange(first_idx as int + 1, tag_value@.len() as int));
    }
//@loop 0
        invariant
            rest@ == tag_value@.subrange(first_idx as int + 1, tag_value@.len() as int),
            first_idx < tag_value@.len(),
            new_bytes@ == esc(tag_value@.subrange(0, first_idx as int + 1 + it.index@)),
//@sub /for byte in rest/ => for byte in it: rest ## names the loop's ghost iterator
//@before /if let Some\(esc\)/
        proof {
            let k = first_idx as int + 1 + it.index@;
            assert(tag_value@.subrange(0, k + 1).drop_last() =~= tag_value@.subrange(0, k));
        }
//@before /let escaped/
    proof { assert(tag_value@.subrange(0, tag_value@.len() as int) =~= tag_value@); }
//@end

//@fn src/string/tf/escape.rs :: unescape
//@ret r
//@spec
    ensures r@ == unesc(tag_value@).0, r.secret() == tag_value.secret(),
//@sub /impl Into<NoNul<'a>>/ => NoNul<'a> ## the conversion at the call is the caller's
//@sub /let tag_value = tag_value\.into\(\);/ => ## identity conversion
//@sub /tag_value\.iter\(\)\.position\(\|c\| ([^;{}]*?)\) else/ => position(tag_value.bytes(), |c: &u8| -> (y: bool) ensures y == (*c == 92) { \1 }) else ## contract on the closure
//@sub /new_bytes\.into\(\)/ => Bytes::from_plain(new_bytes) ## From<Vec<u8>>
//@head
    broadcast use nonul_inv, nonul_len;
    proof { unesc_no_nul(tag_value@); }
//@before /return tag_value/
    proof { unesc_plain(tag_value@); }
//@before /\(new_bytes, rest\)\s*\}/
    proof {
        let pre = tag_value@.subrange(0, first_idx as int);
        let s1 = tag_value@.subrange(0, first_idx as int + 1);
        unesc_plain(pre);
        assert(s1.drop_last() =~= pre);
        assert(new_bytes@ =~= pre);
        assert(rest@ =~= tag_value@.subrange(first_idx as int + 1, tag_value@.len() as int));
    }
//@loop 0
        invariant
            rest@ == tag_value@.subrange(first_idx as int + 1, tag_value@.len() as int),
            first_idx < tag_value@.len(),
            unesc(tag_value@.subrange(0, first_idx as int + 1 + it.index@)) == (new_bytes@, esc),
//@sub /for byte in rest/ => for byte in it: rest ## names the loop's ghost iterator
//@before /if esc \{/
        proof {
            let k = first_idx as int + 1 + it.index@;
            assert(tag_value@.subrange(0, k + 1).drop_last() =~= tag_value@.subrange(0, k));
        }
//@before /let unescaped/
    proof { assert(tag_value@.subrange(0, tag_value@.len() as int) =~= tag_value@); }
//@end

/// The property, over the contracts of the code alone.
fn property<'a>(v: NoNul<'a>) {
    let ghost orig = v@;
    let w = escape(v);
    proof { broadcast use nonul_inv; esc_word(orig); round_trip(orig); }
    assert(is_word(w@));
    assert(forall|i: int| 0 <= i < w@.len() ==> w@[i] != 59) by { esc_no_semi(orig); }
    let back = unescape(w.into_nonul());
    assert(back@ == orig);
}
// ---- Linked contracts ----
//@link tags.rs :: - :: sub is_sec->secret
escape = escape(v)
unescape = unescape(v)
//@end
}
fn main() {}
