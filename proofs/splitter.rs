//@meta property C06 C07 C03 C11
//@meta assume a save guard's splitter is not replaced as a whole through the guard (*guard = other)
//@meta assume iterator stubs satisfy their stated contracts
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include utf8.inc
//@include splitspec.inc
pub fn unwrap_or_default<'a, U: Empty<'a>, E>(r: Result<U, E>) -> (u: U)
    ensures r matches Ok(x) ==> u == x, r is Err ==> u.v().len() == 0,
{ match r { Ok(x) => x, Err(_) => U::default() } }
/// slice::Iter::position
#[verifier::external_body]
pub fn position<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        r matches Some(k) ==> k < s@.len() && call_ensures(f, (&s@[k as int],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), false),
        r is None ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
{ s.iter().position(|x| f(x)) }
/// std::str::from_utf8, of which only success or failure is used.
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub fn from_utf8(s: &[u8]) -> (r: Result<(), Utf8Error>) ensures (r is Ok) == valid_utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn slice_range<'b>(s: &'b [u8], a: usize, b: usize) -> (r: &'b [u8])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body]
pub fn first_copied(s: &[u8]) -> (r: Option<u8>) ensures (r is Some) == (s@.len() > 0), r matches Some(b) ==> b == s@[0] { s.first().copied() }
#[verifier::external_body]
pub fn last_copied(s: &[u8]) -> (r: Option<u8>) ensures (r is Some) == (s@.len() > 0), r matches Some(b) ==> b == s@.last() { s.last().copied() }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

//@item src/string/splitter.rs :: enum Encoding
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub
//@end
//@item src/string/splitter.rs :: struct Range
//@attr
#[derive(Clone, Copy)] pub
//@end
/// The derived order of Encoding: Unknown < Utf8 < Ascii.
pub open spec fn rank(e: Encoding) -> int { match e { Encoding::Unknown => 0, Encoding::Utf8 => 1, Encoding::Ascii => 2 } }
pub fn enc_ge(a: Encoding, b: Encoding) -> (r: bool) ensures r == (rank(a) >= rank(b))
{ matches!((a, b), (_, Encoding::Unknown) | (Encoding::Utf8, Encoding::Utf8) | (Encoding::Ascii, Encoding::Utf8) | (Encoding::Ascii, Encoding::Ascii)) }
pub fn enc_min(a: Encoding, b: Encoding) -> (r: Encoding) ensures r == (if rank(a) <= rank(b) { a } else { b })
{ if enc_ge(b, a) { a } else { b } }

// ---- Specification ----
pub open spec fn part(full: Seq<u8>, r: Range) -> Seq<u8> { full.subrange(r.start as int, r.end as int) }
/// The bounds lie within the string, and what is claimed about the encoding holds for the remaining bytes.
pub open spec fn fits(full: Seq<u8>, r: Range) -> bool {
    r.start <= r.end <= full.len()
    && (rank(r.encoding) >= 1 ==> valid_utf8(part(full, r)))
    && (rank(r.encoding) >= 2 ==> all_ascii(part(full, r)))
}
/// A range reached from `saved` by splitter operations: within it, and cutting no character of it that it vouches for.
pub open spec fn within(full: Seq<u8>, saved: Range, r: Range) -> bool {
    saved.start <= r.start <= r.end <= saved.end
    && (rank(r.encoding) >= 1 && valid_utf8(part(full, saved)) ==>
        edge(part(full, saved), r.start - saved.start) && edge(part(full, saved), r.end - saved.start))
}
/// What an operation keeps for every guard around it.
pub open spec fn keeps(full: Seq<u8>, a: Range, b: Range) -> bool {
    forall|saved: Range| fits(full, saved) && #[trigger] within(full, saved, a) ==> within(full, saved, b)
}
/// Moving one end of a range past whole characters.
pub proof fn cut(full: Seq<u8>, a: Range, b: Range)
    requires fits(full, a), a.start <= b.start <= b.end <= a.end,
        rank(b.encoding) >= 1 ==> rank(a.encoding) >= rank(b.encoding) && edge(part(full, a), b.start - a.start) && edge(part(full, a), b.end - a.start),
    ensures fits(full, b), keeps(full, a, b),
{
    let p = part(full, a);
    if rank(b.encoding) >= 1 {
        cut_valid(p, b.start - a.start, b.end - a.start);
        assert(part(full, b) =~= p.subrange(b.start - a.start, b.end - a.start));
        assert forall|saved: Range| fits(full, saved) && within(full, saved, a) implies within(full, saved, b) by {
            let s = part(full, saved);
            if valid_utf8(s) {
                assert(p =~= s.subrange(a.start - saved.start, a.end - saved.start));
                if b.start > a.start && b.start < a.end { assert(p[b.start - a.start] == s[b.start - saved.start]); }
                if b.end > a.start && b.end < a.end { assert(p[b.end - a.start] == s[b.end - saved.start]); }
            }
        }
    }
}
/// Cutting behind or before an ASCII byte cuts no character.
pub proof fn ascii_edges(s: Seq<u8>, i: int)
    requires valid_utf8(s), 0 <= i < s.len(), s[i] < 128,
    ensures edge(s, i), edge(s, i + 1),
{
    let p = s.subrange(0, i + 1);
    let q = s.subrange(i, s.len() as int);
    edge_boundary(s, i);
    valid_utf8_split(s, i);
    let c = s.subrange(i, i + 1);
    assert(c =~= q.subrange(0, 1));
    ascii_valid(c);
    part_edges(s, i, i + 1);
}

/// What a guard gives back.
pub proof fn restored(full: Seq<u8>, r: Range, saved: Range, x: Range, start: bool, end: bool)
    requires fits(full, r), fits(full, saved), keeps(full, saved, r),
        x.start == (if start { saved.start } else { r.start }), x.end == (if end { saved.end } else { r.end }),
        start && end ==> x.encoding == saved.encoding,
        !start && !end ==> x.encoding == r.encoding,
        (start || end) ==> rank(x.encoding) <= rank(saved.encoding) && (!(start && end) ==> rank(x.encoding) <= rank(r.encoding)),
    ensures fits(full, x), keeps(full, saved, x),
{
    assert(within(full, saved, saved));
    assert(within(full, saved, r));
    if start && end { assert(x == saved); }
    else if !start && !end { assert(x == r); }
    else {
        let p = part(full, saved);
        cut(full, saved, x);
    }
}
/// The first byte that is (or is not) of a kind that holds either no byte or every byte outside ASCII is a place to cut.
pub proof fn kind_edge<'a, U: BytesNewtype<'a>>(s: Seq<u8>, k: int, bad: bool)
    requires valid_utf8(s), 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> U::bad(#[trigger] s[i]) != bad,
        k < s.len() ==> U::bad(s[k]) == bad,
    ensures edge(s, k),
{
    U::whole();
    if 0 < k && k < s.len() {
        assert(U::bad(s[k - 1]) != bad);
        if s[k] < 128 { ascii_edges(s, k); } else { assert(s[k - 1] < 128); ascii_edges(s, k - 1); }
    }
}
impl<T> Splitter<T> {
    pub open spec fn of<'a>(&self) -> Seq<u8> where T: BytesNewtype<'a> { self.string.v() }
    /// What is left to extract.
    pub open spec fn rem<'a>(&self) -> Seq<u8> where T: BytesNewtype<'a> { part(self.string.v(), self.range) }
    pub open spec fn inv<'a>(&self) -> bool where T: BytesNewtype<'a> { fits(self.string.v(), self.range) }
    pub open spec fn inside(&self) -> bool { self.range.start <= self.range.end }
}
/// Every operation leaves the string alone, keeps the invariant, and may run below any guard.
pub open spec fn step<'a, T: BytesNewtype<'a>>(a: Splitter<T>, b: Splitter<T>) -> bool {
    b.string == a.string && b.inv() && keeps(a.string.v(), a.range, b.range)
}

// ---- The code ----
//@item src/string/splitter.rs :: struct Splitter
//@attr
pub
//@sub /\bstring: T/ => pub string: T ## visibility
//@sub /\brange: Range/ => pub range: Range ## visibility
//@end
impl Range {
//@fn src/string/splitter.rs :: impl Range :: len
//@ret r
//@spec
        requires self.start <= self.end,
        ensures r == self.end - self.start,
//@end
//@fn src/string/splitter.rs :: impl Range :: consume
//@ret r
//@spec
        requires old(self).start <= old(self).end,
        ensures
            r == if count <= old(self).end - old(self).start { count as int } else { old(self).end - old(self).start },
            end ==> final(self).start == old(self).start && final(self).end == old(self).start + r,
            !end ==> final(self).end == old(self).end && final(self).start == old(self).start + r,
            forall|full: Seq<u8>| #[trigger] fits(full, *old(self)) ==> fits(full, *final(self)) && keeps(full, *old(self), *final(self)),
//@sub /mut count: usize/ => count: usize ## rebinding of the parameter
//@sub /(?<=\{)(\s*)count = std::cmp::min/ => \1let count = min ## rebinding of the parameter
//@post
        proof {
            let a = *old(self);
            let b = *self;
            assert forall|full: Seq<u8>| #[trigger] fits(full, a) implies fits(full, b) && keeps(full, a, b) by {
                let p = part(full, a);
                if rank(b.encoding) >= 1 {
                    edge_boundary(p, b.start - a.start);
                    edge_boundary(p, b.end - a.start);
                }
                cut(full, a, b);
            }
        }
//@end
//@fn src/string/splitter.rs :: impl Range :: restore
//@spec
        ensures
            final(self).start == if start { saved.start } else { old(self).start },
            final(self).end == if end { saved.end } else { old(self).end },
            forall|full: Seq<u8>| #[trigger] fits(full, *old(self)) && fits(full, saved) && keeps(full, saved, *old(self)) ==>
                fits(full, *final(self)) && keeps(full, saved, *final(self)),
//@sub /std::cmp::min\(/ => enc_min( ## derived order of Encoding
//@post
        proof {
            assert forall|full: Seq<u8>| #[trigger] fits(full, *old(self)) && fits(full, saved) && keeps(full, saved, *old(self)) implies
                fits(full, *self) && keeps(full, saved, *self) by { restored(full, *old(self), saved, *self, start, end); }
        }
//@end
//@fn src/string/splitter.rs :: impl Range :: constrain
//@ret r
//@spec
        requires self.start <= self.end <= slice@.len(),
        ensures r@ == part(slice@, *self),
//@sub /constrain<'a, T>/ => constrain<'a> ## only used with T = u8
//@sub /\[T\]/ => [u8] ## only used with T = u8
//@sub /&slice\[self\.start\.\.self\.end\]/ => slice_range(slice, self.start, self.end) ## range indexing
//@end
}
impl<T> Splitter<T> {
//@fn src/string/splitter.rs :: impl<T> Splitter<T> :: is_utf8_lazy
//@ret r
//@spec
        ensures r == (rank(self.range.encoding) >= 1),
//@sub /self\.range\.encoding >= Encoding::Utf8/ => enc_ge(self.range.encoding, Encoding::Utf8) ## derived order of Encoding
//@end
//@fn src/string/splitter.rs :: impl<T> Splitter<T> :: is_empty
//@ret r
//@spec
        requires self.inside(),
        ensures r == (self.range.start == self.range.end),
//@end
//@fn src/string/splitter.rs :: impl<T> Splitter<T> :: len
//@ret r
//@spec
        requires self.inside(),
        ensures r == self.range.end - self.range.start,
//@end
}
impl<'a, T: BytesNewtype<'a>> Splitter<T> {
/// AsRef<[u8]>
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> AsRef<[u8]> for Splitter<T> :: as_ref
//@ret r
//@spec
        ensures r@ == self.string.v(),
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: check_encoding_inner
//@ret r
//@spec
        requires old(self).inv(), rank(accept) >= 1,
        ensures
            step(*old(self), *final(self)),
            final(self).range.start == old(self).range.start, final(self).range.end == old(self).range.end,
            (r is Ok) == valid_utf8(old(self).rem()),
//@sub /std::str::Utf8Error/ => Utf8Error ## only success or failure is used
//@sub /std::str::from_utf8/ => from_utf8 ## only success or failure is used
//@sub /self\.range\.encoding < accept/ => !enc_ge(self.range.encoding, accept) ## derived order of Encoding
//@sub /slice\.iter\(\)\.position\(\|c\| !c\.is_ascii\(\)\)/ => position(slice, |c: &u8| -> (o: bool) ensures o == (*c >= 128) { !c.is_ascii() }) ## iterator; closure contract
//@sub /slice\.is_empty\(\)/ => (slice.len() == 0) ## slice::is_empty
//@sub /&slice\[idx\.\.\]/ => slice_range(slice, idx, slice.len()) ## range indexing
//@head
        let ghost rem = self.rem();
//@before /if slice\.is_empty/
                proof { if slice@.len() == 0 { assert(all_ascii(rem)); ascii_valid(rem); } }
//@before /std::str::from_utf8/
                proof {
                    let head = rem.subrange(0, idx as int);
                    assert(all_ascii(head));
                    ascii_valid(head);
                    assert(rem =~= head + slice@);
                    if valid_utf8(rem) { rest_valid(head, slice@); }
                    if valid_utf8(slice@) { valid_utf8_concat(head, slice@); }
                }
//@post
        proof {
            let full = self.string.v();
            let a = old(self).range;
            if self.range.encoding == Encoding::Ascii && a.encoding != Encoding::Ascii { assert(all_ascii(rem)); ascii_valid(rem); }
            assert forall|saved: Range| fits(full, saved) && #[trigger] within(full, saved, a) implies within(full, saved, self.range) by {
                let s = part(full, saved);
                if self.range.encoding != a.encoding && valid_utf8(s) {
                    assert(rem =~= s.subrange(a.start - saved.start, a.end - saved.start));
                    part_edges(s, a.start - saved.start, a.end - saved.start);
                }
            }
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: check_encoding
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)), final(self).rem() == old(self).rem(),
            (r is Ok) == valid_utf8(old(self).rem()),
//@sub /std::str::Utf8Error/ => Utf8Error ## only success or failure is used
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: as_slice
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self.rem(),
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: peek_byte
//@ret r
//@spec
        requires self.inv(),
        ensures (r is Some) == (self.rem().len() > 0), r matches Some(b) ==> b == self.rem()[0],
//@sub /self\.as_slice\(\)\.first\(\)\.copied\(\)/ => first_copied(self.as_slice()) ## slice::first
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: rpeek_byte
//@ret r
//@spec
        requires self.inv(),
        ensures (r is Some) == (self.rem().len() > 0), r matches Some(b) ==> b == self.rem().last(),
//@sub /self\.as_slice\(\)\.last\(\)\.copied\(\)/ => last_copied(self.as_slice()) ## slice::last
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: next_byte
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_next_byte(old(self).rem(), r, final(self).rem()),
//@post
        proof {
            let a = old(self).range;
            let p = old(self).rem();
            if p.len() > 0 {
                if rank(self.range.encoding) >= 1 { ascii_edges(p, 0); }
                assert(self.rem() =~= p.drop_first());
            }
            cut(self.string.v(), a, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: rnext_byte
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            r is None ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            r matches Some(b) ==> old(self).rem().len() > 0 && b == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(),
//@post
        proof {
            let a = old(self).range;
            let p = old(self).rem();
            if p.len() > 0 {
                if rank(self.range.encoding) >= 1 { ascii_edges(p, p.len() - 1); }
                assert(self.rem() =~= p.drop_last());
            }
            cut(self.string.v(), a, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Iterator for Splitter<T> :: next
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_next_byte(old(self).rem(), r, final(self).rem()),
//@sub /Self::Item/ => u8 ## type Item = u8
//@end
/// Removes exactly the longest run of leading bytes that U forbids.
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: consume_invalid
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)), final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            final(self).rem() == suf(old(self).rem(), skip::<U>(old(self).rem())),
//@sub /consume_invalid<'a, U: BytesNewtype<'a>>/ => consume_invalid<'b, U: BytesNewtype<'b>> ## lifetime name
//@sub /slice\.iter\(\)\.position\(\|c\| !U::is_invalid\(c\)\)/ => position(slice, |c: &u8| -> (o: bool) ensures o == !U::bad(*c) { !U::is_invalid(c) }) ## iterator; closure contract
//@post
        proof {
            let a = old(self).range;
            let p = old(self).rem();
            assert(self.rem() =~= p.subrange(self.range.start - a.start, p.len() as int));
            if self.rem().len() > 0 { assert(self.rem()[0] == p[self.range.start - a.start]); }
            skip_is::<U>(p, self.range.start - a.start);
            if rank(self.range.encoding) >= 1 { kind_edge::<U>(p, self.range.start - a.start, false); }
            cut(self.string.v(), a, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: consume_whitespace
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)), final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            final(self).rem() == suf(old(self).rem(), blanks(old(self).rem())),
//@sub /slice\.iter\(\)\.position\(\|c\| !c\.is_ascii_whitespace\(\)\)/ => position(slice, |c: &u8| -> (o: bool) ensures o == !ascii_ws(*c) { !c.is_ascii_whitespace() }) ## iterator; closure contract
//@post
        proof {
            let a = old(self).range;
            let p = old(self).rem();
            let k = self.range.start - a.start;
            assert(self.rem() =~= p.subrange(k, p.len() as int));
            if self.rem().len() > 0 { assert(self.rem()[0] == p[k]); }
            blanks_is(p, k);
            if rank(self.range.encoding) >= 1 && k > 0 { assert(ascii_ws(p[k - 1])); ascii_edges(p, k - 1); }
            cut(self.string.v(), a, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: until_byte
//@spec
        requires old(self).inv(), forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (&#[trigger] old(self).rem()[i],)),
        ensures
            step(*old(self), *final(self)), final(self).range.start == old(self).range.start,
            forall|i: int| 0 <= i < final(self).rem().len() ==> call_ensures(f, (&#[trigger] old(self).rem()[i],), false),
            final(self).range.end < old(self).range.end ==> call_ensures(f, (&old(self).rem()[final(self).rem().len() as int],), true),
//@sub /F: FnMut\(&u8\)/ => F: Fn(&u8) ## predicates without state
//@sub /-> &mut Self/ => ## returns its receiver
//@sub /\bself\s*\}\s*$/ => } ## returns its receiver
//@sub /self\.as_slice\(\)\.iter\(\)\.position\(f\)/ => position(self.as_slice(), f) ## iterator
//@post
        proof { cut(self.string.v(), old(self).range, old(self).range); }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: until_byte_eq
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)), final(self).range.start == old(self).range.start,
            final(self).rem() == pre(old(self).rem(), until(old(self).rem(), byte)),
//@sub /-> &mut Self/ => ## returns its receiver
//@sub /\bself\s*\}\s*$/ => } ## returns its receiver
//@sub /self\.as_slice\(\)\.iter\(\)\.position\(\|b\| \*b == byte\)/ => position(self.as_slice(), |b: &u8| -> (o: bool) ensures o == (*b == byte) { *b == byte }) ## iterator; closure contract
//@post
        proof {
            let a = old(self).range;
            let p = old(self).rem();
            let k = self.range.end - a.start;
            until_is(p, byte, k);
            assert(self.rem() =~= pre(p, k as nat));
            if rank(self.range.encoding) >= 1 && k < p.len() { ascii_edges(p, k); }
            cut(self.string.v(), a, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<T: AsRef<[u8]>> Splitter<T> :: until_count
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)), final(self).range.start == old(self).range.start,
            final(self).rem() == pre(old(self).rem(), if len <= old(self).rem().len() { len as nat } else { old(self).rem().len() }),
//@sub /-> &mut Self/ => ## returns its receiver
//@sub /\bself\s*\}\s*$/ => } ## returns its receiver
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: new
//@ret r
//@spec
        ensures r.inv(), r.string == string, r.rem() == string.v(),
//@head
        proof { string.valid(); }
//@post
        proof { assert(r.rem() =~= string.v()); }
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: is_secret
//@ret r
//@spec
        ensures r == self.string.sec(),
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: as_slice_unsafe
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self.rem(),
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: peek_rest
//@ret r
//@spec
        requires self.inv(),
        ensures
            r is Ok == U::lead(self.rem()),
            r matches Ok(u) ==> u.v() == self.rem() && (u.sec() == self.string.sec() || u.v().len() == 0),
            r matches Err(e) ==> !(e is Byte),
//@sub /U: BytesNewtype<'a> \+ From<T>/ => U: Wider<'a, T> ## From between string types
//@sub /\.using_value\(/ => .slice_bytes( ## using_value(..).into_bytes()
//@sub /self\.is_utf8_lazy\(\)\)\.into_bytes\(\)/ => self.is_utf8_lazy()) ## using_value(..).into_bytes()
//@head
        proof { U::wider(); self.string.valid(); }
//@before /Ok\(U::from_unchecked/
            proof {
                assert forall|i: int| 0 <= i < bytes@.len() implies !U::bad(#[trigger] bytes@[i]) by { assert(bytes@[i] == self.string.v()[self.range.start + i]); }
            }
//@end
/// The longest prefix of allowed bytes, if it is acceptable (and, on demand, everything).
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: peek_string
//@ret r
//@spec
        requires self.inv(),
        ensures
            r is Ok ==> does_string(self.rem(), require_rest, r, suf(self.rem(), span::<U>(self.rem())), self.string.sec()),
            r is Err ==> does_string(self.rem(), require_rest, r, self.rem(), self.string.sec()),
//@sub /slice\.iter\(\)\.position\(U::is_invalid\)/ => position(slice, |c: &u8| -> (o: bool) ensures o == U::bad(*c) { U::is_invalid(c) }) ## iterator; closure contract
//@sub /&slice\[\.\.idx\]/ => slice_range(slice, 0, idx) ## range indexing
//@sub /\.using_value\(/ => .slice_bytes( ## using_value(..).into_bytes()
//@sub /self\.is_utf8_lazy\(\)\)\.into_bytes\(\)/ => self.is_utf8_lazy()) ## using_value(..).into_bytes()
//@before /return Err\(InvalidString::Byte/
                    proof { span_is::<U>(self.rem(), idx as int); }
//@before /if let Some\(e\) = U::check_others/
            proof {
                span_is::<U>(self.rem(), slice@.len() as int);
                assert(slice@ =~= self.rem().subrange(0, slice@.len() as int));
                assert forall|i: int| 0 <= i < slice@.len() implies !U::bad(#[trigger] slice@[i]) by { assert(slice@[i] == self.rem()[i]); }
                if rank(self.range.encoding) >= 1 {
                    kind_edge::<U>(self.rem(), slice@.len() as int, true);
                    edge_boundary(self.rem(), 0);
                    cut_valid(self.rem(), 0, slice@.len() as int);
                }
            }
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: rest
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_rest(old(self).rem(), r, final(self).rem(), old(self).string.sec()), r is Err ==> *final(self) == *old(self),
//@sub /U: BytesNewtype<'a> \+ From<T>/ => U: Wider<'a, T> ## From between string types
//@before /self\.range\.start \+=/
        proof { cut(self.string.v(), self.range, Range { start: self.range.end, end: self.range.end, encoding: self.range.encoding }); }
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: rest_or_default
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_rest_or_default(old(self).rem(), r, final(self).rem(), old(self).string.sec()),
//@sub /U: BytesNewtype<'a> \+ From<T> \+ Default/ => U: Wider<'a, T> + Empty<'a> ## From between string types; Default
//@sub /self\.peek_rest::<U>\(\)\.unwrap_or_default\(\)/ => unwrap_or_default(self.peek_rest::<U>()) ## Result::unwrap_or_default
//@before /self\.range\.start \+=/
        proof {
            cut(self.string.v(), self.range, Range { start: self.range.end, end: self.range.end, encoding: self.range.encoding });
            cut(self.string.v(), self.range, self.range);
        }
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: string
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_string(old(self).rem(), require_rest, r, final(self).rem(), old(self).string.sec()), r is Err ==> *final(self) == *old(self),
//@before /self\.range\.start \+=/
        proof { span_of::<U>(self.rem()); taken::<T, U>(*self, next.v().len() as int); }
//@end
//@fn src/string/splitter.rs :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: string_or_default
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            step(*old(self), *final(self)),
            final(self).range.end == old(self).range.end, final(self).range.start >= old(self).range.start,
            does_string_or_default(old(self).rem(), require_rest, r, final(self).rem(), old(self).string.sec()),
//@sub /U: BytesNewtype<'a> \+ Default/ => U: Empty<'a> ## Default of a string type
//@sub /self\.peek_string::<U>\(require_rest\)\.unwrap_or_default\(\)/ => unwrap_or_default(self.peek_string::<U>(require_rest)) ## Result::unwrap_or_default
//@before /self\.range\.start \+=/
        proof {
            next.valid();
            cut(self.string.v(), self.range, self.range);
            span_of::<U>(self.rem());
            if found::<U>(self.rem(), require_rest) { taken::<T, U>(*self, next.v().len() as int); }
        }
//@end
}
pub proof fn taken<'a, 'b, T: BytesNewtype<'a>, U: BytesNewtype<'b>>(a: Splitter<T>, k: int)
    requires a.inv(), k == span::<U>(a.rem()),
    ensures
        a.range.start + k <= a.range.end,
        ({ let b = Splitter { string: a.string, range: Range { start: (a.range.start + k) as usize, end: a.range.end, encoding: a.range.encoding } };
           step(a, b) && b.rem() == suf(a.rem(), k as nat) }),
{
    let p = a.rem();
    span_of::<U>(p);
    let b = Splitter { string: a.string, range: Range { start: (a.range.start + k) as usize, end: a.range.end, encoding: a.range.encoding } };
    if rank(a.range.encoding) >= 1 { kind_edge::<U>(p, k, true); }
    cut(a.string.v(), a.range, b.range);
    assert(suf(p, k as nat) =~= b.rem());
}

// ---- Guards ----
/// A guard borrows the splitter; here its fields are those of SavedIndices, with the borrow explicit.
impl<'a, T: BytesNewtype<'a>> Splitter<T> {
    /// `save`'s guard remembers the range at that point and what to restore: the fields it is built with.
    pub open spec fn guarded(&self, saved: Range) -> bool { self.inv() && fits(self.string.v(), saved) && keeps(self.string.v(), saved, self.range) }
}
//@fn src/string/splitter.rs :: impl<T> Splitter<T> :: save
//@name guard_of
//@ret r
//@spec
    requires splitter.inv(),
    ensures r.0 == splitter.range, r.1 == (start, end), splitter.guarded(r.0),
//@sub /&mut self/ => splitter: &Splitter<T> ## the borrow is left out: the guard's two other fields are returned
//@sub /fn save\(/ => fn save<'a, T: BytesNewtype<'a>>( ## free function
//@sub /-> SavedIndices<'_, T>/ => -> (Range, (bool, bool)) ## the guard's other fields
//@sub /self\.range/ => splitter.range ## receiver
//@sub /SavedIndices \{ splitter: self, saved_range, preserve: (\(\w+, \w+\)) \}/ => (saved_range, \1) ## the guard's other fields
//@end
//@fn src/string/splitter.rs :: impl<'a, T> Drop for SavedIndices<'a, T> :: drop
//@name guard_drop
//@spec
    requires old(splitter).guarded(saved_range),
    ensures
        final(splitter).string == old(splitter).string, final(splitter).inv(),
        keeps(old(splitter).string.v(), saved_range, final(splitter).range),
        final(splitter).range.start == if preserve.0 { saved_range.start } else { old(splitter).range.start },
        final(splitter).range.end == if preserve.1 { saved_range.end } else { old(splitter).range.end },
//@sub /fn drop\(&mut self\)/ => fn drop<'a, T: BytesNewtype<'a>>(splitter: &mut Splitter<T>, saved_range: Range, preserve: (bool, bool)) ## the guard's fields
//@sub /self\.(preserve|saved_range|splitter)/ => \1 ## the guard's fields
//@end
/// What every operation under a guard keeps.
pub proof fn guarded_step<'a, T: BytesNewtype<'a>>(a: Splitter<T>, b: Splitter<T>, saved: Range)
    requires a.guarded(saved), step(a, b),
    ensures b.guarded(saved),
{ }
// The chains callers write with a guard, as the compiler expands them: the guard is dropped at the end of the statement.
pub proof fn rejoin<'a, T: BytesNewtype<'a>>(a: Splitter<T>, m: Splitter<T>, b: Splitter<T>, c: Splitter<T>)
    requires a.inv(), step(a, m), step(m, b), m.range.start == a.range.start, b.range.end == m.range.end, m.range.start <= b.range.start,
        c.string == a.string, c.range.start == b.range.start, c.range.end == a.range.end, m.range.end <= a.range.end,
    ensures
        b.rem() == suf(m.rem(), (b.range.start - a.range.start) as nat),
        c.rem() == suf(a.rem(), (b.range.start - a.range.start) as nat),
        m.rem() == pre(a.rem(), (m.range.end - a.range.start) as nat),
{
    assert(b.rem() =~= suf(m.rem(), (b.range.start - a.range.start) as nat));
    assert(c.rem() =~= suf(a.rem(), (b.range.start - a.range.start) as nat));
    assert(m.rem() =~= pre(a.rem(), (m.range.end - a.range.start) as nat));
}
impl<'a, T: BytesNewtype<'a>> Splitter<T> {
    /// `.save_end().until_byte_eq(..).string(..)`
    pub fn save_end_until_byte_eq_string<U: BytesNewtype<'a>>(&mut self, byte: u8, require_rest: bool) -> (r: Result<U, InvalidString>)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_string(old(self).rem(), until(old(self).rem(), byte), require_rest, r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_byte_eq(byte);
        let ghost mid = *self;
        let r = self.string::<U>(require_rest);
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), byte); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); 
            assert(suf(mid.rem(), 0) =~= mid.rem());
            assert(mid.rem().len() == mid.range.end - mid.range.start && aft.rem().len() == aft.range.end - aft.range.start);
            match &r {
                Ok(u) => { assert(u.v().len() == span::<U>(mid.rem())); assert(aft.range.start - mid.range.start == span::<U>(mid.rem())); },
                Err(_) => { assert(aft.rem() == mid.rem()); assert(aft.range.start == mid.range.start); },
            }
        }
        r
    }
    /// `.save_end().until_byte_eq(..).until_byte_eq(..).string(..)`
    pub fn save_end_until2_string<U: BytesNewtype<'a>>(&mut self, byte: u8, byte2: u8, require_rest: bool) -> (r: Result<U, InvalidString>)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_string(old(self).rem(), until2(old(self).rem(), byte, byte2), require_rest, r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_byte_eq(byte);
        proof { until_of(old(self).rem(), byte); until_of(self.rem(), byte2); }
        let ghost one = *self;
        self.until_byte_eq(byte2);
        let ghost mid = *self;
        proof { assert(mid.rem() =~= pre(old(self).rem(), until2(old(self).rem(), byte, byte2))); }
        let r = self.string::<U>(require_rest);
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self);
            assert(suf(mid.rem(), 0) =~= mid.rem());
            assert(mid.rem().len() == mid.range.end - mid.range.start && aft.rem().len() == aft.range.end - aft.range.start);
            match &r {
                Ok(u) => { assert(u.v().len() == span::<U>(mid.rem())); assert(aft.range.start - mid.range.start == span::<U>(mid.rem())); },
                Err(_) => { assert(aft.rem() == mid.rem()); assert(aft.range.start == mid.range.start); },
            }
        }
        r
    }
    /// `.save_end().until_byte_eq(..).rest(..)`
    pub fn save_end_until_byte_eq_rest<U: Wider<'a, T>>(&mut self, byte: u8) -> (r: Result<U, InvalidString>)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_rest(old(self).rem(), until(old(self).rem(), byte), r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_byte_eq(byte);
        let ghost mid = *self;
        let r = self.rest::<U>();
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), byte); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); assert(suf(mid.rem(), 0) =~= mid.rem()); }
        r
    }
    /// `.save_end().until_byte_eq(..).rest_or_default(..)`
    pub fn save_end_until_byte_eq_rest_or_default<U: Wider<'a, T> + Empty<'a>>(&mut self, byte: u8) -> (r: U)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_rest_or_default(old(self).rem(), until(old(self).rem(), byte), r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_byte_eq(byte);
        let ghost mid = *self;
        let r = self.rest_or_default::<U>();
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), byte); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); assert(suf(mid.rem(), 0) =~= mid.rem()); }
        r
    }
    /// `.save_end().until_count(..).string(..)`
    pub fn save_end_until_count_string<U: BytesNewtype<'a>>(&mut self, len: usize, require_rest: bool) -> (r: Result<U, InvalidString>)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_string(old(self).rem(), count(old(self).rem(), len), require_rest, r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_count(len);
        let ghost mid = *self;
        let r = self.string::<U>(require_rest);
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), 0); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); 
            assert(suf(mid.rem(), 0) =~= mid.rem());
            assert(mid.rem().len() == mid.range.end - mid.range.start && aft.rem().len() == aft.range.end - aft.range.start);
            match &r {
                Ok(u) => { assert(u.v().len() == span::<U>(mid.rem())); assert(aft.range.start - mid.range.start == span::<U>(mid.rem())); },
                Err(_) => { assert(aft.rem() == mid.rem()); assert(aft.range.start == mid.range.start); },
            }
        }
        r
    }
    /// `.save_end().until_count(..).rest(..)`
    pub fn save_end_until_count_rest<U: Wider<'a, T>>(&mut self, len: usize) -> (r: Result<U, InvalidString>)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_rest(old(self).rem(), count(old(self).rem(), len), r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_count(len);
        let ghost mid = *self;
        let r = self.rest::<U>();
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), 0); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); assert(suf(mid.rem(), 0) =~= mid.rem()); }
        r
    }
    /// `.save_end().until_count(..).rest_or_default(..)`
    pub fn save_end_until_count_rest_or_default<U: Wider<'a, T> + Empty<'a>>(&mut self, len: usize) -> (r: U)
        requires old(self).inv(),
        ensures step(*old(self), *final(self)), final(self).range.end == old(self).range.end, chain_rest_or_default(old(self).rem(), count(old(self).rem(), len), r, final(self).rem(), old(self).string.sec()),
    {
        let (saved, preserve) = guard_of(self, false, true);
        self.until_count(len);
        let ghost mid = *self;
        let r = self.rest_or_default::<U>();
        let ghost aft = *self;
        guard_drop(self, saved, preserve);
        proof { until_of(old(self).rem(), 0); span_of::<U>(mid.rem()); rejoin(*old(self), mid, aft, *self); assert(suf(mid.rem(), 0) =~= mid.rem()); }
        r
    }
    /// The bytes left are bytes of the string.
    pub proof fn chars(&self) requires self.inv() ensures forall|i: int| 0 <= i < self.rem().len() ==> !T::bad(#[trigger] self.rem()[i])
    { self.string.valid(); assert forall|i: int| 0 <= i < self.rem().len() implies !T::bad(#[trigger] self.rem()[i]) by { assert(self.rem()[i] == self.string.v()[self.range.start + i]); } }
}
// ---- Linked contracts ----
//@link types.inc :: impl<T> Splitter<T> :: inv Splitter :: as impl<'a, T: BytesNewtype<'a>> Splitter<T>
is_empty len
//@end
//@link types.inc :: impl<'a, T: BytesNewtype<'a>> Splitter<T> :: inv Splitter :: sub of()->string
new peek_byte next_byte consume_invalid consume_whitespace until_byte_eq until_count string string_or_default rest rest_or_default
save_end_until_byte_eq_string save_end_until2_string save_end_until_count_string save_end_until_byte_eq_rest
save_end_until_count_rest save_end_until_byte_eq_rest_or_default
//@end
}
fn main() {}
