//@meta property C16 C03 C07
//@meta assume iterator and Vec stubs satisfy their stated contracts
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include utf8.inc
/// Cow<[u8]>
pub enum Cow<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> Cow<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ } }
}
//@item src/string.rs :: pub struct Transformation
//@sub /Cow<'a, \[u8\]>/ => Cow<'a> ## only used with [u8]
//@end
/// What a transform owes: the transformed bytes are its image and its word on UTF-8 is true.
pub open spec fn delivers<T: Transform>(tf: T, s: Seq<u8>, t: Transformation<'_, T::Value>) -> bool {
    t.transformed@ == tf.image(s) && honest(t.utf8, s, t.transformed@)
}
#[verifier::external_body]
pub fn slice_range<'b>(s: &'b [u8], a: usize, b: usize) -> (r: &'b [u8])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body]
pub fn split_last<'b>(s: &'b [u8]) -> (r: Option<(&'b u8, &'b [u8])>)
    ensures (r is None) == (s@.len() == 0), r matches Some((b, t)) ==> *b == s@.last() && t@ == s@.drop_last() { s.split_last() }
#[verifier::external_body]
pub fn split_first<'b>(s: &'b [u8]) -> (r: Option<(&'b u8, &'b [u8])>)
    ensures (r is None) == (s@.len() == 0), r matches Some((b, t)) ==> *b == s@[0] && t@ == s@.drop_first() { s.split_first() }

// ---- Specification ----
pub open spec fn map_seq(s: Seq<u8>, g: spec_fn(u8) -> u8) -> Seq<u8> { Seq::new(s.len(), |i: int| g(s[i])) }
/// A byte map that moves ASCII within ASCII and nothing else.
pub open spec fn ascii_only_map(g: spec_fn(u8) -> u8) -> bool { forall|b: u8| (b < 128 ==> #[trigger] g(b) < 128) && (b >= 128 ==> g(b) == b) }
/// Such a map neither makes nor breaks UTF-8.
pub proof fn map_utf8(s: Seq<u8>, g: spec_fn(u8) -> u8)
    requires ascii_only_map(g),
    ensures valid_utf8(map_seq(s, g)) == valid_utf8(s),
    decreases s.len()
{
    let t = map_seq(s, g);
    reveal_with_fuel(valid_utf8, 2);
    if s.len() > 0 {
        utf8_byte_ranges_bitwise(s[0]);
        utf8_byte_ranges_bitwise(t[0]);
        if s[0] < 128 {
            assert(pop_first_scalar(s) =~= s.subrange(1, s.len() as int));
            assert(pop_first_scalar(t) =~= map_seq(pop_first_scalar(s), g));
            map_utf8(pop_first_scalar(s), g);
        } else {
            assert(t[0] == s[0]);
            assert(valid_first_scalar(t) == valid_first_scalar(s)) by {
                if s.len() > 1 { utf8_byte_ranges_bitwise(s[1]); utf8_byte_ranges_bitwise(t[1]); }
                if s.len() > 2 { utf8_byte_ranges_bitwise(s[2]); utf8_byte_ranges_bitwise(t[2]); }
                if s.len() > 3 { utf8_byte_ranges_bitwise(s[3]); utf8_byte_ranges_bitwise(t[3]); }
            }
            if valid_first_scalar(s) {
                let n = length_of_first_scalar(s);
                assert(length_of_first_scalar(t) == n);
                assert(pop_first_scalar(t) =~= map_seq(pop_first_scalar(s), g));
                map_utf8(pop_first_scalar(s), g);
            }
        }
    }
}
/// The casemappings, as published: ASCII letters; plus `[\]` to `{|}`; plus `~` to `^`.
pub open spec fn lower_strict(b: u8) -> u8 { if b == 91 { 123 } else if b == 92 { 124 } else if b == 93 { 125 } else { to_lower(b) } }
pub open spec fn lower_1459(b: u8) -> u8 { if b == 126 { 94 } else { lower_strict(b) } }
pub open spec fn irc_map(c: IrcCasemap) -> spec_fn(u8) -> u8 {
    match c {
        IrcCasemap::Ascii => |b: u8| to_lower(b),
        IrcCasemap::Rfc1459Strict => |b: u8| lower_strict(b),
        IrcCasemap::Rfc1459 => |b: u8| lower_1459(b),
    }
}
pub open spec fn ascii_map(up: bool) -> spec_fn(u8) -> u8 { if up { |b: u8| to_upper(b) } else { |b: u8| to_lower(b) } }
/// Trimming, one byte at a time.
pub open spec fn trim_start(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && ascii_ws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && ascii_ws(s.last()) { trim_end(s.drop_last()) } else { s } }
/// What is left is a part of the string; nothing but whitespace was cut.
pub proof fn trim_start_part(s: Seq<u8>) -> (k: int)
    ensures 0 <= k <= s.len(), trim_start(s) == s.subrange(k, s.len() as int), forall|i: int| 0 <= i < k ==> ascii_ws(#[trigger] s[i]),
        valid_utf8(trim_start(s)) == valid_utf8(s), trim_start(s).len() > 0 ==> !ascii_ws(trim_start(s)[0]),
    decreases s.len()
{
    if s.len() > 0 && ascii_ws(s[0]) {
        let t = s.drop_first();
        let k = trim_start_part(t);
        assert(trim_start(s) =~= s.subrange(k + 1, s.len() as int));
        assert forall|i: int| 0 <= i < k + 1 implies ascii_ws(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        reveal_with_fuel(valid_utf8, 2);
        utf8_byte_ranges_bitwise(s[0]);
        assert(pop_first_scalar(s) =~= t);
        k + 1
    } else { assert(s =~= s.subrange(0, s.len() as int)); 0 }
}
pub proof fn trim_end_part(s: Seq<u8>) -> (k: int)
    ensures 0 <= k <= s.len(), trim_end(s) == s.subrange(0, k), forall|i: int| k <= i < s.len() ==> ascii_ws(#[trigger] s[i]),
        valid_utf8(trim_end(s)) == valid_utf8(s), trim_end(s).len() > 0 ==> !ascii_ws(trim_end(s).last()),
    decreases s.len()
{
    if s.len() > 0 && ascii_ws(s.last()) {
        let t = s.drop_last();
        let k = trim_end_part(t);
        assert(trim_end(s) =~= s.subrange(0, k));
        assert forall|i: int| k <= i < s.len() implies ascii_ws(#[trigger] s[i]) by { if i < t.len() { assert(s[i] == t[i]); } }
        let w = seq![s.last()];
        ascii_valid(w);
        assert(s =~= t + w);
        if valid_utf8(t) { valid_utf8_concat(t, w); }
        if valid_utf8(s) {
            is_char_boundary_iff_not_is_continuation_byte(s, t.len() as int);
            utf8_byte_ranges_bitwise(s.last());
            valid_utf8_split(s, t.len() as int);
            assert(t =~= s.subrange(0, t.len() as int));
        }
        k
    } else { assert(s =~= s.subrange(0, s.len() as int)); s.len() as int }
}

// ---- The code ----
/// The mapped bytes, in order.
//@fn src/string/tf.rs :: map_bytes
//@ret r
//@spec
    requires
        forall|b: &u8| call_requires(f, (b,)),
        forall|b: &u8, y: u8| call_ensures(f, (b,), y) ==> y == g(*b),
        honest(utf8, bytes@, map_seq(bytes@, g)),
    ensures
        r.transformed@ == map_seq(bytes@, g),
        honest(r.utf8, bytes@, map_seq(bytes@, g)),
//@sub /pub\(super\) unsafe fn map_bytes\(/ => pub unsafe fn map_bytes<'x, F: Fn(&u8) -> u8>( ## type parameter for the closure
//@sub /bytes: &\[u8\]/ => bytes: &'x [u8] ## lifetime
//@sub /mut f: impl FnMut\(&u8\) -> u8,/ => f: F, Ghost(g): Ghost<spec_fn(u8) -> u8> ## the mapping as a ghost function
//@sub /Transformation<'_, \(\)>/ => Transformation<'x, ()> ## lifetime
//@sub /for byte in bytes(?= )/ => for byte in it: bytes ## named for the invariant
//@sub /ascii_only &= mapped < 128;/ => ascii_only = ascii_only && mapped < 128; ## compound assignment on bool
//@sub /&bytes\[\.\.idx\]/ => slice_range(bytes, 0, idx) ## range indexing
//@sub /for byte in &bytes\[idx\.\.\]/ => for byte in it: slice_range(bytes, idx, bytes.len()) ## range indexing
//@sub /new_bytes\.into\(\)/ => Cow::Owned(new_bytes) ## Cow
//@sub /bytes\.into\(\)/ => Cow::Borrowed(bytes) ## Cow
//@head
    proof { assert(vstd::slice::spec_slice_len(bytes) == bytes@.len()); }
//@loop 0
        invariant_except_break
            idx == it.index@,
        invariant
            idx <= bytes@.len() <= usize::MAX,
            forall|b: &u8| call_requires(f, (b,)),
            forall|b: &u8, y: u8| call_ensures(f, (b,), y) ==> y == g(*b),
            forall|i: int| 0 <= i < idx ==> #[trigger] bytes@[i] == g(bytes@[i]),
            ascii_only ==> forall|i: int| 0 <= i < idx ==> #[trigger] bytes@[i] < 128,
        ensures
            idx < bytes@.len() ==> replace == g(bytes@[idx as int]) && (ascii_only ==> replace < 128),
//@before /new_bytes\.push\(replace\)/
        proof { assert(new_bytes@ =~= map_seq(bytes@, g).subrange(0, idx as int)); }
//@loop 1
            invariant
                0 < idx <= bytes@.len(), new_bytes@.len() == idx + it.index@,
                forall|b: &u8| call_requires(f, (b,)),
                forall|b: &u8, y: u8| call_ensures(f, (b,), y) ==> y == g(*b),
                it.seq() == bytes@.subrange(idx as int, bytes@.len() as int).map_values(|x: u8| &x),
                forall|i: int| 0 <= i < new_bytes@.len() ==> #[trigger] new_bytes@[i] == g(bytes@[i]),
                ascii_only ==> forall|i: int| 0 <= i < new_bytes@.len() ==> #[trigger] new_bytes@[i] < 128,
//@before /let utf8 =/
    proof {
        assert(transformed@ =~= map_seq(bytes@, g));
        if ascii_only { assert(all_ascii(transformed@)); ascii_valid(transformed@); }
    }
//@end
//@item src/string/tf/casemap.rs :: pub struct AsciiCasemap
//@end
//@item src/string/tf/casemap.rs :: pub enum IrcCasemap
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@fn src/string/tf/casemap.rs :: rfc1459_strict
//@ret r
//@spec
    ensures r == lower_strict(*byte),
//@end
//@fn src/string/tf/casemap.rs :: rfc1459
//@ret r
//@spec
    ensures r == lower_1459(*byte),
//@end
impl<const UPPERCASE: bool> Transform for AsciiCasemap<UPPERCASE> {
    type Value = ();
    open spec fn image(self, s: Seq<u8>) -> Seq<u8> { map_seq(s, ascii_map(UPPERCASE)) }
}
impl<const UPPERCASE: bool> AsciiCasemap<UPPERCASE> {
//@fn src/string/tf/casemap.rs :: impl<const UPPERCASE: bool> Transform for AsciiCasemap<UPPERCASE> :: transform
//@ret r
//@spec
        ensures delivers(self, bytes@, r),
//@sub /Transformation<'a, Self::Value>/ => Transformation<'a, ()> ## type Value = ()
//@sub /super::map_bytes/ => map_bytes ## path
//@sub /, (u8::\w+)\)/ => , \1, Ghost(ascii_map(UPPERCASE))) ## ghost argument
//@head
        proof { map_utf8(bytes@, ascii_map(UPPERCASE)); }
//@end
}
impl Transform for IrcCasemap {
    type Value = ();
    open spec fn image(self, s: Seq<u8>) -> Seq<u8> { map_seq(s, irc_map(self)) }
}
impl IrcCasemap {
//@fn src/string/tf/casemap.rs :: impl Transform for IrcCasemap :: transform
//@ret r
//@spec
        ensures delivers(self, bytes@, r),
//@sub /Transformation<'a, Self::Value>/ => Transformation<'a, ()> ## type Value = ()
//@sub /use super::map_bytes;/ => ## path
//@sub /use Utf8Policy::PreserveStrict as U8Pol;/ => ## path
//@sub /\bU8Pol, ([\w:]+)\)/ => Utf8Policy::PreserveStrict, \1, Ghost(irc_map(self))) ## ghost argument; path
//@head
        proof { map_utf8(bytes@, irc_map(self)); }
//@end
}
//@item src/string/tf.rs :: pub enum StringSide
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/string/tf/trim.rs :: pub struct TrimAscii
//@end
impl Transform for TrimAscii {
    type Value = ();
    open spec fn image(self, s: Seq<u8>) -> Seq<u8> {
        let t = if self.0 != StringSide::Start { trim_end(s) } else { s };
        if self.0 != StringSide::End { trim_start(t) } else { t }
    }
}
impl TrimAscii {
//@fn src/string/tf/trim.rs :: impl Transform for TrimAscii :: transform
//@ret r
//@spec
        ensures delivers(self, bytes@, r),
//@sub /Transformation<'a, Self::Value>/ => Transformation<'a, ()> ## type Value = ()
//@sub /crate::string::Bytes/ => Bytes ## path
//@sub /slice\.split_(\w+)\(\)/ => split_\1(slice) ## slice method
//@loop 0
            invariant trim_end(slice@) == trim_end(bytes@),
            ensures slice@ == trim_end(bytes@),
            decreases slice@.len(),
//@before /if self\.0 != StringSide::End/
        let ghost mid = slice@;
//@loop 1
            invariant trim_start(slice@) == trim_start(mid),
            ensures slice@ == trim_start(mid),
            decreases slice@.len(),
//@post
        proof { trim_end_part(bytes@); let t = trim_end(bytes@); trim_start_part(t); trim_start_part(bytes@); }
//@end
}
// ---- Lemmas over the contracts ----
/// Each casemapping changes only the bytes its definition names, keeps the length and is idempotent.
pub proof fn exact(c: IrcCasemap, s: Seq<u8>)
    ensures
        c.image(s).len() == s.len(),
        c.image(c.image(s)) == c.image(s),
        forall|i: int| 0 <= i < s.len() && #[trigger] c.image(s)[i] != s[i] ==> upper(s[i]) || (c != IrcCasemap::Ascii && 91 <= s[i] <= 93) || (c == IrcCasemap::Rfc1459 && s[i] == 126),
{ assert(c.image(c.image(s)) =~= c.image(s)); }
pub proof fn exact_ascii<const U: bool>(c: AsciiCasemap<U>, s: Seq<u8>)
    ensures c.image(s).len() == s.len(), c.image(c.image(s)) == c.image(s),
        forall|i: int| 0 <= i < s.len() && #[trigger] c.image(s)[i] != s[i] ==> if U { lower(s[i]) } else { upper(s[i]) },
{ assert(c.image(c.image(s)) =~= c.image(s)); }
// ---- Every `unsafe impl XSafe` in the sources: the transform keeps X's rules ----
//@each src/**/*.rs /unsafe impl(<[^>]*>)? (\w+)Safe for ([\w:]+(?:<\w+>)?)\s*\{\s*\}/
pub proof fn safe_{2}_{n}{1}(tf: {3}, s: Seq<u8>)
    requires ok_{2}(s),
    ensures ok_{2}(tf.image(s)),
{ unfold_trim(s); }
//@endeach
pub proof fn unfold_trim(s: Seq<u8>)
    ensures
        exists|k: int| 0 <= k <= s.len() && trim_end(s) == #[trigger] s.subrange(0, k),
        exists|k: int| 0 <= k <= s.len() && trim_start(s) == #[trigger] s.subrange(k, s.len() as int),
        exists|k: int| 0 <= k <= trim_end(s).len() && trim_start(trim_end(s)) == #[trigger] trim_end(s).subrange(k, trim_end(s).len() as int),
{ trim_end_part(s); trim_start_part(s); trim_start_part(trim_end(s)); }
}
fn main() {}
