// ---- UTF-8: character boundaries ----
pub open spec fn cont(b: u8) -> bool { 128 <= b <= 191 }
/// A position of a valid string at which it may be cut.
pub open spec fn edge(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i == 0 || i == s.len() || !cont(s[i])) }
pub open spec fn all_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub proof fn ascii_valid(s: Seq<u8>)
    requires all_ascii(s),
    ensures valid_utf8(s),
    decreases s.len()
{
    reveal_with_fuel(valid_utf8, 2);
    if s.len() > 0 { ascii_valid(s.subrange(1, s.len() as int)); utf8_byte_ranges_bitwise(s[0]); }
}
pub proof fn edge_boundary(s: Seq<u8>, i: int)
    requires valid_utf8(s), 0 <= i <= s.len(),
    ensures edge(s, i) == is_char_boundary(s, i), s.len() > 0 ==> !cont(s[0]),
{
    is_char_boundary_start_end_of_seq(s);
    if s.len() > 0 { is_char_boundary_iff_not_is_continuation_byte(s, 0); utf8_byte_ranges_bitwise(s[0]); }
    if i < s.len() { is_char_boundary_iff_not_is_continuation_byte(s, i); utf8_byte_ranges_bitwise(s[i]); }
}
pub proof fn cut_valid(s: Seq<u8>, a: int, b: int)
    requires valid_utf8(s), edge(s, a), edge(s, b), a <= b,
    ensures valid_utf8(s.subrange(a, b)),
{
    edge_boundary(s, b);
    valid_utf8_split(s, b);
    let t = s.subrange(0, b);
    assert(t.subrange(a, b) =~= s.subrange(a, b));
    assert(edge(t, a));
    edge_boundary(t, a);
    valid_utf8_split(t, a);
}
/// The rest of a valid string after a valid part is valid.
pub proof fn rest_valid(p: Seq<u8>, r: Seq<u8>)
    requires valid_utf8(p), valid_utf8(p + r),
    ensures valid_utf8(r),
    decreases p.len()
{
    if p.len() == 0 { assert(p + r =~= r); } else {
        let s = p + r;
        reveal_with_fuel(valid_utf8, 2);
        assert(forall|i: int| 0 <= i < p.len() ==> s[i] == p[i]);
        assert(s[0] == p[0]);
        let n = length_of_first_scalar(p);
        assert(length_of_first_scalar(s) == n);
        assert(pop_first_scalar(s) =~= pop_first_scalar(p) + r);
        rest_valid(pop_first_scalar(p), r);
    }
}
/// The ends of a non-empty valid part of a valid string are places to cut it.
pub proof fn part_edges(s: Seq<u8>, a: int, b: int)
    requires valid_utf8(s), 0 <= a < b <= s.len(), valid_utf8(s.subrange(a, b)),
    ensures edge(s, a), edge(s, b),
{
    let p = s.subrange(a, b);
    edge_boundary(p, 0);
    assert(p[0] == s[a]);
    let t = s.subrange(a, s.len() as int);
    cut_valid(s, a, s.len() as int);
    let r = s.subrange(b, s.len() as int);
    assert(p + r =~= t);
    rest_valid(p, r);
    if r.len() > 0 { edge_boundary(r, 0); assert(r[0] == s[b]); }
}
