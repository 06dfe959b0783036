// ---- Specification: the tag value escapes of IRCv3 message-tags ----
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }
pub open spec fn is_word(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> s[i] != 0 && s[i] != 13 && s[i] != 10 && s[i] != 32
}
/// `;` SPACE CR LF `\` are escaped.
pub open spec fn special(b: u8) -> bool { b == 59 || b == 32 || b == 13 || b == 10 || b == 92 }
pub open spec fn code(b: u8) -> u8 {
    if b == 59 { 58 } else if b == 32 { 115 } else if b == 13 { 114 } else if b == 10 { 110 } else { b }
}
pub open spec fn uncode(b: u8) -> u8 {
    if b == 58 { 59 } else if b == 115 { 32 } else if b == 114 { 13 } else if b == 110 { 10 } else { b }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if special(s.last()) { esc(s.drop_last()).push(92).push(code(s.last())) }
    else { esc(s.drop_last()).push(s.last()) }
}
/// Unescaping, as (bytes so far, whether a backslash is pending). A trailing lone backslash is dropped.
pub open spec fn unesc(s: Seq<u8>) -> (Seq<u8>, bool)
    decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), false) }
    else {
        let (p, e) = unesc(s.drop_last());
        if e { (p.push(uncode(s.last())), false) }
        else if s.last() == 92 { (p, true) }
        else { (p.push(s.last()), false) }
    }
}

// ---- Lemmas ----
pub proof fn esc_plain(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]),
    ensures esc(s) == s,
    decreases s.len()
{
    if s.len() > 0 { esc_plain(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); }
}
pub proof fn esc_word(s: Seq<u8>)
    requires no_nul(s),
    ensures is_word(esc(s)), esc(s).len() <= 2 * s.len(),
    decreases s.len()
{
    if s.len() > 0 { esc_word(s.drop_last()); assert(s.last() == s[s.len() - 1]); }
}
pub proof fn esc_no_semi(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < esc(s).len() ==> esc(s)[i] != 59,
    decreases s.len()
{
    if s.len() > 0 {
        esc_no_semi(s.drop_last());
        assert forall|i: int| 0 <= i < esc(s).len() implies esc(s)[i] != 59 by {
            let p = esc(s.drop_last());
            if i < p.len() { assert(esc(s)[i] == p[i]); }
        }
    }
}
pub proof fn unesc_plain(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 92,
    ensures unesc(s) == (s, false),
    decreases s.len()
{
    if s.len() > 0 { unesc_plain(s.drop_last()); assert(s.last() == s[s.len() - 1]); assert(s.drop_last().push(s.last()) =~= s); }
}
pub proof fn unesc_no_nul(s: Seq<u8>)
    requires no_nul(s),
    ensures no_nul(unesc(s).0),
    decreases s.len()
{
    if s.len() > 0 { unesc_no_nul(s.drop_last()); assert(s.last() == s[s.len() - 1]); }
}
/// The round trip: what is escaped unescapes to itself, for every value.
pub proof fn round_trip(s: Seq<u8>)
    ensures unesc(esc(s)) == (s, false),
    decreases s.len()
{
    if s.len() > 0 {
        let p = esc(s.drop_last());
        round_trip(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
        if special(s.last()) {
            assert(p.push(92).push(code(s.last())).drop_last() =~= p.push(92));
            assert(p.push(92).drop_last() =~= p);
            assert(unesc(p.push(92)) == (s.drop_last(), true));
            assert(uncode(code(s.last())) == s.last());
        } else {
            assert(p.push(s.last()).drop_last() =~= p);
        }
    } else {
        assert(s =~= Seq::<u8>::empty());
        assert(unesc(Seq::<u8>::empty()) == (Seq::<u8>::empty(), false));
    }
}
