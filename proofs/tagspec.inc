// ---- The grammar: message tags ----
pub type Tag = (Seq<u8>, Seq<u8>);
/// The tags in `s` (without '@'): keys with their unescaped values; what cannot be a key is passed over.
pub open spec fn parse_tags(s: Seq<u8>) -> Seq<Tag>
    decreases s.len() via parse_tags_ends
{
    let k = span::<Key>(s);
    if s.len() == 0 { Seq::empty() }
    else if !lead_Key(pre(s, k)) {
        let t = if s[0] == 58 { suf(s, until(s, 59)) } else { s };
        parse_tags(suf(t, skip::<Key>(t)))
    } else {
        let t = suf(s, k);
        if t.len() == 0 { seq![(pre(s, k), Seq::<u8>::empty())] }
        else if t[0] == 61 {
            let v = t.drop_first();
            let n = until(v, 59);
            let rest = if n < v.len() { suf(v, n + 1) } else { Seq::empty() };
            seq![(pre(s, k), unesc(pre(v, n)).0)] + parse_tags(rest)
        } else { seq![(pre(s, k), Seq::<u8>::empty())] + parse_tags(t.drop_first()) }
    }
}
#[via_fn]
proof fn parse_tags_ends(s: Seq<u8>) {
    span_of::<Key>(s);
    until_of(s, 59);
    let t = if s.len() > 0 && s[0] == 58 { suf(s, until(s, 59)) } else { s };
    skip_of::<Key>(t);
    if s.len() > 0 && !lead_Key(pre(s, span::<Key>(s))) {
        if s[0] != 58 { if span::<Key>(s) > 0 { assert(pre(s, span::<Key>(s))[0] == s[0]); } }
    }
    let u = suf(s, span::<Key>(s));
    if u.len() > 0 { until_of(u.drop_first(), 59); }
}
pub open spec fn write_tag(t: Tag) -> Seq<u8> { if t.1.len() == 0 { t.0 } else { t.0 + seq![61u8] + esc(t.1) } }
/// What is written: '@', then the tags between ';'. Nothing if there are none.
pub open spec fn write_tags(w: Seq<Tag>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else { write_tags(w.drop_last()) + seq![if w.len() == 1 { 64u8 } else { 59u8 }] + write_tag(w.last()) }
}
/// The same from the front, behind the first separator.
pub open spec fn tags_tail(w: Seq<Tag>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else if w.len() == 1 { write_tag(w[0]) } else { write_tag(w[0]) + seq![59u8] + tags_tail(w.drop_first()) }
}
pub open spec fn tags_ok(w: Seq<Tag>) -> bool { forall|i: int| 0 <= i < w.len() ==> ok_Key(#[trigger] w[i].0) && ok_NoNul(w[i].1) }
pub proof fn tail_push(w: Seq<Tag>, t: Tag)
    ensures tags_tail(w.push(t)) == if w.len() == 0 { write_tag(t) } else { tags_tail(w) + seq![59u8] + write_tag(t) },
    decreases w.len(),
{
    let x = w.push(t);
    if w.len() > 0 {
        assert(x.drop_first() =~= w.drop_first().push(t));
        tail_push(w.drop_first(), t);
        assert(tags_tail(x) =~= tags_tail(w) + seq![59u8] + write_tag(t));
    }
}
pub proof fn written_tail(w: Seq<Tag>)
    ensures w.len() > 0 ==> write_tags(w) == seq![64u8] + tags_tail(w), w.len() == 0 ==> write_tags(w).len() == 0,
    decreases w.len(),
{
    if w.len() > 0 {
        let p = w.drop_last();
        written_tail(p);
        tail_push(p, w.last());
        assert(p.push(w.last()) =~= w);
        if w.len() == 1 { assert(write_tags(p) =~= Seq::empty()); }
        assert(write_tags(w) =~= seq![64u8] + tags_tail(w));
    }
}
/// One tag, then nothing or ';' and more.
pub proof fn tag_step(t: Tag, tail: Option<Seq<u8>>)
    requires ok_Key(t.0), ok_NoNul(t.1),
    ensures ({
        let more = match tail { Some(x) => seq![59u8] + x, None => Seq::<u8>::empty() };
        let rest = match tail { Some(x) => x, None => Seq::<u8>::empty() };
        parse_tags(write_tag(t) + more) == seq![t] + parse_tags(rest) }),
{
    let more = match tail { Some(x) => seq![59u8] + x, None => Seq::<u8>::empty() };
    let rest = match tail { Some(x) => x, None => Seq::<u8>::empty() };
    let (k, v) = t;
    let s = write_tag(t) + more;
    let e = esc(v);
    let val = if v.len() == 0 { Seq::<u8>::empty() } else { seq![61u8] + e };
    let u = val + more;
    assert(s =~= k + u);
    assert forall|i: int| 0 <= i < k.len() implies !Key::bad(#[trigger] s[i]) by { assert(s[i] == k[i]); assert(!bad_Key(k[i])); }
    if u.len() > 0 { assert(s[k.len() as int] == u[0]); }
    span_is::<Key>(s, k.len() as int);
    assert(pre(s, k.len()) =~= k);
    assert(suf(s, k.len()) =~= u);
    assert(parse_tags(Seq::<u8>::empty()) =~= Seq::empty());
    if v.len() > 0 { value_step(v, more); }
    if v.len() > 0 {
        let x = u.drop_first();
        assert(x =~= e + more);
        if more.len() > 0 { assert(suf(x, e.len() + 1) =~= rest); }
        assert(pre(x, e.len()) =~= e);
        assert(parse_tags(s) =~= seq![t] + parse_tags(rest));
    } else {
        assert(v =~= Seq::<u8>::empty());
        if more.len() > 0 { assert(u.drop_first() =~= rest); }
        assert(parse_tags(s) =~= seq![t] + parse_tags(rest));
    }
}
proof fn value_step(v: Seq<u8>, more: Seq<u8>)
    requires v.len() > 0, more.len() > 0 ==> more[0] == 59,
    ensures esc(v).len() > 0, until(esc(v) + more, 59) == esc(v).len(), unesc(esc(v)).0 == v,
{
    let e = esc(v);
    round_trip(v);
    esc_no_semi(v);
    if e.len() == 0 { assert(unesc(e).0.len() == 0); }
    let u = e + more;
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] u[i] != 59 by { assert(u[i] == e[i]); }
    if more.len() > 0 { assert(u[e.len() as int] == more[0]); }
    until_is(u, 59, e.len() as int);
}
/// One tag as text is part of a word.
proof fn tag_word(t: Tag)
    requires ok_Key(t.0), ok_NoNul(t.1),
    ensures ok_Word(write_tag(t)), write_tag(t).len() > 0,
{
    let (k, v) = t;
    let e = esc(v);
    assert(no_nul(v)) by { assert forall|i: int| 0 <= i < v.len() implies v[i] != 0 by { assert(!bad_NoNul(v[i])); } }
    esc_word(v);
    let s = write_tag(t);
    assert forall|i: int| 0 <= i < s.len() implies !bad_Word(#[trigger] s[i]) by {
        if i < k.len() { assert(s[i] == k[i]); assert(!bad_Key(k[i])); }
        else if i > k.len() { assert(s[i] == e[i - k.len() - 1]); }
    }
}
/// What was written parses back to the same tags.
pub proof fn tags_round_trip(w: Seq<Tag>)
    requires tags_ok(w),
    ensures parse_tags(tags_tail(w)) == w, ok_Word(tags_tail(w)), w.len() > 0 ==> tags_tail(w).len() > 0,
    decreases w.len(),
{
    let s = tags_tail(w);
    if w.len() == 0 { assert(parse_tags(s) =~= w); }
    else {
        assert(ok_Key(w[0].0) && ok_NoNul(w[0].1));
        let d = w.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies ok_Key(#[trigger] d[i].0) && ok_NoNul(d[i].1) by { assert(ok_Key(w[i + 1].0)); }
        tags_round_trip(d);
        let tail = if w.len() > 1 { Some(tags_tail(d)) } else { None };
        let more = match tail { Some(x) => seq![59u8] + x, None => Seq::<u8>::empty() };
        let h = write_tag(w[0]);
        assert(s =~= h + more);
        tag_step(w[0], tail);
        tag_word(w[0]);
        if w.len() == 1 { assert(d =~= Seq::empty()); assert(parse_tags(Seq::<u8>::empty()) =~= Seq::empty()); }
        assert(w =~= seq![w[0]] + d);
        assert forall|i: int| 0 <= i < s.len() implies !bad_Word(#[trigger] s[i]) by {
            if i < h.len() { assert(s[i] == h[i]); }
            else if i > h.len() { assert(s[i] == tags_tail(d)[i - h.len() - 1]); }
        }
    }
}
/// Every parse is a list of tags that could have been written.
#[verifier::spinoff_prover]
pub proof fn parsed_tags_ok(s: Seq<u8>)
    requires ok_Word(s),
    ensures tags_ok(parse_tags(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let k = span::<Key>(s);
        span_of::<Key>(s);
        parse_tags_ends_pub(s);
        if !lead_Key(pre(s, k)) {
            until_of(s, 59);
            let t = if s[0] == 58 { suf(s, until(s, 59)) } else { s };
            skip_of::<Key>(t);
            let r = suf(t, skip::<Key>(t));
            assert forall|i: int| 0 <= i < r.len() implies !bad_Word(#[trigger] r[i]) by { let sk = skip::<Key>(t) as int; let d = s.len() - t.len(); assert(r[i] == t[i + sk]); assert(t[i + sk] == s[i + sk + d]); assert(!bad_Word(s[i + sk + d])); }
            parsed_tags_ok(r);
        } else {
            let p = pre(s, k);
            assert forall|i: int| 0 <= i < p.len() implies !bad_Key(#[trigger] p[i]) by { assert(p[i] == s[i]); assert(!Key::bad(s[i])); }
            let t = suf(s, k);
            if t.len() > 0 {
                let v = t.drop_first();
                until_of(v, 59);
                let n = until(v, 59);
                let val = pre(v, n);
                assert forall|i: int| 0 <= i < v.len() implies !bad_Word(#[trigger] v[i]) by { assert(v[i] == t[i + 1]); assert(t[i + 1] == s[i + k + 1]); assert(!bad_Word(s[i + k + 1])); }
                assert(no_nul(val)) by { assert forall|i: int| 0 <= i < val.len() implies val[i] != 0 by { assert(val[i] == v[i]); assert(!bad_Word(v[i])); } }
                unesc_no_nul(val);
                assert(ok_NoNul(unesc(val).0)) by { let x = unesc(val).0; assert forall|i: int| 0 <= i < x.len() implies !bad_NoNul(#[trigger] x[i]) by { } }
                let rest = if n < v.len() { suf(v, n + 1) } else { Seq::empty() };
                assert forall|i: int| 0 <= i < rest.len() implies !bad_Word(#[trigger] rest[i]) by { assert(rest[i] == v[i + n + 1]); assert(!bad_Word(v[i + n + 1])); }
                parsed_tags_ok(rest);
                parsed_tags_ok(v);
                assert(ok_Key(p));
                let tail = if t[0] == 61 { parse_tags(rest) } else { parse_tags(v) };
                let first = if t[0] == 61 { (p, unesc(val).0) } else { (p, Seq::<u8>::empty()) };
                assert(parse_tags(s) == seq![first] + tail);
                assert forall|i: int| 0 <= i < parse_tags(s).len() implies ok_Key(#[trigger] parse_tags(s)[i].0) && ok_NoNul(parse_tags(s)[i].1) by {
                    if i > 0 { assert(parse_tags(s)[i] == tail[i - 1]); assert(ok_Key(tail[i - 1].0) && ok_NoNul(tail[i - 1].1)); } else { assert(parse_tags(s)[0] == first); }
                }
            }
        }
    }
}
/// The step of parse_tags ends.
pub proof fn parse_tags_ends_pub(s: Seq<u8>)
    requires s.len() > 0,
    ensures !lead_Key(pre(s, span::<Key>(s))) ==> ({
            let t = if s[0] == 58 { suf(s, until(s, 59)) } else { s };
            suf(t, skip::<Key>(t)).len() < s.len() && until(s, 59) <= s.len() && skip::<Key>(t) <= t.len() }),
{
    span_of::<Key>(s);
    until_of(s, 59);
    let t = if s[0] == 58 { suf(s, until(s, 59)) } else { s };
    skip_of::<Key>(t);
    if !lead_Key(pre(s, span::<Key>(s))) && s[0] != 58 && span::<Key>(s) > 0 { assert(pre(s, span::<Key>(s))[0] == s[0]); }
}
