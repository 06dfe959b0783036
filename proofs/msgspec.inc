// ---- The grammar: messages ----
/// What precedes the arguments: the text of the tags, that of the source, the word for the kind, and what follows.
pub open spec fn head(s: Seq<u8>, et: bool, es: bool, tags: Seq<u8>, src: Option<Seq<u8>>) -> Option<(Seq<u8>, Option<Seq<u8>>, Seq<u8>, Seq<u8>)>
    decreases s.len() via head_ends
{
    let t = suf(s, blanks(s));
    let k = span::<Word>(t);
    let w = pre(t, k);
    let r = suf(t, k);
    if k == 0 { None }
    else if w[0] == 64 && et { head(r, false, es, w.drop_first(), src) }
    else if w[0] == 58 && es { head(r, false, false, tags, Some(w.drop_first())) }
    else { Some((tags, src, w, r)) }
}
#[via_fn]
proof fn head_ends(s: Seq<u8>, et: bool, es: bool, tags: Seq<u8>, src: Option<Seq<u8>>) { blanks_of(s); span_of::<Word>(suf(s, blanks(s))); }
pub open spec fn head_of(s: Seq<u8>) -> Option<(Seq<u8>, Option<Seq<u8>>, Seq<u8>, Seq<u8>)> { head(s, true, true, Seq::empty(), None) }
/// A source once seen is kept.
pub proof fn head_src(s: Seq<u8>, et: bool, tags: Seq<u8>, src: Option<Seq<u8>>)
    ensures head(s, et, false, tags, src) matches Some(h) ==> h.1 == src,
    decreases s.len(),
{
    blanks_of(s);
    let t = suf(s, blanks(s));
    let k = span::<Word>(t);
    span_of::<Word>(t);
    if k > 0 && pre(t, k)[0] == 64 && et { head_src(suf(t, k), false, pre(t, k).drop_first(), src); }
}
/// What is written for a message.
pub open spec fn write_head(tags: Seq<Tag>, src: Option<Src>) -> Seq<u8> {
    (if tags.len() > 0 { write_tags(tags) + seq![32u8] } else { Seq::<u8>::empty() })
    + (match src { Some(x) => seq![58u8] + write_source(x.0, x.1) + seq![32u8], None => Seq::<u8>::empty() })
}
pub open spec fn write_msg(tags: Seq<Tag>, src: Option<Src>, kind: Seq<u8>, w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> Seq<u8> {
    write_head(tags, src) + kind + write_args(w, l)
}
/// One word of the head, followed by a space or the end.
pub proof fn word_then(s: Seq<u8>, w: Seq<u8>, r: Seq<u8>)
    requires s == w + r, w.len() > 0, forall|i: int| 0 <= i < w.len() ==> !bad_Word(#[trigger] w[i]), !ascii_ws(w[0]), r.len() > 0 ==> r[0] == 32,
    ensures blanks(s) == 0, suf(s, 0) == s, span::<Word>(s) == w.len(), pre(s, w.len()) == w, suf(s, w.len()) == r,
        blanks(seq![32u8] + s) == 1, suf(seq![32u8] + s, 1) == s,
{
    assert(s[0] == w[0]);
    blanks_is(s, 0);
    assert(suf(s, 0) =~= s);
    assert forall|i: int| 0 <= i < w.len() implies !Word::bad(#[trigger] s[i]) by { assert(s[i] == w[i]); }
    if r.len() > 0 { assert(s[w.len() as int] == r[0]); }
    span_is::<Word>(s, w.len() as int);
    assert(pre(s, w.len()) =~= w);
    assert(suf(s, w.len()) =~= r);
    let q = seq![32u8] + s;
    assert(q[1] == s[0]);
    blanks_is(q, 1);
    assert(suf(q, 1) =~= s);
}
pub proof fn args_start(w: Seq<Seq<u8>>, l: Option<Seq<u8>>)
    ensures write_args(w, l).len() > 0 ==> write_args(w, l)[0] == 32,
{ if w.len() > 0 { assert(write_words(w)[0] == 32); } }
/// A word for the kind: not mistaken for tags or a source.
pub open spec fn kind_word(k: Seq<u8>) -> bool { k.len() > 0 && k[0] != 64 && k[0] != 58 && (forall|i: int| 0 <= i < k.len() ==> !bad_Word(#[trigger] k[i])) && !ascii_ws(k[0]) }
/// Behind the source.
proof fn kind_step(c: Seq<u8>, kind: Seq<u8>, a: Seq<u8>, et: bool, es: bool, tt: Seq<u8>, st: Option<Seq<u8>>)
    requires kind_word(kind), c == kind + a, a.len() > 0 ==> a[0] == 32,
    ensures head(c, et, es, tt, st) == Some((tt, st, kind, a)), head(seq![32u8] + c, et, es, tt, st) == Some((tt, st, kind, a)),
{ word_then(c, kind, a); assert(kind[0] != 64 && kind[0] != 58); }
/// Behind the tags.
proof fn src_step(b: Seq<u8>, x: Src, c: Seq<u8>, kind: Seq<u8>, a: Seq<u8>, et: bool, tt: Seq<u8>)
    requires source_ok(x.0, x.1), b == seq![58u8] + write_source(x.0, x.1) + seq![32u8] + c, kind_word(kind), c == kind + a, a.len() > 0 ==> a[0] == 32,
    ensures head(b, et, true, tt, None) == Some((tt, Some(write_source(x.0, x.1)), kind, a)), head(seq![32u8] + b, et, true, tt, None) == Some((tt, Some(write_source(x.0, x.1)), kind, a)),
{
    let st = write_source(x.0, x.1);
    source_round_trip(x.0, x.1);
    let sw = seq![58u8] + st;
    let r = seq![32u8] + c;
    assert(b =~= sw + r);
    assert forall|i: int| 0 <= i < sw.len() implies !bad_Word(#[trigger] sw[i]) by { if i > 0 { assert(sw[i] == st[i - 1]); } }
    word_then(b, sw, r);
    assert(sw.drop_first() =~= st);
    kind_step(c, kind, a, false, false, tt, Some(st));
    assert(sw[0] == 58);
}
/// What was written reads back part by part.
pub proof fn msg_round_trip(tags: Seq<Tag>, src: Option<Src>, kind: Seq<u8>, w: Seq<Seq<u8>>, l: Option<Seq<u8>>)
    requires tags_ok(tags), src matches Some(x) ==> source_ok(x.0, x.1), kind_word(kind), list_ok(w, l),
    ensures
        head_of(write_msg(tags, src, kind, w, l)) == Some((tags_tail(tags), match src { Some(x) => Some(write_source(x.0, x.1)), None => None }, kind, write_args(w, l))),
        parse_tags(tags_tail(tags)) == tags, src matches Some(x) ==> parse_source(write_source(x.0, x.1)) == Some(x), parse_args(write_args(w, l)) == (w, l),
{
    let a = write_args(w, l);
    args_start(w, l);
    args_round_trip(w, l);
    tags_round_trip(tags);
    if src is Some { source_round_trip(src->Some_0.0, src->Some_0.1); }
    head_step(tags, src, kind, a);
    assert(write_msg(tags, src, kind, w, l) == write_head(tags, src) + kind + a);
}
proof fn head_step(tags: Seq<Tag>, src: Option<Src>, kind: Seq<u8>, a: Seq<u8>)
    requires tags_ok(tags), src matches Some(x) ==> source_ok(x.0, x.1), kind_word(kind), a.len() > 0 ==> a[0] == 32,
    ensures head_of(write_head(tags, src) + kind + a) == Some((tags_tail(tags), match src { Some(x) => Some(write_source(x.0, x.1)), None => None }, kind, a)),
{
    let m = write_head(tags, src) + kind + a;
    let tt = tags_tail(tags);
    let c = kind + a;
    let b = match src { Some(x) => seq![58u8] + write_source(x.0, x.1) + seq![32u8] + c, None => c };
    tags_round_trip(tags);
    match src {
        Some(x) => { src_step(b, x, c, kind, a, true, Seq::empty()); src_step(b, x, c, kind, a, false, tt); },
        None => { kind_step(c, kind, a, true, true, Seq::empty(), None); kind_step(c, kind, a, false, true, tt, None); },
    }
    if tags.len() > 0 {
        written_tail(tags);
        let tw = write_tags(tags);
        let r = seq![32u8] + b;
        assert(m =~= tw + r);
        assert forall|i: int| 0 <= i < tw.len() implies !bad_Word(#[trigger] tw[i]) by { if i > 0 { assert(tw[i] == tt[i - 1]); assert(!bad_Word(tt[i - 1])); } }
        word_then(m, tw, r);
        assert(tw.drop_first() =~= tt);
        assert(tw[0] == 64);
        assert(head_of(m) == head(r, false, true, tt, None));
    } else {
        assert(m =~= b);
        assert(tt =~= Seq::empty());
    }
}
/// What is written contains no CR, LF or NUL.
pub proof fn msg_line(tags: Seq<Tag>, src: Option<Src>, kind: Seq<u8>, w: Seq<Seq<u8>>, l: Option<Seq<u8>>)
    requires tags_ok(tags), src matches Some(x) ==> source_ok(x.0, x.1), kind_word(kind), list_ok(w, l),
    ensures ok_Line(write_msg(tags, src, kind, w, l)),
{
    tags_round_trip(tags);
    written_tail(tags);
    args_line(w, l);
    if src is Some { source_round_trip(src->Some_0.0, src->Some_0.1); }
    let t = if tags.len() > 0 { write_tags(tags) + seq![32u8] } else { Seq::<u8>::empty() };
    let s = match src { Some(x) => seq![58u8] + write_source(x.0, x.1) + seq![32u8], None => Seq::<u8>::empty() };
    assert forall|i: int| 0 <= i < t.len() implies !bad_Line(#[trigger] t[i]) by { if 0 < i < t.len() - 1 { assert(t[i] == tags_tail(tags)[i - 1]); assert(!bad_Word(tags_tail(tags)[i - 1])); } }
    assert forall|i: int| 0 <= i < s.len() implies !bad_Line(#[trigger] s[i]) by { if 0 < i < s.len() - 1 { let x = write_source(src->Some_0.0, src->Some_0.1); assert(s[i] == x[i - 1]); assert(!bad_Word(x[i - 1])); } }
    let m = write_msg(tags, src, kind, w, l);
    let a = write_args(w, l);
    assert(m =~= t + s + kind + a);
    assert forall|i: int| 0 <= i < m.len() implies !bad_Line(#[trigger] m[i]) by {
        if i < t.len() { assert(m[i] == t[i]); }
        else if i < t.len() + s.len() { assert(m[i] == s[i - t.len()]); }
        else if i < t.len() + s.len() + kind.len() { assert(m[i] == kind[i - t.len() - s.len()]); assert(!bad_Word(kind[i - t.len() - s.len()])); }
        else { assert(m[i] == a[i - t.len() - s.len() - kind.len()]); }
    }
}
pub proof fn args_line(w: Seq<Seq<u8>>, l: Option<Seq<u8>>)
    requires list_ok(w, l),
    ensures ok_Line(write_args(w, l)),
    decreases w.len(),
{
    let a = write_args(w, l);
    if w.len() == 0 {
        assert(a =~= write_long(l));
        assert forall|i: int| 0 <= i < a.len() implies !bad_Line(#[trigger] a[i]) by { if i > 1 { assert(a[i] == l->Some_0[i - 2]); } }
    } else {
        let d = w.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies ok_Arg(#[trigger] d[i]) by { assert(ok_Arg(w[i + 1])); }
        args_line(d, l);
        let r = write_args(d, l);
        assert(a =~= seq![32u8] + w[0] + r);
        assert(ok_Arg(w[0]));
        assert forall|i: int| 0 <= i < a.len() implies !bad_Line(#[trigger] a[i]) by {
            if i == 0 { } else if i <= w[0].len() { assert(a[i] == w[0][i - 1]); assert(!bad_Arg(w[0][i - 1])); } else { assert(a[i] == r[i - 1 - w[0].len()]); }
        }
    }
}
