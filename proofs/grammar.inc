// ---- The grammar: argument lists ----
/// The arguments in `s`: words between runs of separators, and everything behind " :" as one last argument.
pub open spec fn parse_args(s: Seq<u8>) -> (Seq<Seq<u8>>, Option<Seq<u8>>)
    decreases s.len() via parse_args_ends
{
    let t = suf(s, skip::<Arg>(s));
    if t.len() == 0 { (Seq::empty(), None) }
    else if t[0] == 58 { if ok_Arg(t.drop_first()) { (seq![t.drop_first()], None) } else { (Seq::empty(), Some(t.drop_first())) } }
    else {
        let rest = parse_args(suf(t, span::<Arg>(t)));
        (seq![pre(t, span::<Arg>(t))] + rest.0, rest.1)
    }
}
#[via_fn]
proof fn parse_args_ends(s: Seq<u8>) { skip_of::<Arg>(s); let t = suf(s, skip::<Arg>(s)); span_of::<Arg>(t); }
/// What is written for an argument list: each argument behind a space, a long one behind " :".
pub open spec fn write_words(w: Seq<Seq<u8>>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else { seq![32u8] + w[0] + write_words(w.drop_first()) }
}
pub open spec fn write_long(l: Option<Seq<u8>>) -> Seq<u8> { match l { Some(l) => seq![32u8, 58u8] + l, None => Seq::empty() } }
pub open spec fn write_args(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> Seq<u8> { write_words(w) + write_long(l) }
pub open spec fn list_ok(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> bool {
    (forall|i: int| 0 <= i < w.len() ==> ok_Arg(#[trigger] w[i])) && (l matches Some(x) ==> ok_Line(x) && !ok_Arg(x))
}
pub proof fn write_words_push(w: Seq<Seq<u8>>, x: Seq<u8>)
    ensures write_words(w.push(x)) == write_words(w) + seq![32u8] + x,
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w.push(x).drop_first() =~= w);
        assert(write_words(w.push(x)) =~= write_words(w) + seq![32u8] + x);
    } else {
        assert(w.push(x).drop_first() =~= w.drop_first().push(x));
        write_words_push(w.drop_first(), x);
        assert(write_words(w.push(x)) =~= write_words(w) + seq![32u8] + x);
    }
}
/// What was written parses back to the same list.
pub proof fn args_round_trip(w: Seq<Seq<u8>>, l: Option<Seq<u8>>)
    requires list_ok(w, l),
    ensures parse_args(write_args(w, l)) == (w, l),
    decreases w.len(),
{
    let s = write_args(w, l);
    if w.len() == 0 {
        match l {
            None => { assert(s =~= Seq::empty()); skip_is::<Arg>(s, 0); assert(parse_args(s).0 =~= w); },
            Some(x) => {
                assert(s =~= seq![32u8, 58u8] + x);
                assert(s[0] == 32 && s[1] == 58);
                skip_is::<Arg>(s, 1);
                let t = suf(s, 1);
                assert(t[0] == 58);
                assert(t.drop_first() =~= x);
                assert(parse_args(s).0 =~= w);
            },
        }
    } else {
        let n = w[0].len();
        let rest = write_args(w.drop_first(), l);
        assert(s =~= seq![32u8] + w[0] + rest);
        assert(ok_Arg(w[0]));
        assert(s[0] == 32);
        assert(s[1] == w[0][0]);
        assert(!Arg::bad(s[1]));
        skip_is::<Arg>(s, 1);
        let t = suf(s, 1);
        assert(t =~= w[0] + rest);
        assert(t[0] == w[0][0]);
        if rest.len() > 0 {
            if w.len() > 1 { assert(write_words(w.drop_first())[0] == 32); assert(rest[0] == 32); }
            else { assert(l is Some); assert(rest[0] == 32); }
            assert(t[n as int] == rest[0]);
        }
        assert forall|i: int| 0 <= i < n implies !Arg::bad(#[trigger] t[i]) by { assert(t[i] == w[0][i]); assert(!bad_Arg(w[0][i])); }
        span_is::<Arg>(t, n as int);
        assert(pre(t, n) =~= w[0]);
        assert(suf(t, n) =~= rest);
        assert forall|i: int| 0 <= i < w.drop_first().len() implies ok_Arg(#[trigger] w.drop_first()[i]) by { assert(ok_Arg(w[i + 1])); }
        args_round_trip(w.drop_first(), l);
        assert(parse_args(s).0 =~= w);
    }
}
/// Every parse is a list that could have been written.
pub proof fn parsed_ok(s: Seq<u8>)
    requires ok_Line(s),
    ensures list_ok(parse_args(s).0, parse_args(s).1),
    decreases s.len(),
{
    skip_of::<Arg>(s);
    let t = suf(s, skip::<Arg>(s));
    span_of::<Arg>(t);
    assert forall|i: int| 0 <= i < t.len() implies !bad_Line(#[trigger] t[i]) by { assert(t[i] == s[i + skip::<Arg>(s)]); }
    if t.len() > 0 && t[0] == 58 {
        let l = t.drop_first();
        assert forall|i: int| 0 <= i < l.len() implies !bad_Line(#[trigger] l[i]) by { assert(l[i] == t[i + 1]); }
    } else if t.len() > 0 {
        assert(t[0] == s[skip::<Arg>(s) as int]);
        let k = span::<Arg>(t);
        let h = pre(t, k);
        let r = suf(t, k);
        assert forall|i: int| 0 <= i < h.len() implies !bad_Arg(#[trigger] h[i]) by { assert(!Arg::bad(t[i])); }
        assert forall|i: int| 0 <= i < r.len() implies !bad_Line(#[trigger] r[i]) by { assert(r[i] == t[i + k]); }
        assert(ok_Line(r));
        assert(k > 0);
        assert(h[0] == t[0]);
        parsed_ok(r);
        let w = parse_args(s).0;
        assert(w =~= seq![h] + parse_args(r).0);
        assert forall|i: int| 0 <= i < w.len() implies ok_Arg(#[trigger] w[i]) by { if i > 0 { assert(w[i] == parse_args(r).0[i - 1]); } }
    }
}
// ---- The grammar: sources ----
/// A user name (or none) and a host.
pub type UH = (Option<Seq<u8>>, Seq<u8>);
pub open spec fn write_uh(x: UH) -> Seq<u8> { match x.0 { Some(u) => u + seq![64u8] + x.1, None => x.1 } }
pub open spec fn write_source(n: Seq<u8>, x: Option<UH>) -> Seq<u8> {
    match x {
        Some((Some(u), h)) => n + seq![33u8] + u + seq![64u8] + h,
        Some((None, h)) => n + seq![64u8] + h,
        None => n,
    }
}
pub open spec fn parse_uh(s: Seq<u8>) -> Option<UH> {
    let n = until(s, 64);
    let h = if n < s.len() { suf(s, n + 1) } else { Seq::empty() };
    if ok_User(pre(s, n)) && h.len() > 0 { Some((Some(pre(s, n)), h)) } else { None }
}
pub open spec fn parse_source(s: Seq<u8>) -> Option<(Seq<u8>, Option<UH>)> {
    let n = span::<Nick>(s);
    let t = suf(s, n);
    if !lead_Nick(pre(s, n)) { None }
    else if t.len() > 0 && t[0] == 33 { match parse_uh(t.drop_first()) { Some(x) => Some((pre(s, n), Some(x))), None => None } }
    else if t.len() > 0 && t[0] == 64 { if t.len() > 1 { Some((pre(s, n), Some((None, t.drop_first())))) } else { None } }
    else { Some((pre(s, n), None)) }
}
pub open spec fn source_ok(n: Seq<u8>, x: Option<UH>) -> bool {
    ok_Nick(n) && (x matches Some(y) ==> ok_Word(y.1) && y.1.len() > 0 && (y.0 matches Some(u) ==> ok_User(u)))
}
pub proof fn source_round_trip(n: Seq<u8>, x: Option<UH>)
    requires source_ok(n, x),
    ensures parse_source(write_source(n, x)) == Some((n, x)), ok_Word(write_source(n, x)), write_source(n, x).len() > 0,
{ source_reads(n, x); source_word(n, x); }
#[verifier::spinoff_prover]
proof fn source_word(n: Seq<u8>, x: Option<UH>)
    requires source_ok(n, x),
    ensures ok_Word(write_source(n, x)),
{
    let s = write_source(n, x);
    let t = suf(s, n.len());
    assert forall|i: int| 0 <= i < n.len() implies !bad_Word(#[trigger] s[i]) by { assert(s[i] == n[i]); assert(!bad_Nick(n[i])); }
    match x {
        None => { },
        Some((None, h)) => { assert(t =~= seq![64u8] + h); },
        Some((Some(u), h)) => { assert(t =~= seq![33u8] + u + seq![64u8] + h); },
    }
    assert forall|i: int| 0 <= i < s.len() implies !bad_Word(#[trigger] s[i]) by {
        if i < n.len() { assert(!bad_Word(s[i])); }
        else {
            let j = i - n.len();
            assert(s[i] == t[j]);
            match x {
                None => { },
                Some((None, h)) => { if j > 0 { assert(t[j] == h[j - 1]); assert(!bad_Word(h[j - 1])); } },
                Some((Some(u), h)) => {
                    if 0 < j && j <= u.len() { assert(t[j] == u[j - 1]); assert(!bad_User(u[j - 1])); }
                    if j > u.len() + 1 { assert(t[j] == h[j - u.len() - 2]); assert(!bad_Word(h[j - u.len() - 2])); }
                },
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn source_reads(n: Seq<u8>, x: Option<UH>)
    requires source_ok(n, x),
    ensures parse_source(write_source(n, x)) == Some((n, x)), write_source(n, x).len() > 0,
{
    let s = write_source(n, x);
    assert forall|i: int| 0 <= i < n.len() implies !Nick::bad(#[trigger] s[i]) by { assert(s[i] == n[i]); assert(!bad_Nick(n[i])); }
    span_is::<Nick>(s, n.len() as int);
    assert(pre(s, n.len()) =~= n);
    let t = suf(s, n.len());
    match x {
        None => { },
        Some((None, h)) => { assert(t =~= seq![64u8] + h); assert(t.drop_first() =~= h); },
        Some((Some(u), h)) => {
            assert(t =~= seq![33u8] + u + seq![64u8] + h);
            let v = t.drop_first();
            assert(v =~= u + seq![64u8] + h);
            assert forall|i: int| 0 <= i < u.len() implies #[trigger] v[i] != 64 by { assert(v[i] == u[i]); assert(!bad_User(u[i])); }
            assert(v[u.len() as int] == 64);
            until_is(v, 64, u.len() as int);
            assert(pre(v, u.len()) =~= u);
            assert(suf(v, u.len() + 1) =~= h);
        },
    }
}
/// Every parsed source could have been written.
pub proof fn parsed_source_ok(s: Seq<u8>)
    requires ok_Word(s),
    ensures parse_source(s) matches Some(x) ==> source_ok(x.0, x.1),
{
    let n = span::<Nick>(s);
    span_of::<Nick>(s);
    let p = pre(s, n);
    let t = suf(s, n);
    assert forall|i: int| 0 <= i < p.len() implies !bad_Nick(#[trigger] p[i]) by { assert(!Nick::bad(s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies !bad_Word(#[trigger] t[i]) by { assert(!bad_Word(s[i + n])); }
    if t.len() > 0 {
        let v = t.drop_first();
        assert forall|i: int| 0 <= i < v.len() implies !bad_Word(#[trigger] v[i]) by { assert(!bad_Word(t[i + 1])); }
        until_of(v, 64);
        let m = until(v, 64);
        if m < v.len() { let h = suf(v, m + 1); assert forall|i: int| 0 <= i < h.len() implies !bad_Word(#[trigger] h[i]) by { assert(!bad_Word(v[i + m + 1])); } }
    }
}
