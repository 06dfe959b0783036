//@meta property C10
//@meta assume io::Take is its reader plus a limit; a BufRead hands out the bytes of one stream in order
//@meta assume an .await is no step of its own; a future dropped before it is done is not modelled
//@meta assume tokio_util's Encoder::encode is covered by the bounded harness only
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include error.inc
// ---- Trusted contracts on the standard library, tokio and bytes ----
#[verifier::external_body]
pub struct IoError { x: u8 }
pub enum ErrorKind { UnexpectedEof, WouldBlock, InvalidData, InvalidInput, Interrupted, Other }
impl IoError {
    pub uninterp spec fn why(&self) -> Why;
    #[verifier::external_body]
    pub fn from_kind(k: ErrorKind) -> (r: IoError) ensures r.why() == (if k is UnexpectedEof { Why::Eof } else { Why::Io }) { unimplemented!() }
    /// From<ParseError>
    #[verifier::external_body]
    pub fn from_parse(e: ParseError) -> (r: IoError) ensures r.why() == Why::Parse { unimplemented!() }
    #[verifier::external_body]
    pub fn from_invalid(e: InvalidString) -> (r: IoError) ensures r.why() == Why::Parse { unimplemented!() }
}
/// BufRead: the bytes still to come, in whatever pieces they arrive.
pub trait BufRead { spec fn coming(&self) -> Seq<u8>; }
/// read_until on std's or tokio's Take, a reader and a limit: appends what comes up to and including `byte`, the limit or the end; on an error what came before it.
#[verifier::external_body]
pub fn take_read_until<R: BufRead>(inner: &mut R, limit: &mut u64, byte: u8, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
    ensures ({
        let a = (*old(inner)).coming();
        let m = final(buf)@.len() - old(buf)@.len();
        &&& 0 <= m <= a.len() && m <= *old(limit)
        &&& final(buf)@ == old(buf)@ + pre(a, m as nat) && (*final(inner)).coming() == suf(a, m as nat)
        &&& match r {
            Ok(k) => k == m && (forall|i: int| 0 <= i < m - 1 ==> #[trigger] a[i] != byte) && (m == a.len() || m == *old(limit) || (m > 0 && a[m - 1] == byte)),
            Err(e) => e.why() == Why::Io && forall|i: int| 0 <= i < m ==> #[trigger] a[i] != byte,
        }
    }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_take(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// TryFrom for Line, proved in C03_types.rs.
#[verifier::external_body]
pub fn line_from_vec<'a>(v: Vec<u8>) -> (r: Result<Line<'a>, InvalidString>) ensures (r is Ok) == ok_Line(v@), r matches Ok(l) ==> l@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn line_from_slice<'a>(v: &'a [u8]) -> (r: Result<Line<'a>, InvalidString>) ensures (r is Ok) == ok_Line(v@), r matches Ok(l) ==> l@ == v@ { unimplemented!() }
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((x, t)) => s@.len() > 0 && *x == s@.last() && t@ == s@.drop_last(), None => s@.len() == 0 };
/// Does nothing; marks that `r` is still live (Verus loses the final value of a reference that dies in a guarded match arm).
#[verifier::external_body]
pub fn touch<R: BufRead>(r: &mut R) ensures *final(r) == *old(r) { }
pub fn last_is_not(v: &Vec<u8>, b: u8) -> (r: bool) ensures r == !(v@.len() > 0 && v@.last() == b) { match v.last() { Some(x) => *x != b, None => true } }
/// bytes::BytesMut
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == suf(old(self)@, n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self)@.len() ensures r@ == pre(old(self)@, n as nat), final(self)@ == suf(old(self)@, n as nat) { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct NonZeroUsize { v: usize }
impl NonZeroUsize {
    pub closed spec fn val(&self) -> usize { self.v }
    pub fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures (r is Some) == (v != 0), r matches Some(x) ==> x.val() == v { if v != 0 { Some(NonZeroUsize { v }) } else { None } }
    pub fn get(self) -> (r: usize) ensures r == self.val() { self.v }
}
// ---- The messages, by the contracts proved in message.rs ----
//@for M in ServerMsg ClientMsg
#[verifier::external_body]
pub struct {M}<'a> { _p: core::marker::PhantomData<&'a u8> }
pub uninterp spec fn {M}_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn {M}_is<'a>(m: {M}<'a>, s: Seq<u8>) -> bool;
impl<'a> {M}<'a> {
    #[verifier::external_body]
    pub fn parse(msg: Result<Line<'a>, InvalidString>) -> (r: Result<{M}<'a>, ParseError>)
        ensures (r is Ok) == (msg matches Ok(l) && {M}_ok(l@)), r matches Ok(m) ==> {M}_is(m, msg->Ok_0@) { unimplemented!() }
}
//@endfor
// ---- Specification ----
//@include readspec.inc
/// Where a frame of the codec ends: behind a newline or NUL, or at the limit.
pub open spec fn frame_end(t: Seq<u8>, limit: nat, n: int) -> bool {
    0 < n <= t.len() && (n >= limit || t[n - 1] == 10 || t[n - 1] == 0) && (n == 1 || n - 1 < limit) && forall|i: int| 0 <= i < n - 1 ==> #[trigger] t[i] != 10 && t[i] != 0
}
pub open spec fn frame_open(t: Seq<u8>, limit: nat) -> bool { (t.len() == 0 || t.len() < limit) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 10 && t[i] != 0 }
proof fn frame_unique(t: Seq<u8>, limit: nat, n: int, m: int)
    requires frame_end(t, limit, n), frame_end(t, limit, m),
    ensures n == m,
{
    if n < m { let i = n - 1; assert(t[i] == t[n - 1]); }
    if m < n { let i = m - 1; assert(t[i] == t[m - 1]); }
}
pub open spec fn trim(s: Seq<u8>) -> Seq<u8> { suf(s, blanks(s)) }
/// C10: whatever arrives in whatever pieces, the codec finds the same frames.
proof fn frame_more(s: Seq<u8>, x: Seq<u8>, limit: nat)
    ensures
        frame_open(trim(s), limit) ==> trim(trim(s) + x) == trim(s + x),
        forall|n: int| #[trigger] frame_end(trim(s), limit, n) ==> frame_end(trim(s + x), limit, n) && pre(trim(s + x), n as nat) == pre(trim(s), n as nat) && suf(trim(s + x), n as nat) == suf(trim(s), n as nat) + x,
{
    let t = trim(s);
    let k = blanks(s);
    blanks_of(s);
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < k implies ascii_ws(#[trigger] (s + x)[i]) by { assert((s + x)[i] == s[i]); }
        assert((s + x)[k as int] == s[k as int]);
        blanks_is(s + x, k as int);
        assert(t[0] == s[k as int]);
        assert(trim(s + x) =~= t + x);
        blanks_is(t + x, 0);
        assert(trim(t + x) =~= t + x);
        assert forall|n: int| #[trigger] frame_end(t, limit, n) implies frame_end(trim(s + x), limit, n) && pre(trim(s + x), n as nat) == pre(t, n as nat) && suf(trim(s + x), n as nat) == suf(t, n as nat) + x by {
            let y = t + x;
            assert(y[n - 1] == t[n - 1]);
            assert forall|i: int| 0 <= i < n - 1 implies #[trigger] y[i] != 10 && y[i] != 0 by { assert(y[i] == t[i]); }
            assert(y =~= trim(s + x));
            assert(0 < n <= y.len());
            assert(n >= limit || y[n - 1] == 10 || y[n - 1] == 0);
            assert(frame_end(y, limit, n));
            assert(pre(y, n as nat) =~= pre(t, n as nat));
            assert(suf(y, n as nat) =~= suf(t, n as nat) + x);
        }
    } else {
        blanks_of(x);
        let j = blanks(x);
        assert forall|i: int| 0 <= i < k + j implies ascii_ws(#[trigger] (s + x)[i]) by { if i < k { assert((s + x)[i] == s[i]); } else { assert((s + x)[i] == x[i - k]); } }
        if j < x.len() { assert((s + x)[(k + j) as int] == x[j as int]); }
        blanks_is(s + x, (k + j) as int);
        assert(t + x =~= x);
        assert(trim(s + x) =~= trim(x));
    }
}
/// C10: the codec and the readers agree on every line that does not begin with whitespace and holds no NUL.
proof fn agree(line: Seq<u8>, more: Seq<u8>, limit: nat)
    requires no_nl(line), line.len() > 0, !ascii_ws(line[0]), forall|i: int| 0 <= i < line.len() ==> #[trigger] line[i] != 0, line.len() < limit,
    ensures ({
        let s = line + seq![10u8] + more;
        trim(s) == s && frame_end(s, limit, (line.len() + 1) as int) && pre(s, line.len() + 1) == line + seq![10u8] && suf(s, line.len() + 1) == more
        && next(s, limit) == Next::Line(strip(line), more) }),
{
    let s = line + seq![10u8] + more;
    assert(s[0] == line[0]);
    blanks_is(s, 0);
    assert(trim(s) =~= s);
    assert(s[line.len() as int] == 10);
    assert forall|i: int| 0 <= i < line.len() implies #[trigger] s[i] != 10 && s[i] != 0 by { assert(s[i] == line[i]); }
    until_is(s, 10, line.len() as int);
    assert(pre(s, line.len() + 1) =~= line + seq![10u8]);
    assert(pre(s, line.len()) =~= line);
    assert(suf(s, line.len() + 1) =~= more);
    strip_of(line);
    if strip(line).len() == 0 { assert(line[0] == 13); }
}
proof fn strip_of(s: Seq<u8>)
    ensures strip(s).len() <= s.len(), strip(s) == pre(s, strip(s).len()), forall|i: int| strip(s).len() <= i < s.len() ==> #[trigger] s[i] == 13, strip(s).len() > 0 ==> strip(s).last() != 13,
    decreases s.len(),
{
    if s.len() > 0 && s.last() == 13 {
        strip_of(s.drop_last());
        let d = s.drop_last();
        assert forall|i: int| strip(s).len() <= i < s.len() implies #[trigger] s[i] == 13 by { if i < d.len() { assert(d[i] == s[i]); } }
        assert(strip(s) =~= pre(s, strip(s).len()));
    } else { assert(pre(s, s.len()) =~= s); }
}
proof fn until_part(b: Seq<u8>, a: Seq<u8>, m: nat, limit: nat)
    requires no_nl(b), m <= a.len(), b.len() + m <= limit, b.len() < limit, m > 0, forall|i: int| 0 <= i < m - 1 ==> #[trigger] a[i] != 10, m == a.len() || b.len() + m == limit || a[m - 1] == 10,
    ensures a[m - 1] == 10 ==> until(b + a, 10) == b.len() + m - 1 && until(b + a, 10) < limit,
        a[m - 1] != 10 ==> (until(b + a, 10) >= limit || until(b + a, 10) == (b + a).len()) && no_nl(b + pre(a, m)),
        b + a == (b + pre(a, m)) + suf(a, m),
{
    let s = b + a;
    assert(s =~= (b + pre(a, m)) + suf(a, m));
    assert forall|i: int| 0 <= i < b.len() + m - 1 implies #[trigger] s[i] != 10 by { if i < b.len() { assert(s[i] == b[i]); } else { assert(s[i] == a[i - b.len()]); } }
    assert(s[b.len() + m - 1] == a[m - 1]);
    if a[m - 1] == 10 { until_is(s, 10, b.len() + m - 1); }
    else {
        until_of(s, 10);
        assert(until(s, 10) >= b.len() + m);
        let q = b + pre(a, m);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != 10 by { assert(q[i] == s[i]); }
    }
}
proof fn line_done(l: Seq<u8>, c: Seq<u8>, limit: nat)
    requires l.len() > 0, l.last() == 10, no_nl(l.drop_last()), l.len() <= limit,
    ensures next(l + c, limit) == if strip(l.drop_last()).len() == 0 { next(c, limit) } else { Next::Line(strip(l.drop_last()), c) },
{
    let s = l + c;
    let u = (l.len() - 1) as nat;
    assert forall|i: int| 0 <= i < u implies #[trigger] s[i] != 10 by { assert(s[i] == l.drop_last()[i]); }
    assert(s[u as int] == l.last());
    until_is(s, 10, u as int);
    assert(pre(s, u) =~= l.drop_last());
    assert(suf(s, u + 1) =~= c);
}
proof fn line_long(l: Seq<u8>, c: Seq<u8>, limit: nat)
    requires no_nl(l), l.len() >= limit,
    ensures next(l + c, limit) is Long,
{
    let s = l + c;
    until_of(s, 10);
    if until(s, 10) < limit { assert(s[until(s, 10) as int] == l[until(s, 10) as int]); }
}
proof fn line_open(l: Seq<u8>, limit: nat)
    requires no_nl(l), l.len() < limit,
    ensures next(l, limit) is End,
{ until_is(l, 10, l.len() as int); }
// ---- The code ----
//@for M,F in ServerMsg,server ClientMsg,client
//@item src/ircmsg/{F}.rs :: pub const MAX_LEN
//@sub /MAX_LEN/ => {M}_MAX_LEN ## associated constant
//@end
//@endfor
pub struct ClientCodec;
pub struct ServerCodec;
//@for C,M,N,F,T in ClientCodec,ServerMsg,8703,read_owning_from, ClientCodec,ServerMsg,8703,read_owning_from_tokio,Async ServerCodec,ClientMsg,4608,read_owning_from, ServerCodec,ClientMsg,4608,read_owning_from_tokio,Async ClientCodec,ServerMsg,8703,read_borrowing_from, ClientCodec,ServerMsg,8703,read_borrowing_from_tokio,Async ServerCodec,ClientMsg,4608,read_borrowing_from, ServerCodec,ClientMsg,4608,read_borrowing_from_tokio,Async
impl {C} {
//@fn @expanded :: impl {C} :: {F}
//@ret r
//@spec
        requires no_nl(old(buf)@),
        ensures match r {
            Ok(m) => (next(old(buf)@ + (*old(read)).coming(), {N}) matches Next::Line(body, rest) && {M}_is(m, body)
                && reads(old(buf)@ + (*old(read)).coming(), {N}, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| {M}_ok(x), Ok(body))),
            Err(e) => reads(old(buf)@ + (*old(read)).coming(), {N}, final(buf)@, (*final(read)).coming(), |x: Seq<u8>| {M}_ok(x), Err(e.why())),
        },
//@sub /\(impl [\w:]+ \+ \?Sized( \+ Unpin)?\)/ => impl BufRead ## unsized readers too
//@sub /std::io::Result<(.*)>/ => Result<\1, IoError> ## path
//@opt /async fn/ => fn ## a pause is no step of the function
//@opt /\.await/ => ## a pause is no step of the function
//@sub /use [\w:]+::\{[^;]*;/ => ## paths
//@opt /use crate::error::InvalidString;/ => ## path
//@sub /let mut read = (?:Async)?Read(?:Ext)?::take\(read, (.*)\);/ => let mut limit: u64 = \1; ## Take as its two parts
//@sub /read\.set_limit\((.*)\);/ => limit = \1; ## Take as its two parts
//@sub /Error::from\(/ => IoError::from_kind( ## path
//@sub /\(ParseError::InvalidLine\(InvalidString::Byte\(\*c\)\)\.into\(\)\)/ => (IoError::from_parse(ParseError::InvalidLine(InvalidString::Byte(*c)))) ## From
//@sub /ParseError::TooLong\.into\(\)/ => IoError::from_parse(ParseError::TooLong) ## From
//@sub /e\.into\(\)/ => IoError::from_parse(e) ## From
//@opt /\(std::mem::take\(buf\)\)/ => (line_from_vec(vec_take(buf))) ## TryFrom
//@opt /\(buf\.as_slice\(\)\)/ => (line_from_slice(buf.as_slice())) ## TryFrom
//@sub /buf\.last\(\) != Some\(&(b'.*?')\)/ => last_is_not(buf, \1) ## comparison of options
//@sub /{M}::MAX_LEN/ => {M}_MAX_LEN ## associated constant
//@sub /read\.read_until\(([^?]*)\)\?/ => (match take_read_until(read, &mut limit, \1) { Ok(n) => n, Err(e) => return Err(e) }) ## identity conversion of the error
//@sub /=> \{\s*(return\s)/ => => { touch(read); \1 ## no-op
//@sub /match c / => match *c ## pattern
//@loop 0
            invariant
                no_nl(buf@), s0 == old(buf)@ + (*old(read)).coming(),
                next(buf@ + (*read).coming(), {N}) == next(s0, {N}),
            decreases buf@.len() + (*read).coming().len(),
//@loop 1
                invariant
                    s0 == old(buf)@ + (*old(read)).coming(), gl.len() > 0, (gl.last() == 10 && no_nl(gl.drop_last()) && gl.len() <= {N}) || (no_nl(gl) && gl.len() >= {N}),
                    next(gl + gc, {N}) == next(s0, {N}), (*read).coming() == gc,
                    gl.last() == 10 ==> next(gl + gc, {N}) == if strip(gl.drop_last()).len() == 0 { next(gc, {N}) } else { Next::Line(strip(gl.drop_last()), gc) },
                    !found_newline ==> buf@ == gl,
                    found_newline ==> gl.last() == 10 && strip(buf@) == strip(gl.drop_last()) && buf@.len() < gl.len() && no_nl(buf@),
                ensures buf@.len() == 0,
                decreases buf@.len(),
//@before /match c /
                    proof {
                        if gl.last() == 10 { line_done(gl, gc, {N}); } else { line_long(gl, gc, {N}); }
                        let d = buf@.drop_last();
                        assert(*c == buf@.last());
                        assert(buf@.subrange(0, buf@.len() - 1) =~= d);
                    }
//@before /let buflen/
                    let ghost b0 = buf@;
                    let ghost a0 = (*read).coming();
                    proof { assert forall|m: nat| m <= a0.len() implies (b0 + #[trigger] pre(a0, m)) + suf(a0, m) == b0 + a0 by { assert((b0 + pre(a0, m)) + suf(a0, m) =~= b0 + a0); } }
//@before /return Err\(Error::from/
                            proof {
                                assert((*read).coming().len() == 0);
                                assert(buf@ + (*read).coming() =~= buf@);
                                line_open(buf@, {N});
                            }
//@before /let mut found_newline/
                    let ghost gl = buf@;
                    let ghost gc = (*read).coming();
                    proof {
                        assert(gl + gc == b0 + a0);
                        if gl.len() > b0.len() { until_part(b0, a0, (gl.len() - b0.len()) as nat, {N}); assert(gl.last() == a0[gl.len() - b0.len() - 1]);
                            if gl.last() == 10 { assert forall|i: int| 0 <= i < gl.len() - 1 implies #[trigger] gl.drop_last()[i] != 10 by { if i < b0.len() { assert(gl[i] == b0[i]); } else { assert(gl[i] == a0[i - b0.len()]); } } }
                        }
                        if gl.last() == 10 { line_done(gl, gc, {N}); } else { line_long(gl, gc, {N}); }
                    }
//@head
        let ghost s0 = buf@ + read.coming();
//@end
}
//@endfor

//@fn src/ircmsg/codec.rs :: strip_crlf
//@ret r
//@spec
        ensures (r is Ok) == (line@.len() > 0 && line@.last() == 10), r matches Ok(l) ==> l@ == strip(line@.drop_last()),
//@loop 0
            invariant strip(line@) == g,
            ensures !(line@.len() > 0 && line@.last() == 13),
            decreases line@.len(),
//@before /while let Some/
        let ghost g = strip(line@);
//@end
//@fn src/ircmsg/codec.rs :: scroll_buf
//@ret r
//@spec
        requires limit > 0,
        ensures final(buf)@ == trim(old(buf)@), match r { Some(n) => frame_end(trim(old(buf)@), limit as nat, n.val() as int), None => frame_open(trim(old(buf)@), limit as nat) },
//@head
        let ghost g = buf@;
//@before /buf\.advance\(trimmed_ws\);\s*None/
        proof { blanks_is(g, trimmed_ws as int); }
//@before /return NonZero/
                proof { blanks_is(g, trimmed_ws as int); }
//@sub /for byte in buf\.iter\(\)/ => let sl = buf.bytes(); let mut gi: usize = 0; while gi < sl.len() ## iteration by index: for loops take no continue
//@before /if leading_ws/
            let byte = &sl[gi]; gi += 1;
//@loop 0
            invariant
                g == buf@, sl@ == g, g == old(buf)@, gi <= g.len(), gi == trimmed_ws + end_idx, limit > 0, g.len() <= isize::MAX,
                forall|i: int| 0 <= i < trimmed_ws ==> ascii_ws(#[trigger] g[i]),
                leading_ws ==> end_idx == 0,
                !leading_ws ==> trimmed_ws < g.len() && !ascii_ws(g[trimmed_ws as int]) && end_idx > 0,
                end_idx == 0 || end_idx < limit,
                forall|i: int| trimmed_ws <= i < trimmed_ws + end_idx ==> #[trigger] g[i] != 10 && g[i] != 0,
            decreases g.len() - gi,
//@end
//@for C,M,N in ClientCodec,ServerMsg,8703 ServerCodec,ClientMsg,4608
impl {C} {
//@fn src/ircmsg/codec.rs :: impl Decoder for {C} :: decode
//@ret r
//@spec
        ensures ({
            let t = trim(old(src)@);
            match r {
                Ok(None) => frame_open(t, {N}) && final(src)@ == t,
                Ok(Some(m)) => exists|n: int| #[trigger] frame_end(t, {N}, n) && final(src)@ == suf(t, n as nat) && t[n - 1] == 10 && ok_Line(strip(pre(t, (n - 1) as nat))) && {M}_ok(strip(pre(t, (n - 1) as nat))) && {M}_is(m, strip(pre(t, (n - 1) as nat))),
                Err(e) => e.why() is Parse && exists|n: int| #[trigger] frame_end(t, {N}, n) && final(src)@ == suf(t, n as nat) && !(t[n - 1] == 10 && ok_Line(strip(pre(t, (n - 1) as nat))) && {M}_ok(strip(pre(t, (n - 1) as nat)))),
            }
        }),
//@sub /{M}::MAX_LEN/ => {M}_MAX_LEN ## associated constant
//@sub /Option<Self::Item>, Self::Error/ => Option<{M}<'static>>, IoError ## associated types
//@sub /Line::from_bytes\(strip_crlf\(&line_raw\)\?\)\?/ => (match line_from_slice(match strip_crlf(line_raw.bytes()) { Ok(x) => x, Err(e) => return Err(IoError::from_parse(e)) }) { Ok(x) => x, Err(e) => return Err(IoError::from_invalid(e)) }) ## From
//@sub /{M}::parse\((.*?)\)\?/ => (match {M}::parse(Ok(\1)) { Ok(x) => x, Err(e) => return Err(IoError::from_parse(e)) }) ## From
//@before /let line =/
        let ghost t = trim(old(src)@);
        proof { assert(line_raw@.drop_last() =~= pre(t, (split_at.val() - 1) as nat)); assert(line_raw@.last() == t[split_at.val() - 1]); assert(frame_end(t, {N}, split_at.val() as int)); }
//@end
}
//@endfor
//@link client.rs :: impl ClientCodec :: sub (*final(read)).same(&*old(read)), ->
read_owning_from = Self::read_owning_from(read, buf)
read_owning_from_tokio = Self::read_owning_from_tokio(read, buf)
read_borrowing_from = Self::read_borrowing_from(read, buf)
read_borrowing_from_tokio = Self::read_borrowing_from_tokio(read, buf)
//@end
}
fn main() {}
