//@meta property C13 C11
//@meta assume the base64 crate encodes and decodes as axioms b64_of and b64_only state (its decoder accepts exactly canonical encodings)
//@meta assume memory of a released Vec is overwritten by the wiping calls under contract in secretbuf
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
// ---- Trusted contracts on the base64 crate (STANDARD engine) and the standard library ----
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b64_reads(s: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn b64_char(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 || 48 <= b <= 57 || b == 43 || b == 47 || b == 61 }
/// Encoding: whole groups of four characters, none for nothing; decoding accepts exactly the encodings and undoes them.
pub axiom fn b64_of(s: Seq<u8>) ensures b64(s).len() % 4 == 0, (b64(s).len() == 0) == (s.len() == 0), b64_reads(b64(s)) == Some(s), forall|i: int| 0 <= i < b64(s).len() ==> b64_char(#[trigger] b64(s)[i]);
pub axiom fn b64_only(s: Seq<u8>) ensures b64_reads(s) matches Some(d) ==> b64(d) == s;
#[verifier::external_body]
pub struct Encoded { x: String }
impl Encoded {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    /// From<String> for Bytes
    #[verifier::external_body]
    pub fn into(self) -> (r: Bytes<'static>) ensures r@ == self@, !r.is_sec() { unimplemented!() }
}
#[verifier::external_body]
pub fn b64_encode(bytes: &[u8]) -> (r: Encoded) ensures r@ == b64(bytes@) { unimplemented!() }
#[verifier::external_body]
pub struct DecodeError { x: u8 }
#[verifier::external_body]
pub fn b64_decode<B: Raw>(v: B) -> (r: Result<Vec<u8>, DecodeError>) ensures (r is Ok) == (b64_reads(v.raw()) is Some), r matches Ok(d) ==> d@ == b64_reads(v.raw())->Some_0 { unimplemented!() }
/// AsRef<[u8]>
pub trait Raw { spec fn raw(&self) -> Seq<u8>; }
impl Raw for Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl Raw for &Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl Raw for &[u8] { open spec fn raw(&self) -> Seq<u8> { self@ } }
/// What `==` between a slice and a literal of one byte is.
pub fn slice_is(s: &[u8], b: u8) -> (r: bool) ensures r == (s@ == seq![b]) { proof { assert((s@ == seq![b]) == (s@ =~= seq![b])); } s.len() == 1 && s[0] == b }
impl<'a, T: BytesNewtype<'a>> Splitter<T> {
    #[verifier::external_body]
    pub fn is_secret(&self) -> (r: bool) ensures r == self.of().sec() { unimplemented!() }
}
/// names::PLUS
#[verifier::external_body]
pub fn plus_name() -> (r: Arg<'static>) ensures r@ == plus(), !r.is_sec() { unimplemented!() }
// ---- Specification ----
pub open spec fn plus() -> Seq<u8> { seq![43u8] }
/// C13: the pieces in which an encoding is sent.
pub open spec fn chunks(s: Seq<u8>, max: nat) -> Seq<Seq<u8>> decreases s.len() {
    if max == 0 { Seq::empty() }
    else if s.len() == 0 { seq![plus()] }
    else if s.len() < max { seq![s] }
    else { seq![pre(s, max)] + chunks(suf(s, max), max) }
}
pub open spec fn glue(c: Seq<Seq<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { c[0] + glue(c.drop_first()) } }
/// The pieces without a terminating "+".
pub open spec fn body(c: Seq<Seq<u8>>, whole: bool) -> Seq<Seq<u8>> { if whole { c.drop_last() } else { c } }
/// C13: the pieces concatenate to the encoding; all but the last have exactly the limit length, the last is shorter or the terminating "+"; how many there are.
proof fn chunks_of(s: Seq<u8>, max: nat)
    requires max > 0,
    ensures
        chunks(s, max).len() == s.len() / max + 1,
        forall|i: int| 0 <= i < chunks(s, max).len() - 1 ==> (#[trigger] chunks(s, max)[i]).len() == max,
        glue(body(chunks(s, max), s.len() % max == 0)) == s,
        if s.len() % max == 0 { chunks(s, max).last() == plus() } else { 0 < chunks(s, max).last().len() < max },
    decreases s.len(),
{
    let c = chunks(s, max);
    if s.len() < max {
        assert(s.len() / max == 0) by(nonlinear_arith) requires 0 <= s.len() < max;
        assert(s.len() % max == s.len()) by(nonlinear_arith) requires 0 <= s.len() < max;
        if s.len() > 0 { assert(c.drop_first() =~= Seq::empty()); assert(glue(c.drop_first()) =~= Seq::empty()); assert(glue(c) =~= s); } else { assert(c.drop_last() =~= Seq::empty()); assert(glue(c.drop_last()) =~= s); }
    } else {
        let t = suf(s, max);
        let d = chunks(t, max);
        chunks_of(t, max);
        assert(s.len() / max == t.len() / max + 1 && s.len() % max == t.len() % max) by(nonlinear_arith) requires t.len() + max == s.len(), max > 0;
        assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] c[i]).len() == max by { if i > 0 { assert(c[i] == d[i - 1]); } }
        assert(c.last() == d.last());
        let w = s.len() % max == 0;
        let b = body(c, w);
        assert(b.drop_first() =~= body(d, w));
        assert(b[0] == pre(s, max));
        assert(pre(s, max) + t =~= s);
    }
}
/// What a decoder that is fed `c` has answered at the end: the answer and how many pieces it took; None if it still waits.
pub open spec fn fed(buf: Seq<u8>, c: Seq<Seq<u8>>, max: nat) -> Option<(Option<Seq<u8>>, nat)> decreases c.len() {
    if c.len() == 0 { None }
    else if c[0].len() < max { Some((b64_reads(if c[0] == plus() { buf } else { buf + c[0] }), 1)) }
    else { match fed(buf + c[0], c.drop_first(), max) { Some((a, n)) => Some((a, n + 1)), None => None } }
}
/// C13: decoding the pieces yields the payload, at the last piece.
proof fn inverse(payload: Seq<u8>, max: nat)
    requires max >= 4, max % 4 == 0,
    ensures fed(Seq::empty(), chunks(b64(payload), max), max) == Some((Some(payload), chunks(b64(payload), max).len())),
{
    b64_of(payload);
    assert(Seq::<u8>::empty() + b64(payload) =~= b64(payload));
    feeding(Seq::empty(), b64(payload), max);
}
proof fn feeding(buf: Seq<u8>, s: Seq<u8>, max: nat)
    requires max >= 4, max % 4 == 0, s.len() % 4 == 0,
    ensures fed(buf, chunks(s, max), max) == Some((b64_reads(buf + s), chunks(s, max).len())),
    decreases s.len(),
{
    let c = chunks(s, max);
    if s.len() == 0 { assert(buf + s =~= buf); assert(c[0] == plus()); }
    else if s.len() < max { assert(s.len() != 1); assert(plus().len() == 1); assert(c[0] == s); }
    else {
        let t = suf(s, max);
        feeding(buf + pre(s, max), t, max);
        assert((buf + pre(s, max)) + t =~= buf + s);
        assert(c.drop_first() =~= chunks(t, max));
        assert(c[0] == pre(s, max));
    }
}
// ---- The code ----
//@item src/string/base64.rs :: pub struct ChunkEncoder
//@end
impl ChunkEncoder {
    pub closed spec fn inv(&self) -> bool { self.splitter matches Ok(s) ==> self.max > 0 && s.rem().len() > 0 && forall|i: int| 0 <= i < s.rem().len() ==> b64_char(#[trigger] s.rem()[i]) }
    /// The pieces still to come; whether they are secret.
    pub closed spec fn left(&self) -> Seq<u8> { match self.splitter { Ok(s) => s.rem(), Err(_) => Seq::empty() } }
    pub closed spec fn pending(&self) -> Seq<Seq<u8>> { chunks(self.left(), self.max as nat) }
    pub closed spec fn secret(&self) -> bool { match self.splitter { Ok(s) => s.of().is_sec(), Err(b) => b } }
//@fn src/string/base64.rs :: impl ChunkEncoder :: new
//@ret r
//@spec
        ensures r.inv(), r.pending() == chunks(b64(bytes@), max as nat), max > 0 ==> r.secret() == secret,
//@sub /new<B: AsRef<\[u8\]>>\(bytes: B,/ => new(bytes: &[u8], ## AsRef
//@sub /use base64::engine::[^;]*;/ => ## path
//@sub /ENGINE\.encode\(bytes\)/ => b64_encode(bytes) ## path
//@head
        proof { b64_of(bytes@); }
//@before /Ok\(Splitter::new/
            proof {
                assert forall|i: int| 0 <= i < encoded@.len() implies !bad_Arg(#[trigger] encoded@[i]) by { assert(b64_char(encoded@[i])); }
                assert(b64_char(encoded@[0]));
                assert(ok_Arg(encoded@));
            }
//@end
//@fn src/string/base64.rs :: impl ChunkEncoder :: empty
//@ret r
//@spec
        ensures r.inv(), r.pending() == Seq::<Seq<u8>>::empty(),
//@end
//@fn src/string/base64.rs :: impl ChunkEncoder :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self.pending().len() == 0),
//@head
        proof { if self.max > 0 { chunks_of(self.left(), self.max as nat) } }
//@end
//@fn src/string/base64.rs :: impl Iterator for ChunkEncoder :: next
//@ret r
//@spec
        requires old(self).inv(),
        ensures
            final(self).inv(),
            match r {
                Some(c) => old(self).pending().len() > 0 && c@ == old(self).pending()[0] && final(self).pending() == old(self).pending().drop_first() && c.is_sec() == old(self).secret() && (final(self).pending().len() > 0 ==> final(self).secret() == old(self).secret()),
                None => old(self).pending().len() == 0 && final(self).pending() == old(self).pending(),
            },
//@sub /Option<Self::Item>/ => Option<Arg<'static>> ## associated type
//@sub /splitter\.save_end\(\)\.until_count\((.*?)\)\.rest::<Arg>\(\)/ => splitter.save_end_until_count_rest::<Arg>(\1) ## chain of guards
//@sub /crate::names::PLUS/ => plus_name() ## constant
//@head
        let ghost M = self.max as nat;
        let ghost S = self.left();
        proof {
            let n = count(S, self.max);
            if S.len() > 0 { assert(b64_char(S[0])); assert(n > 0 ==> pre(S, n)[0] == S[0]); }
            if 0 < M { assert(chunks(S, M).drop_first() =~= if S.len() < M { Seq::empty() } else { chunks(suf(S, M), M) }); if S.len() < M { assert(pre(S, S.len()) =~= S); } }
            if n == S.len() { assert(suf(S, n) =~= Seq::empty()); }
            assert forall|i: int| 0 <= i < suf(S, n).len() implies b64_char(#[trigger] suf(S, n)[i]) by { assert(suf(S, n)[i] == S[i + n]); }
        }
//@end
//@fn src/string/base64.rs :: impl std::iter::ExactSizeIterator for ChunkEncoder :: len
//@ret r
//@spec
        requires self.inv(), self.left().len() < usize::MAX,
        ensures r == self.pending().len(),
//@head
        proof { if self.max > 0 { chunks_of(self.left(), self.max as nat) } }
//@end
//@fn src/string/base64.rs :: impl Iterator for ChunkEncoder :: size_hint
//@ret r
//@spec
        requires self.inv(), self.left().len() < usize::MAX,
        ensures r.0 == self.pending().len(), r.1 == Some(r.0),
//@sub /std::iter::ExactSizeIterator::len\(self\)/ => self.len() ## path
//@end
}
//@item src/string/base64.rs :: pub struct ChunkDecoder
//@end
impl ChunkDecoder {
    pub closed spec fn buf(&self) -> Seq<u8> { self.0@ }
    pub closed spec fn limit(&self) -> nat { self.1 as nat }
    /// One more piece, as `fed` describes it.
    pub open spec fn took(&self, c: Seq<u8>, r: Option<Option<Seq<u8>>>, new: &Self) -> bool {
        new.limit() == self.limit() && if c.len() < self.limit() { r == Some(b64_reads(if c == plus() { self.buf() } else { self.buf() + c })) && new.buf().len() == 0 } else { r is None && new.buf() == self.buf() + c }
    }
//@fn src/string/base64.rs :: impl ChunkDecoder :: new
//@ret r
//@spec
        ensures r.buf() == Seq::<u8>::empty(), r.limit() == chunk_len,
//@end
//@fn src/string/base64.rs :: impl ChunkDecoder :: decode
//@ret r
//@spec
        ensures final(self).limit() == old(self).limit(), final(self).buf().len() == 0, (r is Ok) == (b64_reads(old(self).buf()) is Some), r matches Ok(b) ==> b@ == b64_reads(old(self).buf())->Some_0,
//@sub /use base64::engine::[^;]*;/ => ## path
//@sub /ENGINE\.decode\(/ => b64_decode( ## path
//@opt /\.map\(Bytes::from\)/ => .map(|v: Vec<u8>| -> (b: Bytes<'static>) ensures b@ == v@ { Bytes::from_vec(v) }) ## From
//@opt /Bytes::from\(/ => Bytes::from_vec( ## From
//@end
//@fn src/string/base64.rs :: impl ChunkDecoder :: add
//@ret r
//@spec
        ensures old(self).took(chunk@, match r { None => None, Some(Ok(b)) => Some(Some(b@)), Some(Err(_)) => Some(None) }, final(self)),
//@sub /add<B: AsRef<\[u8\]>>\(&mut self, chunk: B\)/ => add(&mut self, chunk: &[u8]) ## AsRef
//@sub /let chunk = chunk\.as_ref\(\);/ => ## AsRef
//@sub /self\.0\.extend_from_slice\((\w+)\);/ => self.0.extend_from_slice(\1); proof { assert(self.0@ =~= old(self).0@ + \1@); } ## ghost step
//@sub /chunk != b"\+"/ => !slice_is(chunk, b'+') ## comparison of slices
//@end
}
// ---- Linked contracts ----
//@link sasl.rs :: impl ChunkEncoder :: inv ChunkEncoder :: sub SecretBuf->&[u8];&mut self->&mut self
new next
//@end
//@link sasl.rs :: impl ChunkDecoder
new decode add
//@end
}
fn main() {}
