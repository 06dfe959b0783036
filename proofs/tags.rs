//@meta property C05 C01 C02 C25
//@meta assume Ord on keys is a total order
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include mapstub.inc
//@include tagmap.inc
//@include io.inc
// ---- escape and unescape, by the contracts proved in C04_escape.rs ----
#[verifier::external_body]
pub fn escape<'a>(v: NoNul<'a>) -> (r: Word<'a>) ensures r@ == esc(v@), r.is_sec() == v.is_sec() { unimplemented!() }
#[verifier::external_body]
pub fn unescape<'a>(v: NoNul<'a>) -> (r: NoNul<'a>) ensures r@ == unesc(v@).0, r.is_sec() == v.is_sec() { unimplemented!() }
// ---- Specification ----
/// What an element of the map is keyed by.
pub struct TagX;
pub type E<'a> = ((Key<'a>, NoNul<'a>), ());
impl<'a> Keyed<E<'a>> for TagX {
    type K = Seq<u8>;
    open spec fn key(e: E<'a>) -> Seq<u8> { e.0.0@ }
    open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { before(a, b) }
    proof fn order() { bytes_order(); }
}
pub open spec fn tv<'a>(e: E<'a>) -> Tag { (e.0.0@, e.0.1@) }
pub open spec fn tvs<'a>(s: Seq<E<'a>>) -> Seq<Tag> { Seq::new(s.len(), |i: int| tv(s[i])) }
pub open spec fn oview<'a>(e: Option<NoNul<'a>>) -> Option<Seq<u8>> { match e { Some(t) => Some(t@), None => None } }
/// The map of objects and the map of their contents say the same.
pub proof fn at_tv<'a>(s: Seq<E<'a>>, k: Seq<u8>)
    ensures at::<Tag, PairX>(tvs(s), k) == (match at::<E, TagX>(s, k) { Some(e) => Some(tv(e)), None => None::<Tag> }),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(tvs(s).drop_last() =~= tvs(s.drop_last()));
        at_tv(s.drop_last(), k);
    }
}
pub proof fn all_tv<'a>(s: Seq<E<'a>>)
    ensures forall|k: Seq<u8>| #[trigger] at::<Tag, PairX>(tvs(s), k) == (match at::<E, TagX>(s, k) { Some(e) => Some(tv(e)), None => None::<Tag> }),
{ assert forall|k: Seq<u8>| #[trigger] at::<Tag, PairX>(tvs(s), k) == (match at::<E, TagX>(s, k) { Some(e) => Some(tv(e)), None => None::<Tag> }) by { at_tv(s, k); } }
pub proof fn alike_tv<'a>(s: Seq<E<'a>>, t: Seq<E<'a>>)
    requires alike::<E, TagX>(s, t),
    ensures same_tags(tvs(s), tvs(t)),
{
    all_tv(s); all_tv(t);
    assert forall|k: Seq<u8>| #[trigger] at::<Tag, PairX>(tvs(s), k) == at::<Tag, PairX>(tvs(t), k) by { assert(at::<E, TagX>(s, k) == at::<E, TagX>(t, k)); }
}
pub proof fn with_tv<'a>(s: Seq<E<'a>>, t: Seq<E<'a>>, k: Seq<u8>, e: Option<E<'a>>)
    requires with::<E, TagX>(s, t, k, e),
    ensures one_changed(tvs(s), tvs(t), k, match e { Some(e) => Some(e.0.1@), None => None::<Seq<u8>> }),
{
    all_tv(s); all_tv(t);
    assert forall|q: Seq<u8>| #[trigger] lookup(tvs(t), q) == if q == k { (match e { Some(e) => Some(e.0.1@), None => None::<Seq<u8>> }) } else { lookup(tvs(s), q) } by {
        assert(at::<E, TagX>(t, q) == if q == k { e } else { at::<E, TagX>(s, q) });
    }
}
pub proof fn strict_tv<'a>(s: Seq<E<'a>>)
    requires strict::<E, TagX>(s),
    ensures strict::<Tag, PairX>(tvs(s)),
{
    assert forall|i: int, j: int| 0 <= i < j < tvs(s).len() implies before(PairX::key(#[trigger] tvs(s)[i]), PairX::key(#[trigger] tvs(s)[j])) by {
        assert(before(TagX::key(s[i]), TagX::key(s[j])));
    }
}
/// transmute of the lifetime: nothing may be borrowed.
#[verifier::external_body]
pub unsafe fn other_lifetime<'a, 'b>(t: Tags<'a>) -> (r: Tags<'b>)
    requires forall|i: int| 0 <= i < t.pairs.s().len() ==> (#[trigger] t.pairs.s()[i]).0.0.free() && t.pairs.s()[i].0.1.free(),
    ensures r.t() == t.t() { unimplemented!() }
impl<'a> Tags<'a> {
    pub open spec fn t(&self) -> Seq<Tag> { tvs(self.pairs.s()) }
    pub proof fn valid(&self)
        ensures tags_ok(self.t()), strict::<Tag, PairX>(self.t()), self.t().len() <= isize::MAX,
    {
        self.pairs.inv();
        strict_tv(self.pairs.s());
        assert forall|i: int| 0 <= i < self.t().len() implies ok_Key(#[trigger] self.t()[i].0) && ok_NoNul(self.t()[i].1) by {
            valid_Key(self.pairs.s()[i].0.0); valid_NoNul(self.pairs.s()[i].0.1);
        }
    }
}
impl<'a, 'b> TagsEditGuard<'a, 'b> {
    pub open spec fn t(&self) -> Seq<Tag> { tvs(self.0.s()) }
}
/// The property, over the contracts of the code alone: what is written parses back to an equal Tags.
fn round_trip_property<'a, W: Write>(tags: &Tags<'a>, w: &mut W, text: Word<'a>)
    requires tags.t().len() > 0, seq![64u8] + text@ == write_tags(tags.t()),
{
    let back = Tags::parse(text);
    proof {
        let s = tags.t();
        tags.valid();
        back.valid();
        written_tail(s);
        assert(text@ =~= (seq![64u8] + text@).drop_first());
        assert(tags_tail(s) =~= (seq![64u8] + tags_tail(s)).drop_first());
        tags_round_trip(s);
        assert(same_tags(back.t(), s));
        canonical::<Tag, PairX>(back.t(), s);
    }
    assert(back.t() == tags.t());
}
// ---- The code ----
//@item src/ircmsg/tags.rs :: struct Tags
//@attr
pub
//@sub /pairs: FlatMap<.*>,/ => pub pairs: FlatMap<E<'a>, TagX>, ## visibility; extractor by its specification
//@end
//@item src/ircmsg/tags.rs :: struct TagsEditGuard
//@attr
pub
//@sub /\(\s*FlatMapEditGuard<[\s\S]*\)/ => (pub FlatMapEditGuard<'b, E<'a>, TagX>) ## visibility; extractor by its specification
//@end
impl<'a> Tags<'a> {
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: new
//@ret r
//@spec
        ensures r.t().len() == 0,
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: edit
//@ret r
//@spec
        ensures r.t() == old(self).t(), final(self).pairs == r.0.fate(),
//@end
/// The change of lifetime asks that nothing is borrowed any more.
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: owning
//@attr
#[verifier::loop_isolation(false)]
//@ret r
//@spec
        ensures r.t() == self.t(),
//@sub /mut self/ => self ## rebinding of self
//@sub /use crate::owning::MakeOwning;/ => let mut self_ = self; ## rebinding of self; path
//@sub /for \(\((\w+), (\w+)\), _\) in self\.pairs\.as_slice_mut\(\) (\x01\d+\x01)\{/ => let pairs_ = self_.pairs.as_slice_mut(); let n_ = pairs_.len(); for i_ in 0..n_ \3{ let e_ = &mut pairs_[i_]; let (\1, \2) = (&mut e_.0.0, &mut e_.0.1); ## slice iterator
//@sub /unsafe \{ std::mem::transmute\(self\) \}/ => unsafe { other_lifetime(self_) } ## transmute
//@loop 0
            invariant n_ == pairs_@.len(), n_ == self.pairs.s().len(), forall|i: int| 0 <= i < n_ ==> tv(#[trigger] pairs_@[i]) == tv(self.pairs.s()[i]),
                forall|i: int| 0 <= i < i_ ==> (#[trigger] pairs_@[i]).0.0.free() && pairs_@[i].0.1.free(),
//@before /unsafe \{ std::mem::transmute/
        proof {
            assert forall|i: int| 0 <= i < n_ implies TagX::key(#[trigger] pairs_@[i]) == TagX::key(self.pairs.s()[i]) by { assert(tv(pairs_@[i]) == tv(self.pairs.s()[i])); }
            assert(tvs(pairs_@) =~= self.t());
        }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: get
//@ret r
//@spec
        ensures key is Err ==> r is None, key matches Ok(k) ==> (match r { Some(v) => lookup(self.t(), k@) == Some(v@), None => lookup(self.t(), k@) is None }),
//@sub /key: impl TryInto<Key<'a>>/ => key: Result<Key<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /key\.try_into\(\)\.ok\(\)\?\.borrow\(\)/ => key.ok()?.as_ref() ## conversion; Borrow
//@sub /(self\.pairs\.get\(.*\))\.map\(\|\(\(_, v\), _\)\| v\)/ => match \1 { Some(e) => Some(&e.0.1), None => None } ## Option::map
//@head
        proof { all_tv(self.pairs.s()); }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: get_mut
//@ret r
//@spec
        ensures key is Err ==> r is None, key matches Ok(k) ==> (match r {
                Some(v) => lookup(old(self).t(), k@) == Some(v@) && one_changed(old(self).t(), final(self).t(), k@, Some(final(v)@)),
                None => lookup(old(self).t(), k@) is None && final(self).t() == old(self).t() }),
//@sub /key: impl TryInto<Key<'a>>/ => key: Result<Key<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /key\.try_into\(\)\.ok\(\)\?\.borrow\(\)/ => key.ok()?.as_ref() ## conversion; Borrow
//@sub /(self\.pairs\.get_mut\(.*\))\.map\(\|\(\(_, v\), _\)\| v\)/ => match \1 { Some(e) => Some(&mut e.0.1), None => None } ## Option::map
//@head
        proof {
            all_tv(self.pairs.s());
            assert forall|k: Seq<u8>| #[trigger] at::<E, TagX>(self.pairs.s(), k) is Some implies at::<E, TagX>(self.pairs.s(), k)->Some_0.0.0@ == k by { at_some::<E, TagX>(self.pairs.s(), k); }
            assert forall|t: Seq<E<'a>>, k: Seq<u8>, e: E<'a>| #[trigger] with::<E, TagX>(self.pairs.s(), t, k, Some(e)) implies one_changed(self.t(), tvs(t), k, Some(e.0.1@)) by { with_tv(self.pairs.s(), t, k, Some(e)); }
        }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(w).out() == old(w).out() + write_tags(self.t()),
//@sub /\(impl std::io::Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /let mut prefix = / => let mut prefix: &[u8] = ## type
//@sub /for \(\(key, value\), _\) in self\.pairs\.as_slice\(\)(?= )/ => for e in it: self.pairs.as_slice() ## iteration over the slice
//@loop 0
            invariant
                prefix@ == seq![if it.index@ == 0 { 64u8 } else { 59u8 }],
                w.out() == old(w).out() + write_tags(self.t().take(it.index@)),
//@sub /w\.write_all\(prefix\)/ => let key = &e.0.0; let value = &e.0.1; w.write_all(prefix) ## pattern
//@before /w\.write_all\(prefix\)/
            let ghost o = w.out();
            proof {
                let i = it.index@;
                assert(self.t().take(i + 1).drop_last() =~= self.t().take(i));
                assert(self.t().take(i + 1).last() == tv(*e));
            }
//@after /prefix = [^=]*?;\s*(?=\})/
            proof { assert(w.out() =~= o + seq![if it.index@ == 0 { 64u8 } else { 59u8 }] + write_tag(tv(*e))); assert(w.out() =~= old(w).out() + write_tags(self.t().take(it.index@ + 1))); }
//@before /Ok\(\(\)\)/
        proof { assert(self.t().take(self.t().len() as int) =~= self.t()); }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> Tags<'a> :: parse
//@ret r
//@spec
        ensures same_tags(r.t(), parse_tags(word@)),
//@sub /word: impl Into<Word<'a>>/ => word: Word<'a> ## the conversion at the call is the caller's
//@sub /let word = word\.into\(\);/ => ## identity conversion
//@sub /for c in word\.as_bytes\(\)(?= )/ => for c in it: word.as_bytes() ## names the loop's ghost iterator
//@sub /Vec::with_capacity\(size_hint\)/ => Vec::<E<'a>>::with_capacity(size_hint) ## type
//@sub /splitter\.save_end\(\)\.until_byte_eq\(b';'\)\.rest_or_default::<Word>\(\)/ => splitter.save_end_until_byte_eq_rest_or_default::<Word>(b';') ## chain, proved in splitter.rs
//@sub /splitter\.save_end\(\)\.until_byte_eq\(b';'\)\.rest::<NoNul>\(\)/ => splitter.save_end_until_byte_eq_rest::<NoNul>(b';') ## chain, proved in splitter.rs
//@head
        proof { valid_Word(word); }
//@loop 0
            invariant size_hint <= 1 + it.index@, it.index@ <= word@.len(), word@.len() <= isize::MAX,
//@loop 1
            invariant
                parse_tags(word@) == tvs(tags@) + parse_tags(splitter.rem()),
            decreases splitter.rem().len(),
//@before /let Ok\(key\)/
            let ghost a = splitter.rem();
            let ghost t0 = tags@;
            proof {
                span_of::<Key>(a);
                until_of(a, 59);
                parse_tags_ends_pub(a);
                splitter.chars();
                let t = if a[0] == 58 { suf(a, until(a, 59)) } else { a };
                skip_of::<Key>(t);
            }
//@after /tags\.push\([^;]*;/
            proof {
                assert(tvs(tags@) =~= tvs(t0).push(tv(tags@.last())));
                let k = span::<Key>(a);
                let t = suf(a, k);
                let v = t.drop_first();
                if t.len() > 0 { until_of(v, 59); if until(v, 59) < v.len() { assert(suf(v, until(v, 59)).drop_first() =~= suf(v, until(v, 59) + 1)); } }
                if t.len() == 0 { assert(tv(tags@.last()).1 =~= Seq::empty()); assert(parse_tags(splitter.rem()) =~= Seq::empty()); }
                else if t[0] == 61 { assert(splitter.rem() =~= if until(v, 59) < v.len() { suf(v, until(v, 59) + 1) } else { Seq::empty() }); }
                else { assert(splitter.rem() =~= v); }
                assert(parse_tags(a) =~= seq![tv(tags@.last())] + parse_tags(splitter.rem()));
                assert(parse_tags(word@) =~= tvs(tags@) + parse_tags(splitter.rem()));
            }
//@before /Tags \{ pairs: FlatMap::from_vec/
        proof { assert(parse_tags(splitter.rem()) =~= Seq::empty()); assert(tvs(tags@) =~= parse_tags(word@)); }
        proof { assert forall|t: Seq<E<'a>>| #[trigger] alike::<E, TagX>(t, tags@) implies same_tags(tvs(t), parse_tags(word@)) by { alike_tv(t, tags@); } }
//@end
}
impl<'a, 'b> TagsEditGuard<'a, 'b> {
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: get
//@ret r
//@spec
        ensures key is Err ==> r is None, key matches Ok(k) ==> (match r { Some(v) => lookup(self.t(), k@) == Some(v@), None => lookup(self.t(), k@) is None }),
//@sub /key: impl TryInto<Key<'a>>/ => key: Result<Key<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /key\.try_into\(\)\.ok\(\)\?\.borrow\(\)/ => key.ok()?.as_ref() ## conversion; Borrow
//@head
        proof { all_tv(self.0.s()); }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: get_mut
//@ret r
//@spec
        ensures final(self).0.fate() == old(self).0.fate(), key is Err ==> r is None, key matches Ok(k) ==> (match r {
                Some(v) => lookup(old(self).t(), k@) == Some(v@) && one_changed(old(self).t(), final(self).t(), k@, Some(final(v)@)),
                None => lookup(old(self).t(), k@) is None && final(self).t() == old(self).t() }),
//@sub /key: impl TryInto<Key<'a>>/ => key: Result<Key<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /key\.try_into\(\)\.ok\(\)\?\.borrow\(\)/ => key.ok()?.as_ref() ## conversion; Borrow
//@head
        proof {
            all_tv(self.0.s());
            assert forall|k: Seq<u8>| #[trigger] at::<E, TagX>(self.0.s(), k) is Some implies at::<E, TagX>(self.0.s(), k)->Some_0.0.0@ == k by { at_some::<E, TagX>(self.0.s(), k); }
            assert forall|t: Seq<E<'a>>, k: Seq<u8>, e: E<'a>| #[trigger] with::<E, TagX>(self.0.s(), t, k, Some(e)) implies one_changed(self.t(), tvs(t), k, Some(e.0.1@)) by { with_tv(self.0.s(), t, k, Some(e)); }
        }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: insert_pair
//@ret r
//@spec
        ensures final(self).0.fate() == old(self).0.fate(), one_changed(old(self).t(), final(self).t(), key@, Some(value@)), oview(r) == lookup(old(self).t(), key@),
//@sub /key: impl Into<Key<'a>>/ => key: Key<'a> ## the conversion at the call is the caller's
//@sub /value: impl Into<NoNul<'a>>/ => value: NoNul<'a> ## the conversion at the call is the caller's
//@sub /(key|value)\.into\(\)/ => \1 ## identity conversion
//@head
        proof {
            all_tv(self.0.s());
            assert forall|t: Seq<E<'a>>, k: Seq<u8>, e: E<'a>| #[trigger] with::<E, TagX>(self.0.s(), t, k, Some(e)) implies one_changed(self.t(), tvs(t), k, Some(e.0.1@)) by { with_tv(self.0.s(), t, k, Some(e)); }
        }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: insert_key
//@ret r
//@spec
        ensures final(self).0.fate() == old(self).0.fate(), one_changed(old(self).t(), final(self).t(), key@, Some(Seq::<u8>::empty())), oview(r) == lookup(old(self).t(), key@),
//@sub /key: impl Into<Key<'a>>/ => key: Key<'a> ## the conversion at the call is the caller's
//@sub /key\.into\(\)/ => key ## identity conversion
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: remove
//@ret r
//@spec
        ensures final(self).0.fate() == old(self).0.fate(), one_changed(old(self).t(), final(self).t(), key@, None), oview(r) == lookup(old(self).t(), key@),
//@sub /key: impl Into<Key<'a>>/ => key: Key<'a> ## the conversion at the call is the caller's
//@sub /key\.into\(\)\.borrow\(\)/ => key.as_ref() ## identity conversion; Borrow
//@head
        proof {
            all_tv(self.0.s());
            assert forall|t: Seq<E<'a>>, k: Seq<u8>| #[trigger] with::<E, TagX>(self.0.s(), t, k, None) implies one_changed(self.t(), tvs(t), k, None) by { with_tv(self.0.s(), t, k, None); }
        }
//@end
//@fn src/ircmsg/tags.rs :: impl<'a> TagsEditGuard<'a, '_> :: clear
//@spec
        ensures final(self).0.fate() == old(self).0.fate(), final(self).t().len() == 0,
//@end
}
impl<'a> Tags<'a> {
//@fn @expanded :: impl<'a> Tags<'a> :: is_empty
//@ret r
//@spec
        ensures r == (self.t().len() == 0),
//@end
//@fn @expanded :: impl<'a> Tags<'a> :: len
//@ret r
//@spec
        ensures r == self.t().len(),
//@end
}
// ---- Linked contracts ----
//@link msgparts.inc :: impl<'a> Tags<'a>
new parse is_empty owning
write_to = self.write_to(w)
//@end
}
fn main() {}
