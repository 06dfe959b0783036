//@meta property C05
//@meta assume Ord on keys is a total order; the byte strings of two keys are equal only if the keys are
//@meta assume iteration over a name map (NameMapIter) hands out the keys of the slice one by one; parsing a value (NameValued) is an unspecified function of the union
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
verus! {
//@include std.inc
//@include mapspec.inc
//@include mapstub.inc
// ---- Trusted contracts: names and their classes (generic associated types at 'static) ----
#[verifier::external_body]
pub struct ParseError { p: u8 }
/// A class of names: how the name is found in what a map stores.
pub trait NameClass: Sized {
    type Raw;
    type Union;
    spec fn text(t: &Self::Raw) -> Seq<u8>;
    spec fn tag(u: Self::Union) -> Seq<u8>;
    spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool;
    proof fn order()
        ensures
            forall|a: Seq<u8>| !#[trigger] Self::lt(a, a),
            forall|a: Seq<u8>, b: Seq<u8>| #[trigger] Self::lt(a, b) || Self::lt(b, a) || a == b,
            forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] Self::lt(a, b) && #[trigger] Self::lt(b, c) ==> Self::lt(a, c);
    /// Borrow<[u8]>
    fn borrow(t: &Self::Raw) -> (r: &[u8]) ensures r@ == Self::text(t);
    fn get_tag(u: &Self::Union) -> (r: &Self::Raw) ensures Self::text(r) == Self::tag(*u);
}
pub trait Name<C: NameClass>: Sized {
    spec fn text(&self) -> Seq<u8>;
    fn as_raw(&self) -> (r: &C::Raw) ensures C::text(r) == self.text();
}
pub trait NameValued<C: NameClass>: Name<C> {
    type Value;
    spec fn parsed(u: C::Union) -> Result<Self::Value, ParseError>;
    fn from_union(u: &C::Union) -> (r: Result<Self::Value, ParseError>) ensures r == Self::parsed(*u);
}
// ---- Specification ----
/// What an element of the map is keyed by: the name in its union.
pub struct NameX<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: NameClass, V> Keyed<(K::Union, V)> for NameX<K, V> {
    type K = Seq<u8>;
    open spec fn key(e: (K::Union, V)) -> Seq<u8> { K::tag(e.0) }
    open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { K::lt(a, b) }
    proof fn order() { K::order(); }
}
pub open spec fn find<K: NameClass, V>(s: Seq<(K::Union, V)>, k: Seq<u8>) -> Option<(K::Union, V)> { at::<(K::Union, V), NameX<K, V>>(s, k) }
/// Only the entry of one name differs.
pub open spec fn one_changed<K: NameClass, V>(s: Seq<(K::Union, V)>, t: Seq<(K::Union, V)>, k: Seq<u8>, e: Option<(K::Union, V)>) -> bool { with::<(K::Union, V), NameX<K, V>>(s, t, k, e) }
// What a lookup says: the union, the extra value, or both, of the entry of that name.
pub open spec fn says_union<K: NameClass, V>(s: Seq<(K::Union, V)>, k: Seq<u8>, r: Option<&K::Union>) -> bool { match r { Some(u) => find::<K, V>(s, k) is Some && find::<K, V>(s, k)->Some_0.0 == *u, None => find::<K, V>(s, k) is None } }
pub open spec fn says_extra<K: NameClass, V>(s: Seq<(K::Union, V)>, k: Seq<u8>, r: Option<&V>) -> bool { match r { Some(v) => find::<K, V>(s, k) is Some && find::<K, V>(s, k)->Some_0.1 == *v, None => find::<K, V>(s, k) is None } }
pub open spec fn set_extra<K: NameClass, V>(s: Seq<(K::Union, V)>, t: Seq<(K::Union, V)>, k: Seq<u8>, v: V) -> bool { find::<K, V>(s, k) is Some && one_changed::<K, V>(s, t, k, Some((find::<K, V>(s, k)->Some_0.0, v))) }
pub proof fn found<K: NameClass, V>(s: Seq<(K::Union, V)>)
    ensures forall|k: Seq<u8>| #[trigger] find::<K, V>(s, k) matches Some(e) ==> K::tag(e.0) == k,
{ assert forall|k: Seq<u8>| #[trigger] find::<K, V>(s, k) matches Some(e) ==> K::tag(e.0) == k by { at_some::<(K::Union, V), NameX<K, V>>(s, k); } }
// ---- The code ----
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@item src/names/types.rs :: struct NameMap
//@attr
pub
//@sub /, V: 'static = \(\)/ => , V ## bound
//@sub /map: crate::util::FlatMap<\(K::Union<'static>, V\), NameExtractor<'static, K, V>>/ => pub map: FlatMap<(K::Union, V), NameX<K, V>> ## visibility; extractor by its specification
//@end
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@item src/names/types.rs :: struct NameMapEditGuard
//@attr
pub
//@sub /, V: 'static/ => , V ## bound
//@sub /\(\s*(?:pub\(self\) )?FlatMapEditGuard<[\s\S]*\)/ => (pub FlatMapEditGuard<'a, (K::Union, V), NameX<K, V>>) ## visibility; extractor by its specification
//@end
impl<K: NameClass, V> NameMap<K, V> {
    pub open spec fn s(&self) -> Seq<(K::Union, V)> { self.map.s() }
    pub open spec fn session(&self, o: &Self) -> bool { true }
}
impl<'a, K: NameClass, V> NameMapEditGuard<'a, K, V> {
    pub open spec fn s(&self) -> Seq<(K::Union, V)> { self.0.s() }
    pub open spec fn fate(&self) -> Seq<(K::Union, V)> { self.0.fate().s() }
    /// Still the session that decides what the map becomes.
    pub open spec fn session(&self, o: &Self) -> bool { self.0.fate() == o.0.fate() }
}
/// The property, over the contracts of the code alone: what is inserted is found, in the session and after it, and nothing else changes.
fn insert_property<K: NameClass, V>(m: &mut NameMap<K, V>, u: K::Union, v: V)
    ensures one_changed::<K, V>(old(m).s(), final(m).s(), K::tag(u), Some((u, v))),
{
    let ghost (g, h) = (u, v);
    let ghost s0 = m.s();
    let mut e = m.edit();
    let r = e.insert(u, v);
    assert(r == find::<K, V>(s0, K::tag(g)));
    assert(find::<K, V>(e.s(), K::tag(g)) == Some((g, h)));
    let ghost s1 = e.s();
    let ghost f = e.0.fate();
    e.0.drop_guard();
    assert forall|q: Seq<u8>| #[trigger] find::<K, V>(f.s(), q) == if q == K::tag(g) { Some((g, h)) } else { find::<K, V>(s0, q) } by { assert(find::<K, V>(s1, q) == find::<K, V>(f.s(), q)); }
}
impl<K: NameClass, V> NameMap<K, V> {
//@fn src/names/types.rs :: impl<K: NameClass, V: 'static> NameMap<K, V> :: new
//@ret r
//@spec
        ensures r.s().len() == 0,
//@end
//@fn src/names/types.rs :: impl<K: NameClass, V: 'static> NameMap<K, V> :: edit
//@ret r
//@spec
        ensures r.s() == old(self).s(), final(self).s() == r.fate(), final(self).map == r.0.fate(),
//@end
}
impl<K: NameClass, V> NameMap<K, V> {
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: len
//@ret r
//@spec
        ensures r == self.s().len(),
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: is_empty
//@ret r
//@spec
        ensures r == (self.s().len() == 0),
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_union
//@ret r
//@spec
        ensures says_union::<K, V>(self.s(), tag.text(), r),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_union_raw
//@ret r
//@spec
        ensures says_union::<K, V>(self.s(), K::text(tag), r),
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_extra_raw
//@ret r
//@spec
        ensures says_extra::<K, V>(self.s(), K::text(tag), r),
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_extra
//@ret r
//@spec
        ensures says_extra::<K, V>(self.s(), tag.text(), r),
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_extra_raw_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(v) => find::<K, V>(old(self).s(), K::text(tag)) is Some && find::<K, V>(old(self).s(), K::text(tag))->Some_0.1 == *v && set_extra::<K, V>(old(self).s(), final(self).s(), K::text(tag), *final(v)), None => find::<K, V>(old(self).s(), K::text(tag)) is None && final(self).s() == old(self).s() },
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@head
        proof { found::<K, V>(self.s()); }
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_extra_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(v) => find::<K, V>(old(self).s(), tag.text()) is Some && find::<K, V>(old(self).s(), tag.text())->Some_0.1 == *v && set_extra::<K, V>(old(self).s(), final(self).s(), tag.text(), *final(v)), None => find::<K, V>(old(self).s(), tag.text()) is None && final(self).s() == old(self).s() },
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_parsed
//@ret r
//@spec
        ensures match r { Some(p) => find::<K, V>(self.s(), tag.text()) is Some && p == T::parsed(find::<K, V>(self.s(), tag.text())->Some_0.0), None => find::<K, V>(self.s(), tag.text()) is None },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_both
//@ret r
//@spec
        ensures match r { Some(p) => find::<K, V>(self.s(), tag.text()) is Some && p.0 == T::parsed(find::<K, V>(self.s(), tag.text())->Some_0.0) && *p.1 == find::<K, V>(self.s(), tag.text())->Some_0.1, None => find::<K, V>(self.s(), tag.text()) is None },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: get_both_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(p) => find::<K, V>(old(self).s(), tag.text()) is Some && p.0 == T::parsed(find::<K, V>(old(self).s(), tag.text())->Some_0.0) && *p.1 == find::<K, V>(old(self).s(), tag.text())->Some_0.1 && set_extra::<K, V>(old(self).s(), final(self).s(), tag.text(), *final(p.1)), None => find::<K, V>(old(self).s(), tag.text()) is None && final(self).s() == old(self).s() },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@head
        proof { found::<K, V>(self.s()); }
//@end
//@fn @expanded :: impl<K: NameClass, V: 'static> NameMap<K, V> :: clear
//@spec
        ensures final(self).session(old(self)), final(self).s().len() == 0,
//@end
}
impl<'a, K: NameClass, V> NameMapEditGuard<'a, K, V> {
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: len
//@ret r
//@spec
        ensures r == self.s().len(),
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: is_empty
//@ret r
//@spec
        ensures r == (self.s().len() == 0),
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_union
//@ret r
//@spec
        ensures says_union::<K, V>(self.s(), tag.text(), r),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_union_raw
//@ret r
//@spec
        ensures says_union::<K, V>(self.s(), K::text(tag), r),
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_extra_raw
//@ret r
//@spec
        ensures says_extra::<K, V>(self.s(), K::text(tag), r),
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_extra
//@ret r
//@spec
        ensures says_extra::<K, V>(self.s(), tag.text(), r),
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_extra_raw_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(v) => find::<K, V>(old(self).s(), K::text(tag)) is Some && find::<K, V>(old(self).s(), K::text(tag))->Some_0.1 == *v && set_extra::<K, V>(old(self).s(), final(self).s(), K::text(tag), *final(v)), None => find::<K, V>(old(self).s(), K::text(tag)) is None && final(self).s() == old(self).s() },
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@head
        proof { found::<K, V>(self.s()); }
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_extra_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(v) => find::<K, V>(old(self).s(), tag.text()) is Some && find::<K, V>(old(self).s(), tag.text())->Some_0.1 == *v && set_extra::<K, V>(old(self).s(), final(self).s(), tag.text(), *final(v)), None => find::<K, V>(old(self).s(), tag.text()) is None && final(self).s() == old(self).s() },
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_parsed
//@ret r
//@spec
        ensures match r { Some(p) => find::<K, V>(self.s(), tag.text()) is Some && p == T::parsed(find::<K, V>(self.s(), tag.text())->Some_0.0), None => find::<K, V>(self.s(), tag.text()) is None },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_both
//@ret r
//@spec
        ensures match r { Some(p) => find::<K, V>(self.s(), tag.text()) is Some && p.0 == T::parsed(find::<K, V>(self.s(), tag.text())->Some_0.0) && *p.1 == find::<K, V>(self.s(), tag.text())->Some_0.1, None => find::<K, V>(self.s(), tag.text()) is None },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: get_both_mut
//@ret r
//@spec
        ensures final(self).session(old(self)), match r { Some(p) => find::<K, V>(old(self).s(), tag.text()) is Some && p.0 == T::parsed(find::<K, V>(old(self).s(), tag.text())->Some_0.0) && *p.1 == find::<K, V>(old(self).s(), tag.text())->Some_0.1 && set_extra::<K, V>(old(self).s(), final(self).s(), tag.text(), *final(p.1)), None => find::<K, V>(old(self).s(), tag.text()) is None && final(self).s() == old(self).s() },
//@sub /T::Value<'static>/ => T::Value ## names are 'static here
//@sub /tag\.as_raw\(\)\.borrow\(\)/ => K::borrow(tag.as_raw()) ## Borrow<[u8]>
//@head
        proof { found::<K, V>(self.s()); }
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: clear
//@spec
        ensures final(self).session(old(self)), final(self).s().len() == 0,
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: insert
//@ret r
//@spec
        ensures final(self).session(old(self)), one_changed::<K, V>(old(self).s(), final(self).s(), K::tag(elem), Some((elem, extra))), r == find::<K, V>(old(self).s(), K::tag(elem)),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: insert_or_update
//@ret r
//@spec
        ensures final(self).session(old(self)),
            find::<K, V>(old(self).s(), K::tag(elem)) is Some ==> r == Some(elem) && set_extra::<K, V>(old(self).s(), final(self).s(), K::tag(elem), extra),
            find::<K, V>(old(self).s(), K::tag(elem)) is None ==> r is None && one_changed::<K, V>(old(self).s(), final(self).s(), K::tag(elem), Some((elem, extra))),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@head
        proof { found::<K, V>(self.s()); }
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: try_insert
//@ret r
//@spec
        ensures final(self).session(old(self)),
            find::<K, V>(old(self).s(), K::tag(elem)) is Some ==> r == Some((elem, extra)) && final(self).s() == old(self).s(),
            find::<K, V>(old(self).s(), K::tag(elem)) is None ==> r is None && one_changed::<K, V>(old(self).s(), final(self).s(), K::tag(elem), Some((elem, extra))),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: remove
//@ret r
//@spec
        ensures final(self).session(old(self)), one_changed::<K, V>(old(self).s(), final(self).s(), tag.text(), None), r == find::<K, V>(old(self).s(), tag.text()),
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@end
//@fn @expanded :: impl<'a, K: NameClass, V: 'static> NameMapEditGuard<'a, K, V> :: remove_raw
//@ret r
//@spec
        ensures final(self).session(old(self)), one_changed::<K, V>(old(self).s(), final(self).s(), K::text(tag), None), r == find::<K, V>(old(self).s(), K::text(tag)),
//@sub /K::Raw<'_>/ => K::Raw ## the name's lifetime
//@opt /K::Union<'static>/ => K::Union ## names are 'static here
//@sub /tag\.borrow\(\)/ => K::borrow(tag) ## Borrow<[u8]>
//@end
}
}
fn main() {}
