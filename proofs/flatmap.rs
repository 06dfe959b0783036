//@meta property C05
//@meta assume Ord on keys is a total order
//@meta assume Vec, raw pointer and ManuallyDrop operations are as their memory-model stubs state
//@meta assume a guard that is leaked (mem::forget) is not covered
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
verus! {
//@include std.inc
//@include mapspec.inc
// ---- Trusted contracts on the standard library ----
/// Vec, with the initialised memory behind its length in view (the guard moves elements in and out of the length).
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct Store<E> { v: Vec<E> }
impl<E> Store<E> {
    /// The initialised elements; the length, which never exceeds them.
    pub uninterp spec fn mem(&self) -> Seq<E>;
    pub uninterp spec fn n(&self) -> nat;
    /// What safe code sees.
    pub open spec fn view(&self) -> Seq<E> { self.mem().take(self.n() as int) }
    /// Nothing is hidden.
    pub open spec fn plain(&self) -> bool { self.n() == self.mem().len() }
    #[verifier::external_body]
    pub const fn new() -> (r: Store<E>) ensures r.mem().len() == 0, r.plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn singleton(e: E) -> (r: Store<E>) ensures r.mem() == seq![e], r.plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    /// Unsafe: the elements up to the new length must be initialised.
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize) requires n <= old(self).mem().len() ensures final(self).mem() == old(self).mem(), final(self).n() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve(&mut self, n: usize) -> (r: Result<(), AllocError>) ensures final(self).mem() == old(self).mem(), final(self).n() == old(self).n(), r is Ok ==> old(self).n() < isize::MAX { unimplemented!() }
    /// Writing behind the length would lose an element hidden there.
    #[verifier::external_body]
    pub fn push(&mut self, e: E) requires old(self).plain(), old(self).n() < isize::MAX ensures final(self).mem() == old(self).mem().push(e), final(self).plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, i: usize) -> (r: E)
        requires old(self).plain(), i < old(self).n(),
        ensures r == old(self).mem()[i as int], final(self).mem() == old(self).mem().update(i as int, old(self).mem().last()).drop_last(), final(self).plain() { unimplemented!() }
    /// Clearing drops what the length covers; anything hidden would be lost.
    #[verifier::external_body]
    pub fn clear(&mut self) requires old(self).plain() ensures final(self).mem().len() == 0, final(self).plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, o: &Self) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[E]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [E]) requires old(self).plain()
        ensures r@ == old(self).mem(), final(self).mem() == final(r)@, final(self).plain() == (final(r)@.len() == r@.len()) { unimplemented!() }
    /// slice::from_raw_parts(self.as_ptr(), n)
    #[verifier::external_body]
    pub unsafe fn raw_slice(&self, n: usize) -> (r: &[E]) requires n <= self.mem().len() ensures r@ == self.mem().take(n as int) { unimplemented!() }
    /// &mut *self.as_mut_ptr().add(i)
    #[verifier::external_body]
    pub unsafe fn raw_at_mut(&mut self, i: usize) -> (r: &mut E) requires i < old(self).mem().len()
        ensures *r == old(self).mem()[i as int], final(self).mem() == old(self).mem().update(i as int, *final(r)), final(self).n() == old(self).n() { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn get_unchecked(&self, i: usize) -> (r: &E) requires i < self.n() ensures *r == self@[i as int] { unimplemented!() }
    /// sort_unstable_by the keys: a permutation, in order.
    #[verifier::external_body]
    pub fn sort_unstable<X: Keyed<E>>(&mut self) requires old(self).plain()
        ensures final(self).plain(), ascending::<E, X>(final(self).mem()), final(self).mem().to_multiset() == old(self).mem().to_multiset() { unimplemented!() }
    /// sort_by the keys: stable, so that elements of equal keys stay in order.
    #[verifier::external_body]
    pub fn sort_stable<X: Keyed<E>>(&mut self) requires old(self).plain()
        ensures final(self).plain(), ascending::<E, X>(final(self).mem()), alike::<E, X>(final(self).mem(), old(self).mem()) { unimplemented!() }
}
pub broadcast axiom fn store_len<E>(s: Store<E>) ensures #![trigger s.n()] s.n() <= s.mem().len(), s.n() <= isize::MAX as nat;
pub broadcast axiom fn mem_len<E>(s: Store<E>) ensures #![trigger s.mem()] s.mem().len() <= isize::MAX as nat;
#[verifier::external_body]
pub struct AllocError { x: u8 }
#[verifier::external_body]
pub fn panic_alloc(e: AllocError) -> ! { panic!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct PhantomData<E> { x: core::marker::PhantomData<E> }
/// The key of an element, for comparison.
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(X)]
pub struct KeyRef<E, X: Keyed<E>> { p: core::marker::PhantomData<(E, X)> }
impl<E, X: Keyed<E>> KeyRef<E, X> { pub uninterp spec fn view(&self) -> X::K; }
#[verifier::external_body]
pub fn extract_key<'b, E, X: Keyed<E>>(e: &'b E) -> (r: &'b KeyRef<E, X>) ensures r@ == X::key(*e) { unimplemented!() }
/// slice::binary_search_by the key.
#[verifier::external_body]
pub fn binary_search<E, X: Keyed<E>>(s: &[E], k: &KeyRef<E, X>) -> (r: Result<usize, usize>)
    requires ascending::<E, X>(s@),
    ensures r matches Ok(i) ==> i < s@.len() && X::key(s@[i as int]) == k@, r is Err ==> forall|i: int| 0 <= i < s@.len() ==> X::key(#[trigger] s@[i]) != k@,
{ unimplemented!() }
/// iter().position(key == k)
#[verifier::external_body]
pub fn find_key<E, X: Keyed<E>>(s: &[E], k: &KeyRef<E, X>) -> (r: Option<usize>)
    ensures r matches Some(i) ==> i < s@.len() && X::key(s@[i as int]) == k@, r is None ==> forall|i: int| 0 <= i < s@.len() ==> X::key(#[trigger] s@[i]) != k@,
{ unimplemented!() }
#[verifier::external_body]
pub fn split_at<'b, E>(s: &'b [E], n: usize) -> (r: (&'b [E], &'b [E])) requires n <= s@.len() ensures r.0@ == s@.take(n as int), r.1@ == s@.skip(n as int) { s.split_at(n) }
/// `Some(key) > slice.last().map(extract_key)`
#[verifier::external_body]
pub fn above_last<E, X: Keyed<E>>(k: &KeyRef<E, X>, s: &[E]) -> (r: bool) ensures r == (s@.len() == 0 || X::lt(X::key(s@.last()), k@)) { unimplemented!() }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// The allocation of a Vec that was taken apart: each cell holds an element or nothing.
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct Heap<E> { p: core::marker::PhantomData<E> }
impl<E> Heap<E> {
    pub uninterp spec fn cells(&self) -> Seq<Option<E>>;
    /// The key of the element a pointer points at.
    #[verifier::external_body]
    pub unsafe fn key_eq<X: Keyed<E>>(&self, p: usize, q: usize) -> (r: bool)
        requires p < self.cells().len(), self.cells()[p as int] is Some, q < self.cells().len(), self.cells()[q as int] is Some,
        ensures r == (X::key(self.cells()[p as int]->Some_0) == X::key(self.cells()[q as int]->Some_0)) { unimplemented!() }
    /// ptr::copy_nonoverlapping(src, dst, 1): the source counts as moved from; the target must be empty, or its element would leak.
    #[verifier::external_body]
    pub unsafe fn copy(&mut self, src: usize, dst: usize)
        requires src != dst, src < old(self).cells().len(), old(self).cells()[src as int] is Some, dst < old(self).cells().len(), old(self).cells()[dst as int] is None,
        ensures final(self).cells() == old(self).cells().update(dst as int, old(self).cells()[src as int]).update(src as int, None) { unimplemented!() }
    /// ptr::drop_in_place
    #[verifier::external_body]
    pub unsafe fn drop_at(&mut self, p: usize)
        requires p < old(self).cells().len(), old(self).cells()[p as int] is Some,
        ensures final(self).cells() == old(self).cells().update(p as int, None) { unimplemented!() }
    /// Vec::from_raw_parts: exactly the first n cells hold elements.
    #[verifier::external_body]
    pub unsafe fn into_store(self, n: usize) -> (r: Store<E>)
        requires n <= self.cells().len(), forall|i: int| 0 <= i < self.cells().len() ==> (#[trigger] self.cells()[i] is Some) == (i < n),
        ensures r.plain(), r.mem().len() == n, forall|i: int| 0 <= i < n ==> Some(#[trigger] r.mem()[i]) == self.cells()[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn take_apart<E>(v: Store<E>) -> (r: Heap<E>) requires v.plain() ensures r.cells() == Seq::new(v.mem().len(), |i: int| Some(v.mem()[i])) { unimplemented!() }

// ---- Specification ----
impl<E, X: Keyed<E>> FlatMap<E, X> {
    pub open spec fn inv(&self) -> bool { self.0.plain() && strict::<E, X>(self.0.mem()) }
    pub open spec fn get_spec(&self, k: X::K) -> Option<E> { at::<E, X>(self.0.mem(), k) }
}
impl<'a, E, X: Keyed<E>> FlatMapEditGuard<'a, E, X> {
    pub open spec fn inv(&self) -> bool {
        self.real_len == self.src.mem().len() && self.src.n() <= self.real_len
        && strict::<E, X>(self.src.mem().take(self.src.n() as int)) && distinct::<E, X>(self.src.mem())
    }
    pub open spec fn s(&self) -> Seq<E> { self.src.mem() }
    #[verifier::prophetic]
    pub open spec fn same(&self, o: Self) -> bool { *final(self.src) == *final(o.src) }
}
/// Replacing the element at i by one with the same key.
pub proof fn replaced<E, X: Keyed<E>>(s: Seq<E>, i: int, e: E)
    requires 0 <= i < s.len(), X::key(s[i]) == X::key(e), distinct::<E, X>(s),
    ensures distinct::<E, X>(s.update(i, e)), with::<E, X>(s, s.update(i, e), X::key(e), Some(e)),
        forall|n: int| 0 <= n <= s.len() && #[trigger] strict::<E, X>(s.take(n)) ==> strict::<E, X>(s.update(i, e).take(n)),
    decreases s.len(),
{
    let t = s.update(i, e);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies X::key(#[trigger] t[a]) != X::key(#[trigger] t[b]) by { assert(X::key(s[a]) != X::key(s[b])); }
    assert forall|n: int| 0 <= n <= s.len() && #[trigger] strict::<E, X>(s.take(n)) implies strict::<E, X>(t.take(n)) by {
        assert forall|a: int, b: int| 0 <= a < b < n implies X::lt(X::key(#[trigger] t.take(n)[a]), X::key(#[trigger] t.take(n)[b])) by {
            assert(X::lt(X::key(s.take(n)[a]), X::key(s.take(n)[b])));
        }
    }
    assert forall|q: X::K| #[trigger] at::<E, X>(t, q) == if q == X::key(e) { Some(e) } else { at::<E, X>(s, q) } by {
        if q == X::key(e) { at_here::<E, X>(t, i); assert(t[i] == e); }
        else {
            at_some::<E, X>(s, q);
            at_some::<E, X>(t, q);
            if at::<E, X>(s, q) is Some {
                let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == at::<E, X>(s, q)->Some_0;
                assert(t[j] == s[j]);
                at_here::<E, X>(t, j);
            } else if at::<E, X>(t, q) is Some {
                let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == at::<E, X>(t, q)->Some_0;
                assert(j != i);
                assert(t[j] == s[j]);
            }
        }
    }
}
/// Adding an element with a new key.
pub proof fn appended<E, X: Keyed<E>>(s: Seq<E>, e: E)
    requires distinct::<E, X>(s), at::<E, X>(s, X::key(e)) is None,
    ensures distinct::<E, X>(s.push(e)), with::<E, X>(s, s.push(e), X::key(e), Some(e)),
        forall|n: int| 0 <= n <= s.len() ==> (#[trigger] s.push(e).take(n)) == s.take(n),
        strict::<E, X>(s) && (s.len() == 0 || X::lt(X::key(s.last()), X::key(e))) ==> strict::<E, X>(s.push(e)),
{
    X::order();
    let t = s.push(e);
    at_some::<E, X>(s, X::key(e));
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies X::key(#[trigger] t[a]) != X::key(#[trigger] t[b]) by { if b < s.len() { assert(X::key(s[a]) != X::key(s[b])); } else { assert(t[a] == s[a]); } }
    assert(t.drop_last() =~= s);
    assert forall|n: int| 0 <= n <= s.len() implies (#[trigger] t.take(n)) == s.take(n) by { assert(t.take(n) =~= s.take(n)); }
    if strict::<E, X>(s) && (s.len() == 0 || X::lt(X::key(s.last()), X::key(e))) {
        assert forall|a: int, b: int| 0 <= a < b < t.len() implies X::lt(X::key(#[trigger] t[a]), X::key(#[trigger] t[b])) by {
            if b < s.len() { assert(X::lt(X::key(s[a]), X::key(s[b]))); }
            else if a < s.len() - 1 { assert(X::lt(X::key(s[a]), X::key(s[s.len() - 1]))); assert(t[a] == s[a]); }
            else { assert(t[a] == s.last()); }
        }
    }
}
/// Taking out the element at i, the last one filling its place.
pub proof fn swapped_out<E, X: Keyed<E>>(s: Seq<E>, i: int, n: int)
    requires distinct::<E, X>(s), 0 <= i < s.len(), 0 <= n <= s.len(), strict::<E, X>(s.take(n)),
    ensures ({
        let t = s.update(i, s.last()).drop_last();
        distinct::<E, X>(t) && with::<E, X>(s, t, X::key(s[i]), None) && strict::<E, X>(t.take(if i < n { i } else { n }))
    }),
{
    let t = s.update(i, s.last()).drop_last();
    let z = s.len() - 1;
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies X::key(#[trigger] t[a]) != X::key(#[trigger] t[b]) by {
        let c = if a == i { z } else { a };
        let d = if b == i { z } else { b };
        assert(t[a] == s[c] && t[b] == s[d]);
        if c < d { assert(X::key(s[c]) != X::key(s[d])); } else { assert(X::key(s[d]) != X::key(s[c])); }
    }
    let m = if i < n { i } else { n };
    assert forall|a: int, b: int| 0 <= a < b < t.take(m).len() implies X::lt(X::key(#[trigger] t.take(m)[a]), X::key(#[trigger] t.take(m)[b])) by {
        assert(t.take(m)[a] == s.take(n)[a] && t.take(m)[b] == s.take(n)[b]);
        assert(X::lt(X::key(s.take(n)[a]), X::key(s.take(n)[b])));
    }
    assert forall|q: X::K| #[trigger] at::<E, X>(t, q) == if q == X::key(s[i]) { None } else { at::<E, X>(s, q) } by {
        at_some::<E, X>(s, q);
        at_some::<E, X>(t, q);
        if at::<E, X>(t, q) is Some {
            let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == at::<E, X>(t, q)->Some_0;
            let c = if j == i { z } else { j };
            assert(s[c] == t[j]);
            at_here::<E, X>(s, c);
            if c < i { assert(X::key(s[c]) != X::key(s[i])); } else if i < c { assert(X::key(s[i]) != X::key(s[c])); }
        } else if q != X::key(s[i]) && at::<E, X>(s, q) is Some {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == at::<E, X>(s, q)->Some_0;
            assert(j != i);
            if j == z { assert(t[i] == s[j]); } else { assert(t[j] == s[j]); }
        }
    }
}
/// Sorting distinct keys: the same map, strictly in order.
pub proof fn sorted_map<E, X: Keyed<E>>(s: Seq<E>, t: Seq<E>)
    requires distinct::<E, X>(s), ascending::<E, X>(t), t.to_multiset() == s.to_multiset(),
    ensures alike::<E, X>(t, s), strict::<E, X>(t), t.len() == s.len(),
{
    X::order();
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies X::key(#[trigger] t[i]) != X::key(#[trigger] t[j]) by {
        if X::key(t[i]) == X::key(t[j]) {
            assert(t.to_multiset().count(t[i]) > 0) by { assert(t.contains(t[i])); }
            assert(t.to_multiset().count(t[j]) > 0) by { assert(t.contains(t[j])); }
            assert(s.contains(t[i]) && s.contains(t[j]));
            let a = choose|a: int| 0 <= a < s.len() && s[a] == t[i];
            let b = choose|b: int| 0 <= b < s.len() && s[b] == t[j];
            if a < b { assert(X::key(s[a]) != X::key(s[b])); } else if b < a { assert(X::key(s[b]) != X::key(s[a])); }
            assert(a == b);
            twice(t, i, j);
            once::<E, X>(s, a);
        }
    }
    assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); }
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); }
    same_elements::<E, X>(t, s);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies X::lt(X::key(#[trigger] t[i]), X::key(#[trigger] t[j])) by { assert(!X::lt(X::key(t[j]), X::key(t[i]))); }
}
pub proof fn twice<E>(t: Seq<E>, i: int, j: int)
    requires 0 <= i < j < t.len(), t[i] == t[j],
    ensures t.to_multiset().count(t[i]) >= 2,
{
    let r = t.remove(i);
    t.to_multiset_ensures();
    assert(r.to_multiset() =~= t.to_multiset().remove(t[i]));
    r.to_multiset_ensures();
    assert(r[j - 1] == t[j]);
    assert(r.contains(t[i])) by { assert(r[j - 1] == t[i]); }
    assert(r.to_multiset().count(t[i]) > 0);
    assert(t.contains(t[i]));
    assert(t.to_multiset().count(t[i]) > 0);
    assert(r.to_multiset().count(t[i]) == t.to_multiset().count(t[i]) - 1);
}
pub proof fn once<E, X: Keyed<E>>(s: Seq<E>, a: int)
    requires 0 <= a < s.len(), distinct::<E, X>(s),
    ensures s.to_multiset().count(s[a]) == 1,
{
    let r = s.remove(a);
    s.to_multiset_ensures();
    r.to_multiset_ensures();
    assert(r.to_multiset() =~= s.to_multiset().remove(s[a]));
    if r.to_multiset().count(s[a]) > 0 {
        assert(r.contains(s[a]));
        let j = choose|j: int| 0 <= j < r.len() && r[j] == s[a];
        let b = if j < a { j } else { j + 1 };
        assert(s[b] == s[a]);
        if a < b { assert(X::key(s[a]) != X::key(s[b])); } else { assert(X::key(s[b]) != X::key(s[a])); }
    }
    assert(s.contains(s[a]));
}
// ---- The code ----
//@item src/util/flatmap.rs :: struct FlatMap<E, X = ()>
//@attr
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(X)]
pub
//@sub /<E, X = \(\)>\(Vec<E>, std::marker::PhantomData<X>\)/ => <E, X: Keyed<E>>(pub Store<E>, pub PhantomData<(E, X)>) ## Vec as Store; visibility; bound
//@end
//@item src/util/flatmap.rs :: struct FlatMapEditGuard
//@attr
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(X)]
pub
//@sub /X: KeyExtractor<E>/ => X: Keyed<E> ## key extraction by its specification
//@sub /src: &'a mut Vec<E>/ => pub src: &'a mut Store<E> ## Vec as Store; visibility
//@sub /real_len:/ => pub real_len: ## visibility
//@sub /marker: std::marker::PhantomData<X>/ => pub marker: PhantomData<(E, X)> ## visibility
//@end
/// Sequential deduplication keeps the last of each run; every other element is dropped once, none is lost.
//@fn src/util/flatmap.rs :: do_dedup
//@ret r
//@spec
    requires vec.plain(), ascending::<E, X>(vec.mem()),
    ensures r.plain(), strict::<E, X>(r.mem()), alike::<E, X>(r.mem(), vec.mem()),
//@sub /X: KeyExtractor<E>/ => X: Keyed<E> ## key extraction by its specification
//@sub /Vec<E>/ => Store<E> ## Vec as Store
//@sub /pub\(super\)(?= )/ => pub ## visibility
//@sub /let \(ptr, len, cap\) = \{[\s\S]*?\};\s*(?=let \(mut ptr1)/ => let (ptr, len) = (0usize, vec.len()); let mut heap = take_apart(vec); ## pointers are offsets into the allocation
//@sub /unsafe \{ ptr\.add\(len - 1\) \}/ => ptr + (len - 1) ## pointer as offset
//@sub /(ptr\d) = ptr\d\.add\(1\)/ => \1 = \1 + 1 ## pointer as offset
//@sub /X::extract_key\((\w+)\.as_ref\(\)\.unwrap_unchecked\(\)\)\s*(!|=)= X::extract_key\((\w+)\.as_ref\(\)\.unwrap_unchecked\(\)\)/ => true \2= heap.key_eq::<X>(\1, \3) ## keys read through pointers
//@sub /std::ptr::copy_nonoverlapping\((\w+), (\w+), 1\)/ => heap.copy(\1, \2) ## move between cells
//@sub /(\w+)\.drop_in_place\(\)/ => heap.drop_at(\1) ## drop of a cell
//@sub /1 \+ ptr1\.offset_from\(ptr\) as usize/ => 1 + (ptr1 - ptr) ## pointer as offset
//@sub /Vec::from_raw_parts\(ptr, new_len, cap\)/ => heap.into_store(new_len) ## reassembly
//@head
    broadcast use {store_len, mem_len};
    proof { X::order(); }
    let ghost orig = vec.mem();
    let ghost mut out: Seq<E> = seq![];
//@before /while ptr2 < last/
    proof {
        out = seq![orig[0]];
        assert(orig.take(1) =~= out);
    }
//@loop 0
        invariant
            ptr == 0, last == orig.len() - 1, orig.len() == len, len <= isize::MAX, len >= 2, ascending::<E, X>(orig),
            ptr1 <= ptr2 <= last, heap.cells().len() == len,
            forall|i: int| 0 <= i < len ==> #[trigger] heap.cells()[i] == (if i <= ptr1 { Some(out[i]) } else if i <= ptr2 { None } else { Some(orig[i]) }),
            out.len() == ptr1 + 1, out.last() == orig[ptr2 as int],
            alike::<E, X>(out, orig.take(ptr2 + 1)), strict::<E, X>(out),
        decreases last - ptr2,
//@before /ptr2 = ptr2\.add\(1\)/
            let ghost (o0, p0) = (out, ptr2);
            proof {
                X::order();
                let x = orig[p0 + 1];
                assert(!X::lt(X::key(x), X::key(orig[p0 as int])));
                let o1 = if X::key(out.last()) == X::key(x) { out.drop_last().push(x) } else { out.push(x) };
                let t = orig.take(p0 + 2);
                assert(t.drop_last() =~= orig.take(p0 + 1));
                assert(o1.drop_last() =~= if X::key(out.last()) == X::key(x) { out.drop_last() } else { out });
                assert forall|k: X::K| #[trigger] at::<E, X>(o1, k) == at::<E, X>(t, k) by { assert(at::<E, X>(out, k) == at::<E, X>(orig.take(p0 + 1), k)); }
                assert forall|i: int, j: int| 0 <= i < j < o1.len() implies X::lt(X::key(#[trigger] o1[i]), X::key(#[trigger] o1[j])) by {
                    if j < out.len() { assert(X::lt(X::key(out[i]), X::key(out[j]))); }
                    else if i < out.len() - 1 { assert(X::lt(X::key(out[i]), X::key(out[out.len() - 1]))); }
                }
                out = o1;
            }
//@before /unsafe \{\s*let new_len/
    proof { assert(orig.take(len as int) =~= orig); }
//@post
    proof { if orig.len() >= 2 { assert(r.mem() =~= out); } else { assert(strict::<E, X>(orig)); } }
//@end
//@fn src/util/flatmap.rs :: get_impl
//@ret r
//@spec
    requires sorted_until <= pairs@.len(), pairs@.len() <= isize::MAX, strict::<E, X>(pairs@.take(sorted_until as int)), distinct::<E, X>(pairs@),
    ensures r matches Some(i) ==> i < pairs@.len() && X::key(pairs@[i as int]) == key@ && at::<E, X>(pairs@, key@) == Some(pairs@[i as int]),
        r is None ==> at::<E, X>(pairs@, key@) is None,
//@sub /X: KeyExtractor<E>/ => X: Keyed<E> ## key extraction by its specification
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@sub /pairs\.split_at\(sorted_until\)/ => split_at(pairs, sorted_until) ## slice::split_at
//@sub /sorted\.binary_search_by\(\|v\| X::extract_key\(v\)\.borrow\(\)\.cmp\(key\)\)/ => binary_search::<E, X>(sorted, key) ## binary search by key
//@sub /unsorted\s*\.iter\(\)\s*\.position\(\|v\| X::extract_key\(v\)\.borrow\(\) == key\)\s*\.map\(\|(\w+)\| ([^()]*)\)/ => match find_key::<E, X>(unsorted, key) { Some(\1) => Some(\2), None => None } ## iterator; Option::map
//@head
    proof { X::order(); }
//@post
    proof {
        match r {
            Some(i) => { at_here::<E, X>(pairs@, i as int); },
            None => {
                at_some::<E, X>(pairs@, key@);
                assert forall|i: int| 0 <= i < pairs@.len() implies X::key(#[trigger] pairs@[i]) != key@ by {
                    if i < sorted_until { assert(pairs@[i] == pairs@.take(sorted_until as int)[i]); } else { assert(pairs@[i] == pairs@.skip(sorted_until as int)[i - sorted_until]); }
                }
            },
        }
    }
//@end
impl<E, X: Keyed<E>> FlatMap<E, X> {
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: new
//@ret r
//@spec
        ensures r.inv(), r.0.mem().len() == 0,
//@sub /Vec::new\(\), std::marker::PhantomData/ => Store::new(), phantom() ## Vec as Store
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: singleton
//@ret r
//@spec
        ensures r.inv(), r.0.mem() == seq![elem],
//@sub /vec!\[elem\], std::marker::PhantomData/ => Store::singleton(elem), phantom() ## Vec as Store
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: from_vec
//@ret r
//@spec
        requires vec.plain(),
        ensures r.inv(), alike::<E, X>(r.0.mem(), vec.mem()),
//@sub /mut vec: Vec<E>/ => mut vec: Store<E> ## Vec as Store
//@sub /vec\.sort_by\(\|l, r\| X::extract_key\(l\)\.cmp\(X::extract_key\(r\)\)\)/ => vec.sort_stable::<X>() ## stable sort by key
//@opt /vec\.sort_unstable_by\(\|l, r\| X::extract_key\(l\)\.cmp\(X::extract_key\(r\)\)\)/ => vec.sort_unstable::<X>() ## sort by key
//@sub /std::marker::PhantomData/ => phantom() ## marker
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: edit
//@ret r
//@spec
        requires old(self).inv(),
        ensures r.inv(), r.s() == old(self).0.mem(), final(self).0 == *final(r.src),
//@sub /marker: self\.1/ => marker: phantom() ## marker
//@head
        broadcast use {store_len, mem_len};
        proof { strict_distinct::<E, X>(self.0.mem()); assert(self.0.mem().take(self.0.mem().len() as int) =~= self.0.mem()); }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: get
//@ret r
//@spec
        requires self.inv(),
        ensures match r { Some(e) => self.get_spec(key@) == Some(*e), None => self.get_spec(key@) is None },
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@head
        broadcast use {store_len, mem_len};
        proof { strict_distinct::<E, X>(self.0.mem()); assert(self.0.mem().take(self.0.mem().len() as int) =~= self.0.mem()); }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: get_mut
//@ret r
//@spec
        requires old(self).inv(),
        ensures match r {
            Some(e) => old(self).get_spec(key@) == Some(*e) && (X::key(*final(e)) == key@ ==> final(self).inv() && with::<E, X>(old(self).0.mem(), final(self).0.mem(), key@, Some(*final(e)))),
            None => old(self).get_spec(key@) is None && *final(self) == *old(self),
        },
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@sub /get_unchecked_mut\(/ => raw_at_mut( ## slice::get_unchecked_mut
//@head
        broadcast use {store_len, mem_len};
        let ghost s0 = self.0.mem();
        proof {
            strict_distinct::<E, X>(s0);
            assert(s0.take(s0.len() as int) =~= s0);
            assert forall|i: int, x: E| 0 <= i < s0.len() && X::key(x) == X::key(s0[i]) implies strict::<E, X>(#[trigger] s0.update(i, x)) && with::<E, X>(s0, s0.update(i, x), X::key(x), Some(x)) by {
                replaced::<E, X>(s0, i, x);
                assert(strict::<E, X>(s0.take(s0.len() as int)));
                assert(s0.update(i, x).take(s0.len() as int) =~= s0.update(i, x));
            }
        }
//@end
/// Maps compare by what they say, whatever the order of insertion.
//@fn src/util/flatmap.rs :: impl<E: PartialEq, X> std::cmp::PartialEq for FlatMap<E, X> :: eq
//@ret r
//@spec
        requires self.inv(), other.inv(),
        ensures r == alike::<E, X>(self.0.mem(), other.0.mem()),
//@sub /self\.0 == other\.0/ => self.0.eq(&other.0) ## Vec as Store
//@attr pub
//@head
        proof {
            if alike::<E, X>(self.0.mem(), other.0.mem()) { canonical::<E, X>(self.0.mem(), other.0.mem()); }
            assert(self.0@ =~= self.0.mem());
            assert(other.0@ =~= other.0.mem());
        }
//@end
//@fn @expanded :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: len
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.0.mem().len(),
//@end
//@fn @expanded :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self.0.mem().len() == 0),
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: as_slice
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self.0.mem(),
//@post
        proof { assert(self.0@ =~= self.0.mem()); }
//@end
/// The caller leaves the keys alone.
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: as_slice_mut
//@ret r
//@spec
        requires old(self).inv(),
        ensures r@ == old(self).0.mem(), final(self).0.mem() == final(r)@,
            final(r)@.len() == r@.len() && (forall|i: int| 0 <= i < r@.len() ==> X::key(#[trigger] final(r)@[i]) == X::key(r@[i])) ==> final(self).inv(),
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMap<E, X> :: clear
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).0.mem().len() == 0,
//@end
}
impl<'c, E, X: Keyed<E>> FlatMapEditGuard<'c, E, X> {
/// Leaving a session: the same map, in order.
//@fn src/util/flatmap.rs :: impl<'a, E, X: KeyExtractor<E>> Drop for FlatMapEditGuard<'a, E, X> :: drop
//@name drop_guard
//@spec
        requires old(self).inv(),
        ensures final(self).same(*old(self)), final(self).src.plain(), strict::<E, X>(final(self).src.mem()), alike::<E, X>(final(self).src.mem(), old(self).s()),
            final(self).src.mem().len() == old(self).s().len(),
//@sub /self\.src\.sort_unstable_by\(\|l, r\| X::extract_key\(l\)\.cmp\(X::extract_key\(r\)\)\)/ => self.src.sort_unstable::<X>() ## sort by key
//@before /let sorted_until/
        broadcast use {store_len, mem_len};
        proof { assert(self.src.mem().take(self.src.mem().len() as int) =~= self.src.mem()); }
//@post
        proof { if old(self).src.n() < old(self).s().len() { sorted_map::<E, X>(old(self).s(), self.src.mem()); } }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: len
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.s().len(),
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self.s().len() == 0),
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: as_slice
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self.s(),
//@sub /let ptr = self\.src\.as_ptr\(\);/ => ## raw slice
//@sub /std::slice::from_raw_parts\(ptr, (.*?)\) \}/ => self.src.raw_slice(\1) } ## raw slice
//@post
        proof { assert(r@ =~= self.s()); }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: get_idx
//@ret r
//@spec
        requires self.inv(),
        ensures r matches Some(i) ==> i < self.s().len() && X::key(self.s()[i as int]) == key@ && at::<E, X>(self.s(), key@) == Some(self.s()[i as int]),
            r is None ==> at::<E, X>(self.s(), key@) is None,
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@head
        broadcast use {store_len, mem_len};
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: get
//@ret r
//@spec
        requires self.inv(),
        ensures match r { Some(e) => at::<E, X>(self.s(), key@) == Some(*e), None => at::<E, X>(self.s(), key@) is None },
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@sub /self\.as_slice\(\)\.get_unchecked\(idx\)/ => get_unchecked(self.as_slice(), idx) ## slice::get_unchecked
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: get_mut
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).same(*old(self)), match r {
            Some(e) => at::<E, X>(old(self).s(), key@) == Some(*e) && (X::key(*final(e)) == key@ ==> final(self).inv() && with::<E, X>(old(self).s(), final(self).s(), key@, Some(*final(e)))),
            None => at::<E, X>(old(self).s(), key@) is None && final(self).s() == old(self).s(),
        },
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@sub /self\.as_slice_mut\(\)\.get_unchecked_mut\(idx\)/ => self.src.raw_at_mut(idx) ## slice::get_unchecked_mut on the raw slice
//@before /Some\(unsafe/
        let ghost s0 = self.s();
        proof {
            assert forall|x: E| X::key(x) == X::key(s0[idx as int]) implies distinct::<E, X>(#[trigger] s0.update(idx as int, x)) && with::<E, X>(s0, s0.update(idx as int, x), X::key(x), Some(x))
                && strict::<E, X>(s0.update(idx as int, x).take(self.src.n() as int)) by { replaced::<E, X>(s0, idx as int, x); assert(strict::<E, X>(s0.take(self.src.n() as int))); }
        }
//@end
/// A new key goes behind the others; the sorted part grows only if that keeps it sorted.
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: push
//@ret r
//@spec
        requires old(self).inv(), at::<E, X>(old(self).s(), X::key(elem)) is None,
        ensures *r == elem, final(self).same(*old(self)), final(self).s() == old(self).s().push(*final(r)),
            X::key(*final(r)) == X::key(elem) ==> final(self).inv() && with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(*final(r))),
//@sub /X::extract_key\(&elem\)/ => extract_key::<E, X>(&elem) ## key extraction by its specification
//@sub /Some\(key\) > self\.as_slice\(\)\.last\(\)\.map\(X::extract_key\)/ => above_last::<E, X>(key, self.as_slice()) ## order of options
//@sub /panic!\("FlatMap failed allocation: \{e\}"\);/ => panic_alloc(e) ## allocation failure
//@sub /let mut ptr = self\.src\.as_mut_ptr\(\);/ => ## pointer to the last element
//@sub /unsafe \{\s*ptr = ptr\.add\((.*?)\);\s*ptr\.as_mut\(\)\.unwrap_unchecked\(\)\s*\}/ => unsafe { self.src.raw_at_mut(\1) } ## pointer to the last element
//@head
        broadcast use {store_len, mem_len};
        let ghost s0 = self.s();
        let ghost n0 = self.src.n() as int;
        proof { appended::<E, X>(s0, elem); X::order(); assert(s0.take(s0.len() as int) =~= s0); assert(s0.push(elem).take(s0.len() as int + 1) =~= s0.push(elem)); }
//@before /let mut ptr = self\.src\.as_mut_ptr/
        proof {
            let t = s0.push(elem);
            assert(self.s() == t);
            assert(strict::<E, X>(t.take(self.src.n() as int)));
            assert forall|x: E| X::key(x) == X::key(elem) implies #[trigger] t.update(s0.len() as int, x) == s0.push(x)
                && distinct::<E, X>(s0.push(x)) && with::<E, X>(s0, s0.push(x), X::key(x), Some(x)) && strict::<E, X>(s0.push(x).take(self.src.n() as int)) by {
                assert(t.update(s0.len() as int, x) =~= s0.push(x));
                appended::<E, X>(s0, x);
                replaced::<E, X>(t, s0.len() as int, x);
            }
            assert forall|x: E| #[trigger] t.update(s0.len() as int, x) == s0.push(x) by { assert(t.update(s0.len() as int, x) =~= s0.push(x)); }
        }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: insert
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(elem)),
            r == at::<E, X>(old(self).s(), X::key(elem)),
//@sub /X::extract_key\(&elem\)\.borrow\(\)/ => extract_key::<E, X>(&elem) ## key extraction by its specification
//@sub /self\.as_slice_mut\(\)\.get_unchecked_mut\(idx\)/ => self.src.raw_at_mut(idx) ## slice::get_unchecked_mut on the raw slice
//@before /let kb =/
        let ghost s0 = self.s();
//@before /let old_elem =/
            proof { replaced::<E, X>(s0, idx as int, elem); }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: try_insert
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)),
            at::<E, X>(old(self).s(), X::key(elem)) is Some ==> r == Some(elem) && final(self).s() == old(self).s(),
            at::<E, X>(old(self).s(), X::key(elem)) is None ==> r is None && with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(elem)),
//@sub /X::extract_key\(&elem\)\.borrow\(\)/ => extract_key::<E, X>(&elem) ## key extraction by its specification
//@end
/// The element stays reachable for its user, who must keep the key.
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: get_or_insert
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).same(*old(self)),
            at::<E, X>(old(self).s(), X::key(elem)) matches Some(e) ==> r.1 == Some(elem) && *r.0 == e,
            at::<E, X>(old(self).s(), X::key(elem)) is None ==> r.1 is None && *r.0 == elem,
            X::key(*final(r.0)) == X::key(elem) ==> final(self).inv() && with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(*final(r.0))),
//@sub /X::extract_key\(&elem\)\.borrow\(\)/ => extract_key::<E, X>(&elem) ## key extraction by its specification
//@sub /self\.as_slice_mut\(\)\.get_unchecked_mut\(idx\)/ => self.src.raw_at_mut(idx) ## slice::get_unchecked_mut on the raw slice
//@before /let kb =/
        let ghost s0 = self.s();
//@before /\(unsafe \{ self\.as_slice_mut/
            proof {
                assert forall|x: E| X::key(x) == X::key(elem) implies distinct::<E, X>(#[trigger] s0.update(idx as int, x)) && with::<E, X>(s0, s0.update(idx as int, x), X::key(x), Some(x))
                    && strict::<E, X>(s0.update(idx as int, x).take(self.src.n() as int)) by { replaced::<E, X>(s0, idx as int, x); assert(strict::<E, X>(s0.take(self.src.n() as int))); }
            }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: remove
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), with::<E, X>(old(self).s(), final(self).s(), key@, None),
            r == at::<E, X>(old(self).s(), key@),
//@sub /&X::KeyBorrowed/ => &KeyRef<E, X> ## key by its value
//@sub /std::cmp::min\(/ => min( ## std
//@head
        broadcast use {store_len, mem_len};
//@before /let sorted_until =/
        proof { swapped_out::<E, X>(self.s(), idx as int, self.src.n() as int); }
//@end
//@fn src/util/flatmap.rs :: impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> :: clear
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), final(self).s().len() == 0,
//@head
        broadcast use {store_len, mem_len};
//@end
}
#[verifier::external_body]
pub const fn phantom<T>() -> PhantomData<T> { unimplemented!() }
#[verifier::external_body]
pub unsafe fn get_unchecked<E>(s: &[E], i: usize) -> (r: &E) requires i < s@.len() ensures *r == s@[i as int] { s.get_unchecked(i) }
// ---- Linked contracts ----
impl<E> Store<E> { pub open spec fn inv(&self) -> bool { self.plain() } }
impl<E, X: Keyed<E>> FlatMap<E, X> { pub open spec fn s(&self) -> Seq<E> { self.0.mem() } }
//@link mapstub.inc :: impl<E, X: Keyed<E>> FlatMap<E, X> :: inv FlatMap FlatMapEditGuard Vec :: sub Vec<E>->Store<E>;vec@->vec.mem();key: &[u8]->key: &KeyRef<E, X>;where X: Keyed<E, K = Seq<u8>>-> ;*final(self) == r.fate()->final(self).0 == *final(r.src)
new singleton from_vec get as_slice clear is_empty len
//@end
//@link mapstub.inc :: impl<E, X: Keyed<E>> FlatMap<E, X> :: inv FlatMap FlatMapEditGuard Vec :: sub Vec<E>->Store<E>;vec@->vec.mem();key: &[u8]->key: &KeyRef<E, X>;where X: Keyed<E, K = Seq<u8>>-> ;*final(self) == r.fate()->final(self).0 == *final(r.src) :: lent
edit get_mut as_slice_mut
//@end
//@link mapstub.inc :: impl<'a, E, X: Keyed<E>> FlatMapEditGuard<'a, E, X> :: inv FlatMapEditGuard :: sub key: &[u8]->key: &KeyRef<E, X>;where X: Keyed<E, K = Seq<u8>>-> ;final(self).fate() == old(self).fate()->final(self).same(*old(self));self.fate().s()->final(self.src).mem()
len is_empty get insert try_insert remove clear
drop_guard = let mut g = self; g.drop_guard()
//@end
//@link mapstub.inc :: impl<'a, E, X: Keyed<E>> FlatMapEditGuard<'a, E, X> :: inv FlatMapEditGuard :: sub key: &[u8]->key: &KeyRef<E, X>;where X: Keyed<E, K = Seq<u8>>-> ;final(self).fate() == old(self).fate()->final(self).same(*old(self));self.fate().s()->final(self.src).mem() :: lent
get_mut get_or_insert
//@end
}
fn main() {}
