// ---- Maps: what a sequence of keyed elements says about each key ----
/// The key type's order, assumed a total order (Ord, with Borrow and Eq consistent with it).
pub trait Keyed<E>: Sized {
    type K;
    spec fn key(e: E) -> Self::K;
    spec fn lt(a: Self::K, b: Self::K) -> bool;
    proof fn order()
        ensures
            forall|a: Self::K| !#[trigger] Self::lt(a, a),
            forall|a: Self::K, b: Self::K| #[trigger] Self::lt(a, b) || Self::lt(b, a) || a == b,
            forall|a: Self::K, b: Self::K, c: Self::K| #[trigger] Self::lt(a, b) && #[trigger] Self::lt(b, c) ==> Self::lt(a, c);
}
/// The element that counts for key k: the last one with that key.
pub open spec fn at<E, X: Keyed<E>>(s: Seq<E>, k: X::K) -> Option<E> decreases s.len() {
    if s.len() == 0 { None } else if X::key(s.last()) == k { Some(s.last()) } else { at::<E, X>(s.drop_last(), k) }
}
pub open spec fn strict<E, X: Keyed<E>>(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> X::lt(X::key(#[trigger] s[i]), X::key(#[trigger] s[j])) }
pub open spec fn ascending<E, X: Keyed<E>>(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !X::lt(X::key(#[trigger] s[j]), X::key(#[trigger] s[i])) }
pub open spec fn distinct<E, X: Keyed<E>>(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> X::key(#[trigger] s[i]) != X::key(#[trigger] s[j]) }
/// The same map.
pub open spec fn alike<E, X: Keyed<E>>(s: Seq<E>, t: Seq<E>) -> bool { forall|k: X::K| #[trigger] at::<E, X>(s, k) == at::<E, X>(t, k) }
/// The map with one key set / gone.
pub open spec fn with<E, X: Keyed<E>>(s: Seq<E>, t: Seq<E>, k: X::K, e: Option<E>) -> bool {
    forall|q: X::K| #[trigger] at::<E, X>(t, q) == if q == k { e } else { at::<E, X>(s, q) }
}
pub proof fn at_some<E, X: Keyed<E>>(s: Seq<E>, k: X::K)
    ensures
        at::<E, X>(s, k) matches Some(e) ==> X::key(e) == k && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e,
        at::<E, X>(s, k) is None ==> forall|i: int| 0 <= i < s.len() ==> X::key(#[trigger] s[i]) != k,
    decreases s.len(),
{
    if s.len() > 0 && X::key(s.last()) != k {
        let t = s.drop_last();
        at_some::<E, X>(t, k);
        if at::<E, X>(t, k) is Some {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == at::<E, X>(t, k)->Some_0;
            assert(s[i] == t[i]);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies X::key(#[trigger] s[i]) != k by { if i < t.len() { assert(t[i] == s[i]); } }
        }
    } else if s.len() > 0 { assert(s[s.len() - 1] == s.last()); }
}
pub proof fn at_here<E, X: Keyed<E>>(s: Seq<E>, i: int)
    requires distinct::<E, X>(s), 0 <= i < s.len(),
    ensures at::<E, X>(s, X::key(s[i])) == Some(s[i]),
{
    at_some::<E, X>(s, X::key(s[i]));
    if at::<E, X>(s, X::key(s[i])) is Some {
        let e = at::<E, X>(s, X::key(s[i]))->Some_0;
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == e;
        assert(s[j] == e);
        if j < i { assert(X::key(s[j]) != X::key(s[i])); } else if i < j { assert(X::key(s[i]) != X::key(s[j])); }
    }
}
/// Two sequences of distinct keys with the same elements are the same map.
pub proof fn same_elements<E, X: Keyed<E>>(s: Seq<E>, t: Seq<E>)
    requires distinct::<E, X>(s), distinct::<E, X>(t),
        forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i]), forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]),
    ensures alike::<E, X>(s, t),
{
    assert forall|k: X::K| #[trigger] at::<E, X>(s, k) == at::<E, X>(t, k) by {
        at_some::<E, X>(s, k);
        at_some::<E, X>(t, k);
        if at::<E, X>(s, k) is Some {
            let e = at::<E, X>(s, k)->Some_0;
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e;
            assert(t.contains(s[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == e;
            at_here::<E, X>(t, j);
        } else if at::<E, X>(t, k) is Some {
            let e = at::<E, X>(t, k)->Some_0;
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == e;
            assert(s.contains(t[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == e;
            assert(X::key(s[j]) == k);
        }
    }
}
pub proof fn strict_distinct<E, X: Keyed<E>>(s: Seq<E>)
    requires strict::<E, X>(s),
    ensures distinct::<E, X>(s),
{ X::order(); }
/// In sorted order a map has only one form: comparing the sequences compares the maps.
pub proof fn canonical<E, X: Keyed<E>>(s: Seq<E>, t: Seq<E>)
    requires strict::<E, X>(s), strict::<E, X>(t), alike::<E, X>(s, t),
    ensures s == t,
    decreases s.len(),
{
    X::order();
    strict_distinct::<E, X>(s);
    strict_distinct::<E, X>(t);
    if s.len() == 0 {
        if t.len() > 0 { assert(at::<E, X>(t, X::key(t.last())) is Some); assert(at::<E, X>(s, X::key(t.last())) is None); }
        assert(s =~= t);
    } else if t.len() == 0 {
        assert(at::<E, X>(s, X::key(s.last())) is Some); assert(at::<E, X>(t, X::key(s.last())) is None);
    } else {
        let (a, b) = (s.last(), t.last());
        at_some::<E, X>(t, X::key(a));
        at_some::<E, X>(s, X::key(b));
        assert(at::<E, X>(s, X::key(a)) == Some(a));
        assert(at::<E, X>(t, X::key(a)) == Some(a));
        assert(at::<E, X>(t, X::key(b)) == Some(b));
        assert(at::<E, X>(s, X::key(b)) == Some(b));
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == a;
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == b;
        if i < t.len() - 1 { assert(X::lt(X::key(t[i]), X::key(t[t.len() - 1]))); }
        if j < s.len() - 1 { assert(X::lt(X::key(s[j]), X::key(s[s.len() - 1]))); }
        assert(a == b);
        let (p, q) = (s.drop_last(), t.drop_last());
        assert(strict::<E, X>(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies X::lt(X::key(#[trigger] p[i]), X::key(#[trigger] p[j])) by { assert(X::lt(X::key(s[i]), X::key(s[j]))); } }
        assert(strict::<E, X>(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies X::lt(X::key(#[trigger] q[i]), X::key(#[trigger] q[j])) by { assert(X::lt(X::key(t[i]), X::key(t[j]))); } }
        assert forall|k: X::K| #[trigger] at::<E, X>(p, k) == at::<E, X>(q, k) by {
            if k == X::key(a) {
                at_some::<E, X>(p, k); at_some::<E, X>(q, k);
                if at::<E, X>(p, k) is Some { let m = choose|m: int| 0 <= m < p.len() && #[trigger] p[m] == at::<E, X>(p, k)->Some_0; assert(X::key(s[m]) != X::key(s[s.len() - 1])); }
                if at::<E, X>(q, k) is Some { let m = choose|m: int| 0 <= m < q.len() && #[trigger] q[m] == at::<E, X>(q, k)->Some_0; assert(X::key(t[m]) != X::key(t[t.len() - 1])); }
            } else { assert(at::<E, X>(s, k) == at::<E, X>(t, k)); }
        }
        canonical::<E, X>(p, q);
        assert(s =~= p.push(a));
        assert(t =~= q.push(b));
    }
}
