// ---- Tag lists as maps ----
/// The order of byte strings.
pub open spec fn before(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { before(a.drop_first(), b.drop_first()) }
}
pub proof fn before_irreflexive(a: Seq<u8>) ensures !before(a, a) decreases a.len() { if a.len() > 0 { before_irreflexive(a.drop_first()); } }
pub proof fn before_total(a: Seq<u8>, b: Seq<u8>) ensures before(a, b) || before(b, a) || a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        before_total(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn before_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires before(a, b), before(b, c) ensures before(a, c) decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { before_transitive(a.drop_first(), b.drop_first(), c.drop_first()); }
}
pub struct PairX;
impl Keyed<Tag> for PairX {
    type K = Seq<u8>;
    open spec fn key(e: Tag) -> Seq<u8> { e.0 }
    open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { before(a, b) }
    proof fn order() { bytes_order(); }
}
pub proof fn bytes_order()
    ensures
        forall|a: Seq<u8>| !#[trigger] before(a, a),
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] before(a, b) || before(b, a) || a == b,
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] before(a, b) && #[trigger] before(b, c) ==> before(a, c),
{
    assert forall|a: Seq<u8>| !#[trigger] before(a, a) by { before_irreflexive(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] before(a, b) || before(b, a) || a == b by { before_total(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] before(a, b) && #[trigger] before(b, c) implies before(a, c) by { before_transitive(a, b, c); }
}
pub open spec fn value(e: Option<Tag>) -> Option<Seq<u8>> { match e { Some(t) => Some(t.1), None => None } }
/// The value of a key in a list of tags: that of its last occurrence.
pub open spec fn lookup(w: Seq<Tag>, k: Seq<u8>) -> Option<Seq<u8>> { value(at::<Tag, PairX>(w, k)) }
pub open spec fn same_tags(w: Seq<Tag>, x: Seq<Tag>) -> bool { alike::<Tag, PairX>(w, x) }
pub open spec fn one_changed(w: Seq<Tag>, x: Seq<Tag>, k: Seq<u8>, v: Option<Seq<u8>>) -> bool {
    forall|q: Seq<u8>| #[trigger] lookup(x, q) == if q == k { v } else { lookup(w, q) }
}
