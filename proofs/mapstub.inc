// ---- FlatMap and its edit guard, by the contracts proved in flatmap.rs (their invariants hold between operations) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(X)]
pub struct FlatMap<E, X: Keyed<E>> { p: core::marker::PhantomData<(E, X)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(X)]
pub struct FlatMapEditGuard<'a, E, X: Keyed<E>> { p: core::marker::PhantomData<&'a mut (E, X)> }
impl<E, X: Keyed<E>> FlatMap<E, X> {
    /// The elements, in order of their keys.
    pub uninterp spec fn s(&self) -> Seq<E>;
    #[verifier::external_body]
    pub proof fn inv(&self) ensures strict::<E, X>(self.s()), self.s().len() <= isize::MAX { }
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r.s().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn singleton(elem: E) -> (r: Self) ensures r.s() == seq![elem] { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(vec: Vec<E>) -> (r: Self) ensures alike::<E, X>(r.s(), vec@) { unimplemented!() }
    /// The guard works on what the map will be once it is gone.
    #[verifier::external_body]
    pub fn edit(&mut self) -> (r: FlatMapEditGuard<'_, E, X>) ensures r.s() == old(self).s(), *final(self) == r.fate() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &[u8]) -> (r: Option<&E>) where X: Keyed<E, K = Seq<u8>>
        ensures match r { Some(e) => at::<E, X>(self.s(), key@) == Some(*e), None => at::<E, X>(self.s(), key@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, key: &[u8]) -> (r: Option<&mut E>) where X: Keyed<E, K = Seq<u8>>
        ensures match r {
            Some(e) => at::<E, X>(old(self).s(), key@) == Some(*e) && (X::key(*final(e)) == key@ ==> with::<E, X>(old(self).s(), final(self).s(), key@, Some(*final(e)))),
            None => at::<E, X>(old(self).s(), key@) is None && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[E]) ensures r@ == self.s() { unimplemented!() }
    /// The caller leaves the keys alone.
    #[verifier::external_body]
    pub fn as_slice_mut(&mut self) -> (r: &mut [E])
        ensures r@ == old(self).s(), final(r)@.len() == r@.len() && (forall|i: int| 0 <= i < r@.len() ==> X::key(#[trigger] final(r)@[i]) == X::key(r@[i])) ==> final(self).s() == final(r)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).s().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
}
impl<'a, E, X: Keyed<E>> FlatMapEditGuard<'a, E, X> {
    /// The elements during the session; the map after it.
    pub uninterp spec fn s(&self) -> Seq<E>;
    pub uninterp spec fn fate(&self) -> FlatMap<E, X>;
    #[verifier::external_body]
    pub proof fn inv(&self) ensures distinct::<E, X>(self.s()), self.s().len() <= isize::MAX { }
    #[verifier::external_body]
    pub fn drop_guard(self) ensures alike::<E, X>(self.fate().s(), self.s()), self.fate().s().len() == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &[u8]) -> (r: Option<&E>) where X: Keyed<E, K = Seq<u8>>
        ensures match r { Some(e) => at::<E, X>(self.s(), key@) == Some(*e), None => at::<E, X>(self.s(), key@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, key: &[u8]) -> (r: Option<&mut E>) where X: Keyed<E, K = Seq<u8>>
        ensures final(self).fate() == old(self).fate(), match r {
            Some(e) => at::<E, X>(old(self).s(), key@) == Some(*e) && (X::key(*final(e)) == key@ ==> with::<E, X>(old(self).s(), final(self).s(), key@, Some(*final(e)))),
            None => at::<E, X>(old(self).s(), key@) is None && final(self).s() == old(self).s(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, elem: E) -> (r: Option<E>)
        ensures final(self).fate() == old(self).fate(), with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(elem)), r == at::<E, X>(old(self).s(), X::key(elem)) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_insert(&mut self, elem: E) -> (r: Option<E>)
        ensures final(self).fate() == old(self).fate(),
            at::<E, X>(old(self).s(), X::key(elem)) is Some ==> r == Some(elem) && final(self).s() == old(self).s(),
            at::<E, X>(old(self).s(), X::key(elem)) is None ==> r is None && with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(elem)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_insert(&mut self, elem: E) -> (r: (&mut E, Option<E>))
        ensures final(self).fate() == old(self).fate(),
            at::<E, X>(old(self).s(), X::key(elem)) matches Some(e) ==> r.1 == Some(elem) && *r.0 == e,
            at::<E, X>(old(self).s(), X::key(elem)) is None ==> r.1 is None && *r.0 == elem,
            X::key(*final(r.0)) == X::key(elem) ==> with::<E, X>(old(self).s(), final(self).s(), X::key(elem), Some(*final(r.0))) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, key: &[u8]) -> (r: Option<E>) where X: Keyed<E, K = Seq<u8>>
        ensures final(self).fate() == old(self).fate(), with::<E, X>(old(self).s(), final(self).s(), key@, None), r == at::<E, X>(old(self).s(), key@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).fate() == old(self).fate(), final(self).s().len() == 0 { unimplemented!() }
}
