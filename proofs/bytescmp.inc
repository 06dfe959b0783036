// ---- Comparison of strings, by the contracts proved in bytes_impl.rs ----
impl<'a> Bytes<'a> {
    #[verifier::external_body]
    pub fn eq_bytes(&self, b: &Bytes) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_str(&self, other: &str) -> (r: bool) ensures r == (self@ == text(other)) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_str_ref(&self, other: &&str) -> (r: bool) ensures r == (self@ == text(*other)) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_slice(&self, other: &[u8]) -> (r: bool) ensures r == (self@ == other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_slice_ref(&self, other: &&[u8]) -> (r: bool) ensures r == (self@ == other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_array<const N: usize>(&self, other: &[u8; N]) -> (r: bool) ensures r == (self@ == other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_array_ref<const N: usize>(&self, other: &&[u8; N]) -> (r: bool) ensures r == (self@ == other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp_bytes(&self, other: &Bytes<'a>) -> (r: Ordering) ensures r == lex(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn partial_cmp_bytes(&self, other: &Bytes<'a>) -> (r: Option<Ordering>) ensures r == Some(lex(self@, other@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_bytes<H: Hasher>(&self, hasher: &mut H) ensures final(hasher).fed() == old(hasher).fed().push(self@) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq for Bytes<'a> { fn eq(&self, o: &Self) -> bool { self.eq_bytes(o) } }
impl<'a> PartialEqSpecImpl<[u8]> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &[u8]) -> bool { self@ == o@ } }
impl<'a> core::cmp::PartialEq<[u8]> for Bytes<'a> { fn eq(&self, o: &[u8]) -> bool { self.eq_slice(o) } }
impl<'a, 'b> PartialEqSpecImpl<&'b [u8]> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b [u8]) -> bool { self@ == o@ } }
impl<'a, 'b> core::cmp::PartialEq<&'b [u8]> for Bytes<'a> { fn eq(&self, o: &&'b [u8]) -> bool { self.eq_slice_ref(o) } }
impl<'a> PartialEqSpecImpl<str> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == text(o) } }
impl<'a> core::cmp::PartialEq<str> for Bytes<'a> { fn eq(&self, o: &str) -> bool { self.eq_str(o) } }
impl<'a, 'b> PartialEqSpecImpl<&'b str> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b str) -> bool { self@ == text(*o) } }
impl<'a, 'b> core::cmp::PartialEq<&'b str> for Bytes<'a> { fn eq(&self, o: &&'b str) -> bool { self.eq_str_ref(o) } }
impl<'a, const N: usize> PartialEqSpecImpl<[u8; N]> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &[u8; N]) -> bool { self@ == o@ } }
impl<'a, const N: usize> core::cmp::PartialEq<[u8; N]> for Bytes<'a> { fn eq(&self, o: &[u8; N]) -> bool { self.eq_array(o) } }
impl<'a, 'b, const N: usize> PartialEqSpecImpl<&'b [u8; N]> for Bytes<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'b [u8; N]) -> bool { self@ == o@ } }
impl<'a, 'b, const N: usize> core::cmp::PartialEq<&'b [u8; N]> for Bytes<'a> { fn eq(&self, o: &&'b [u8; N]) -> bool { self.eq_array_ref(o) } }
impl<'a> core::cmp::Eq for Bytes<'a> { }
impl<'a> PartialOrdSpecImpl for Bytes<'a> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(lex(self@, o@)) } }
impl<'a> core::cmp::PartialOrd for Bytes<'a> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.partial_cmp_bytes(o) } }
impl<'a> OrdSpecImpl for Bytes<'a> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { lex(self@, o@) } }
impl<'a> core::cmp::Ord for Bytes<'a> { fn cmp(&self, o: &Self) -> Ordering { self.cmp_bytes(o) } }
impl<'a> Hash for Bytes<'a> {
    open spec fn hashed(&self) -> Seq<Seq<u8>> { seq![self@] }
    fn hash<H: Hasher>(&self, h: &mut H) { self.hash_bytes(h); assert(old(h).fed() + seq![self@] =~= old(h).fed().push(self@)); }
    proof fn agree(&self, o: &Self) { }
}
