// ---- The parts of a message, by the contracts proved in tags.rs, args.rs, source.rs and C14_numeric.rs ----
#[verifier::external_body]
pub struct Tags<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Tags<'a> {
    pub uninterp spec fn t(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub proof fn valid(&self) ensures tags_ok(self.t()), strict::<Tag, PairX>(self.t()) { }
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r.t().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(word: Word<'a>) -> (r: Self) ensures same_tags(r.t(), parse_tags(word@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.t().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_to<W: Write>(&self, w: &mut W) -> (r: Result<(), IoError>) ensures r is Ok ==> final(w).out() == old(w).out() + write_tags(self.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn owning<'b>(self) -> (r: Tags<'b>) ensures r.t() == self.t() { unimplemented!() }
}
#[verifier::external_body]
pub struct Args<'a> { _p: core::marker::PhantomData<&'a u8> }
/// The list: the words, then the long argument if there is one.
pub open spec fn join(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> Seq<Seq<u8>> { match l { Some(x) => w.push(x), None => w } }
pub open spec fn views<'a>(w: Seq<Arg<'a>>) -> Seq<Seq<u8>> { w.map_values(|a: Arg<'a>| a@) }
impl<'a> Args<'a> {
    pub uninterp spec fn w(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn l(&self) -> Option<Seq<u8>>;
    pub open spec fn list(&self) -> Seq<Seq<u8>> { join(self.w(), self.l()) }
    #[verifier::external_body]
    pub proof fn valid(&self) ensures list_ok(self.w(), self.l()) { }
    #[verifier::external_body]
    pub const fn empty() -> (r: Self) ensures r.list().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(line: Line<'a>) -> (r: Self) ensures (r.w(), r.l()) == parse_args(line@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.list().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_last_long(&self) -> (r: bool) ensures r == (self.l() is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize)
        requires write_args(self.w(), self.l()).len() < usize::MAX,
        ensures r == write_args(self.w(), self.l()).len() - (if self.l() is Some { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_last(&self) -> (r: (&[Arg<'a>], Option<&Line<'a>>))
        ensures self.list().len() == 0 ==> r.0@.len() == 0 && r.1 is None,
            self.list().len() > 0 ==> (r.1 matches Some(x) && x@ == self.list().last()) && views(r.0@) == self.list().drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn owning(self) -> (r: Args<'static>) ensures r.w() == self.w(), r.l() == self.l() { unimplemented!() }
}
pub type Src = (Seq<u8>, Option<UH>);
#[verifier::external_body]
pub struct NonZeroUsize { x: usize }
impl NonZeroUsize {
    pub uninterp spec fn val(&self) -> usize;
    #[verifier::external_body]
    pub fn get(&self) -> (r: usize) ensures r == self.val(), r > 0 { unimplemented!() }
}
//@item src/ircmsg/source.rs :: pub struct Source
//@end
//@item src/ircmsg/source.rs :: pub struct UserHost
//@end
impl<'a> UserHost<'a> {
    pub open spec fn view(&self) -> UH { (match self.user { Some(u) => Some(u@), None => None }, self.host@) }
    #[verifier::external_body]
    pub fn parse(string: Word<'a>) -> (r: Result<Self, ParseError>)
        ensures (r is Ok) == (parse_uh(string@) is Some), r matches Ok(x) ==> parse_uh(string@) == Some(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn owning(self) -> (r: UserHost<'static>) ensures r@ == self@ { unimplemented!() }
}
impl<'a> Source<'a> {
    pub open spec fn view(&self) -> Src { (self.nick@, match self.userhost { Some(x) => Some(x@), None => None }) }
    pub open spec fn out(&self) -> Seq<u8> { write_source(self@.0, self@.1) }
    #[verifier::external_body]
    pub fn parse(word: Word<'a>) -> (r: Result<Self, ParseError>)
        ensures (r is Ok) == (parse_source(word@) is Some), r matches Ok(s) ==> parse_source(word@) == Some(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_to<W: Write>(&self, w: &mut W) -> (r: Result<(), IoError>) ensures r is Ok ==> final(w).out() == old(w).out() + self.out() { unimplemented!() }
    #[verifier::external_body]
    pub fn len_nonzero(&self) -> (r: NonZeroUsize) ensures r.val() == (if self.out().len() < usize::MAX { self.out().len() } else { usize::MAX as nat }) { unimplemented!() }
    #[verifier::external_body]
    pub fn owning(self) -> (r: Source<'static>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn owning_merged(self) -> (r: Source<'static>) ensures r@ == self@ { unimplemented!() }
    /// Derived.
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn three_digits(s: Seq<u8>) -> bool { s.len() == 3 && digit(s[0]) && digit(s[1]) && digit(s[2]) }
#[verifier::external_body]
pub struct Numeric { x: u8 }
impl Numeric {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub proof fn valid(&self) ensures three_digits(self@) { }
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Option<Numeric>) ensures (r is Some) == three_digits(b@), r matches Some(n) ==> n@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub const fn as_str(&self) -> (r: &str) ensures text(r) == self@ { unimplemented!() }
}
pub open spec fn up(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| to_upper(b)) }
pub open spec fn letters(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> upper(#[trigger] s[i]) || lower(s[i]) }
impl<'a> Cmd<'a> {
    #[verifier::external_body]
    pub fn from_word(word: Word<'a>) -> (r: Result<Cmd<'a>, InvalidString>) ensures (r is Ok) == letters(word@), r matches Ok(c) ==> c@ == up(word@) { unimplemented!() }
    #[verifier::external_body]
    pub const fn as_str(&self) -> (r: &str) ensures text(r) == self@ { unimplemented!() }
}
