//@meta property C21
//@meta assume dyn SaslLogic is a boxed object with a name and a fixed answer to every challenge
//@meta assume VecDeque, BTreeSet and the comma-split set stubs satisfy their stated contracts
//@meta assume credential lengths sum to less than usize::MAX
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
//@include smsg.inc
// ---- Base64 in pieces, by the contracts proved in base64.rs ----
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b64_reads(s: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn plus() -> Seq<u8> { seq![43u8] }
pub open spec fn chunks(s: Seq<u8>, max: nat) -> Seq<Seq<u8>> decreases s.len() {
    if max == 0 { Seq::empty() }
    else if s.len() == 0 { seq![plus()] }
    else if s.len() < max { seq![s] }
    else { seq![pre(s, max)] + chunks(suf(s, max), max) }
}
#[verifier::external_body]
pub struct ChunkEncoder { x: u8 }
impl ChunkEncoder {
    pub uninterp spec fn pending(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new(bytes: SecretBuf, max: usize, secret: bool) -> (r: Self) ensures r.pending() == chunks(b64(bytes@), max as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Arg<'static>>)
        ensures match r { Some(c) => old(self).pending().len() > 0 && c@ == old(self).pending()[0] && final(self).pending() == old(self).pending().drop_first(), None => old(self).pending().len() == 0 && final(self).pending() == old(self).pending() } { unimplemented!() }
}
#[verifier::external_body]
pub struct DecodeError { x: u8 }
#[verifier::external_body]
pub struct ChunkDecoder { x: u8 }
impl ChunkDecoder {
    pub uninterp spec fn buf(&self) -> Seq<u8>;
    pub uninterp spec fn limit(&self) -> nat;
    pub open spec fn took(&self, c: Seq<u8>, r: Option<Option<Seq<u8>>>, new: &Self) -> bool {
        new.limit() == self.limit() && if c.len() < self.limit() { r == Some(b64_reads(if c == plus() { self.buf() } else { self.buf() + c })) && new.buf().len() == 0 } else { r is None && new.buf() == self.buf() + c }
    }
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r.buf() == Seq::<u8>::empty(), r.limit() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(&mut self) -> (r: Result<Bytes<'static>, DecodeError>)
        ensures final(self).limit() == old(self).limit(), final(self).buf().len() == 0, (r is Ok) == (b64_reads(old(self).buf()) is Some), r matches Ok(b) ==> b@ == b64_reads(old(self).buf())->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, chunk: &[u8]) -> (r: Option<Result<Bytes<'static>, DecodeError>>)
        ensures old(self).took(chunk@, match r { None => None, Some(Ok(b)) => Some(Some(b@)), Some(Err(_)) => Some(None) }, final(self)) { unimplemented!() }
}
// ---- Secret buffers, by the contracts proved in secretbuf.rs ----
#[verifier::external_body]
pub struct SecretBuf { x: u8 }
impl SecretBuf {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_cstr(&mut self, s: &[u8]) requires old(self)@.len() + s@.len() + 1 <= usize::MAX ensures final(self)@ == (old(self)@ + s@).push(0u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_slice(&mut self, s: &[u8]) requires old(self)@.len() + s@.len() <= usize::MAX ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn buf_swap(a: &mut SecretBuf, b: &mut SecretBuf) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { unimplemented!() }
// ---- Trusted contracts ----
#[verifier::external_body]
pub fn str_is(a: &str, b: &'static str) -> (r: bool) ensures r == (text(a) == text(b)) { unimplemented!() }
#[verifier::external_body]
pub fn lit_arg(s: &'static str) -> (r: Arg<'static>) ensures r@ == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn arg_eq<'a, 'b>(a: &Arg<'a>, b: &Arg<'b>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn first_word<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<&'b Arg<'a>>) ensures (r is Some) == (s@.len() > 0), r matches Some(x) ==> *x == s@[0], s@.len() == views(s@).len(), r matches Some(x) ==> x@ == views(s@)[0] { unimplemented!() }
#[verifier::external_body]
pub fn last_or_default<'a>(x: Option<&Line<'a>>) -> (r: Line<'a>) ensures r@ == (match x { Some(y) => y@, None => Seq::empty() }) { unimplemented!() }
impl<'a> Args<'a> {
    #[verifier::external_body]
    pub fn words(&self) -> (r: &[Arg<'a>]) ensures views(r@) == self.w() { unimplemented!() }
}
#[verifier::external_body]
pub struct BoxError { x: u8 }
#[verifier::external_body]
pub fn boxed_error(s: &'static str) -> BoxError { unimplemented!() }
/// What a slice falls into at a byte.
pub open spec fn pieces(s: Seq<u8>, b: u8) -> Seq<Seq<u8>> decreases s.len() {
    let n = until(s, b);
    if n >= s.len() { seq![s] } else { seq![pre(s, n)] + pieces(suf(s, n + 1), b) }
}
/// BTreeSet of the pieces of some words.
#[verifier::external_body]
pub struct MechSet<'b> { p: core::marker::PhantomData<&'b u8> }
pub open spec fn listed(w: Seq<Seq<u8>>, m: Seq<u8>) -> bool { exists|i: int| 0 <= i < w.len() && #[trigger] pieces(w[i], 44).contains(m) }
impl<'b> MechSet<'b> {
    pub uninterp spec fn words(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn of<'a>(s: &'b [Arg<'a>]) -> (r: Self) ensures r.words() == views(s@), s@.len() == 0 ==> r.words() == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &[u8]) -> (r: bool) ensures r == listed(self.words(), x@) { unimplemented!() }
}
/// Which names a closure accepts.
pub open spec fn decides<F: Fn(&Arg<'_>) -> bool>(f: F, p: spec_fn(Seq<u8>) -> bool) -> bool { (forall|a: &Arg<'_>| call_requires(f, (a,))) && forall|a: &Arg<'_>, b: bool| call_ensures(f, (a,), b) ==> b == p(a@) }
pub open spec fn picks<F: Fn(&BoxLogic) -> bool>(f: F, p: spec_fn(BoxLogic) -> bool) -> bool { (forall|a: &BoxLogic| call_requires(f, (a,))) && forall|a: &BoxLogic, b: bool| call_ensures(f, (a,), b) ==> b == p(*a) }
/// VecDeque
#[verifier::external_body]
pub struct Deque { x: u8 }
impl Deque {
    pub uninterp spec fn view(&self) -> Seq<BoxLogic>;
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<BoxLogic>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Deque) ensures final(self)@ == old(self)@ + old(o)@, final(o)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<BoxLogic>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&BoxLogic) -> bool>(&mut self, f: F)
        requires forall|a: &BoxLogic| call_requires(f, (a,)),
        ensures forall|p: spec_fn(BoxLogic) -> bool| #[trigger] picks(f, p) ==> final(self)@ == old(self)@.filter(p) { unimplemented!() }
}
// ---- Mechanisms ----
/// A mechanism: its name and what it says to a challenge.
pub trait SaslLogic: Sized {
    spec fn nm(&self) -> Seq<u8>;
    spec fn says(&self, input: Seq<u8>) -> Option<Seq<u8>>;
    fn name(&self) -> (r: Arg<'static>) ensures r@ == self.nm();
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> (r: Result<(), BoxError>)
        requires old(output)@.len() == 0,
        ensures final(self).nm() == old(self).nm(), (r is Ok) == (old(self).says(input@) is Some), r is Ok ==> final(output)@ == old(self).says(input@)->Some_0;
    fn size_hint(&self) -> usize;
}
/// Box<dyn SaslLogic>: any mechanism that keeps the trait's contract.
#[verifier::external_body]
pub struct BoxLogic { x: u8 }
impl BoxLogic {
    pub uninterp spec fn nm(&self) -> Seq<u8>;
    pub uninterp spec fn says(&self, input: Seq<u8>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn of<L: SaslLogic>(l: L) -> (r: BoxLogic) ensures r.nm() == l.nm(), forall|i: Seq<u8>| #[trigger] r.says(i) == l.says(i) { unimplemented!() }
}
impl SaslLogic for BoxLogic {
    open spec fn nm(&self) -> Seq<u8> { BoxLogic::nm(self) }
    open spec fn says(&self, input: Seq<u8>) -> Option<Seq<u8>> { BoxLogic::says(self, input) }
    #[verifier::external_body]
    fn name(&self) -> (r: Arg<'static>) { unimplemented!() }
    #[verifier::external_body]
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> (r: Result<(), BoxError>) { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> usize { unimplemented!() }
}
// ---- Specification ----
/// C21: what PLAIN says.
pub open spec fn plain(authzid: Seq<u8>, authcid: Seq<u8>, passwd: Seq<u8>) -> Seq<u8> { authzid + seq![0u8] + authcid + seq![0u8] + passwd }
pub open spec fn say(w: Seq<u8>) -> Sent { Sent { tags: Seq::empty(), cmd: text("AUTHENTICATE"), args: seq![w] } }
pub open spec fn says_all(c: Seq<Seq<u8>>) -> Seq<Sent> { c.map_values(|w: Seq<u8>| say(w)) }
pub open spec fn fresh(d: ChunkDecoder) -> bool { d.limit() == 400 && d.buf().len() == 0 }
pub open spec fn not_named(n: Seq<u8>) -> spec_fn(BoxLogic) -> bool { |l: BoxLogic| l.nm() != n }
pub open spec fn in_list(w: Seq<Seq<u8>>) -> spec_fn(BoxLogic) -> bool { |l: BoxLogic| listed(w, l.nm()) }
/// C21: the mechanisms of several configurations, in order.
pub open spec fn gathered<S: Sasl>(v: Seq<&S>, l: Seq<BoxLogic>) -> bool decreases v.len() { if v.len() == 0 { l.len() == 0 } else { exists|a: Seq<BoxLogic>, b: Seq<BoxLogic>| gathered(v.drop_last(), a) && #[trigger] v.last().means(b) && l == #[trigger] (a + b) } }
/// The next mechanism in order takes over.
pub open spec fn next(q: Seq<BoxLogic>, b: &Handler) -> bool { q.len() > 0 && b.logic == q[0] && b.queue@ == q.drop_first() && fresh(b.decoder) }
/// C21: one step of authentication: from `a`, by `m`, to `b`, sending `out`, answering `r`.
pub open spec fn step<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler, out: Seq<Sent>, r: Result<bool, HandlerError>) -> bool {
    let k = m.kind@;
    let same = b.logic == a.logic && b.queue == a.queue && b.decoder == a.decoder;
    if k == text("AUTHENTICATE") { exists|d: ChunkDecoder, ans: Option<Option<Seq<u8>>>| #[trigger] heard(a, m, d, ans) && challenged(a, b, ans, out, r) && (if ans is None { b.decoder == d } else { b.decoder.buf().len() == 0 }) }
    else if k == text("902") || k == text("904") {
        if a.queue@.len() > 0 { next(a.queue@, b) && out == seq![say(a.queue@[0].nm())] && r == Ok::<bool, HandlerError>(false) }
        else { same && out.len() == 0 && r is Err }
    }
    else if k == text("905") { same && out.len() == 0 && r is Err }
    else if k == text("906") { same && out == seq![say(a.logic.nm())] && r == Ok::<bool, HandlerError>(false) }
    else if k == text("908") {
        let w = if m.args.list().len() > 0 { m.args.list().drop_last() } else { Seq::empty() };
        b.logic == a.logic && b.decoder == a.decoder && b.queue@ == a.queue@.filter(in_list(w)) && out.len() == 0
        && if b.queue@.len() == 0 && !listed(w, a.logic.nm()) { r is Err } else { r == Ok::<bool, HandlerError>(false) }
    }
    else { same && out.len() == 0 && r == Ok::<bool, HandlerError>(k == text("900") || k == text("903") || k == text("907")) }
}
pub open spec fn ans_of<'a>(r: Option<Result<Bytes<'a>, DecodeError>>) -> Option<Option<Seq<u8>>> { match r { None => None, Some(Ok(b)) => Some(Some(b@)), Some(Err(_)) => Some(None) } }
/// What the pieces so far decode to, if they are complete.
pub open spec fn heard<'a>(a: &Handler, m: ServerMsg<'a>, d: ChunkDecoder, ans: Option<Option<Seq<u8>>>) -> bool {
    if m.args.w().len() > 0 { a.decoder.took(m.args.w()[0], ans, &d) }
    else { ans == Some(b64_reads(a.decoder.buf())) && d.buf().len() == 0 && d.limit() == a.decoder.limit() }
}
pub open spec fn challenged(a: &Handler, b: &Handler, ans: Option<Option<Seq<u8>>>, out: Seq<Sent>, r: Result<bool, HandlerError>) -> bool {
    match ans {
        None => b.logic == a.logic && b.queue == a.queue && out.len() == 0 && r == Ok::<bool, HandlerError>(false),
        Some(None) => b.logic == a.logic && b.queue == a.queue && out == seq![say(text("*"))] && r is Err,
        Some(Some(chal)) => match a.logic.says(chal) {
            Some(reply) => b.logic.nm() == a.logic.nm() && b.queue == a.queue && out == says_all(chunks(b64(reply), 400)) && r == Ok::<bool, HandlerError>(false),
            None => {
                let q = a.queue@.filter(not_named(a.logic.nm()));
                out == seq![say(text("*"))] && if q.len() > 0 { next(q, b) && r == Ok::<bool, HandlerError>(false) } else { r is Err }
            }
        },
    }
}
/// C22: what registration relies on (register.rs).
proof fn as_registration_sees_it<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler, out: Seq<Sent>, r: Result<bool, HandlerError>)
    requires step(a, m, b, out, r),
    ensures
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).cmd == text("AUTHENTICATE"),
        !(m.kind@ == text("AUTHENTICATE") || m.kind@ == text("900") || m.kind@ == text("902") || m.kind@ == text("903") || m.kind@ == text("904") || m.kind@ == text("905") || m.kind@ == text("906") || m.kind@ == text("907") || m.kind@ == text("908")) ==> out.len() == 0 && r == Ok::<bool, HandlerError>(false),
{ }
/// C21: authentication succeeds only by the server's word.
proof fn success_by_numeric<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler, out: Seq<Sent>)
    requires step(a, m, b, out, Ok(true)),
    ensures m.kind@ == text("900") || m.kind@ == text("903") || m.kind@ == text("907"),
{ }
proof fn lits()
    ensures text("AUTHENTICATE").len() == 12, text("902") != text("904"), forall|s: &str| (#[trigger] text(s)).len() == 3 ==> text(s) != text("AUTHENTICATE"),
        text("902")[2] == 50, text("904")[2] == 52, text("905")[2] == 53, text("906")[2] == 54, text("908")[2] == 56, text("900")[2] == 48, text("903")[2] == 51, text("907")[2] == 55,
        text("902").len() == 3, text("904").len() == 3, text("905").len() == 3, text("906").len() == 3, text("908").len() == 3, text("900").len() == 3, text("903").len() == 3, text("907").len() == 3,
{
    broadcast use ascii_text;
    reveal_strlit("AUTHENTICATE"); reveal_strlit("900"); reveal_strlit("902"); reveal_strlit("903"); reveal_strlit("904"); reveal_strlit("905"); reveal_strlit("906"); reveal_strlit("907"); reveal_strlit("908");
    assert(text("AUTHENTICATE").len() == 12); assert(text("902")[2] == 50); assert(text("904")[2] == 52);
}
// ---- The code: mechanisms ----
//@item src/client/auth/sasl/password.rs :: struct PlainLogic
//@sub /PlainLogic\(SecretBuf\)/ => PlainLogic(pub SecretBuf) ## visibility
//@attr
pub
//@end
//@item src/client/auth/sasl/external.rs :: struct ExternalLogic
//@sub /ExternalLogic\((.*)\)/ => ExternalLogic(pub \1) ## visibility
//@attr
pub
//@end
//@item src/client/auth/sasl/password.rs :: static SASL_PLAIN_NAME
//@sub /static (\w+): Arg = Arg::from_str\((".*?")\);/ => pub fn plain_name() -> (r: Arg<'static>) ensures r@ == text("PLAIN") { lit_arg(\2) } ## a static
//@end
//@item src/client/auth/sasl/external.rs :: static NAME
//@sub /static (\w+): Arg = Arg::from_str\((".*?")\);/ => pub fn external_name() -> (r: Arg<'static>) ensures r@ == text("EXTERNAL") { lit_arg(\2) } ## a static
//@end
impl PlainLogic {
//@fn src/client/auth/sasl/password.rs :: impl PlainLogic :: new
//@ret r
//@spec
        requires authzid@.len() + authcid@.len() + passwd@.len() + 2 <= usize::MAX,
        ensures r.0@ == plain(authzid@, authcid@, passwd@),
//@before /PlainLogic\(data\)/
        proof { assert(data@ =~= plain(authzid@, authcid@, passwd@)); }
//@end
}
impl SaslLogic for PlainLogic {
    open spec fn nm(&self) -> Seq<u8> { text("PLAIN") }
    /// Once, and only if not asked anything.
    open spec fn says(&self, input: Seq<u8>) -> Option<Seq<u8>> { if input.len() == 0 && self.0@.len() > 0 { Some(self.0@) } else { None } }
//@fn src/client/auth/sasl/password.rs :: impl SaslLogic for PlainLogic :: name
//@ret r
//@sub /SASL_PLAIN_NAME\.clone\(\)/ => plain_name() ## a static
//@end
//@fn src/client/auth/sasl/password.rs :: impl SaslLogic for PlainLogic :: reply
//@ret r
//@spec
        ensures r is Ok ==> forall|i: Seq<u8>| final(self).says(i) is None,
//@sub /Box<dyn std::error::Error \+ Send \+ Sync \+ 'static>/ => BoxError ## dyn
//@sub /<'a>/ => ## lifetime
//@sub /&'a mut self/ => &mut self ## lifetime
//@sub /\bdata: &/ => input: & ## name in the trait
//@sub /\bdata\./ => input. ## name in the trait
//@sub /(".*?")\.into\(\)/ => boxed_error(\1) ## Into
//@sub /std::mem::swap/ => buf_swap ## by its contract
//@end
    fn size_hint(&self) -> usize { 0 }
}
impl SaslLogic for ExternalLogic {
    open spec fn nm(&self) -> Seq<u8> { text("EXTERNAL") }
    open spec fn says(&self, input: Seq<u8>) -> Option<Seq<u8>> { if input.len() == 0 { Some(self.0@) } else { None } }
//@fn src/client/auth/sasl/external.rs :: impl SaslLogic for ExternalLogic :: name
//@ret r
//@sub /NAME\.clone\(\)/ => external_name() ## a static
//@end
//@fn src/client/auth/sasl/external.rs :: impl SaslLogic for ExternalLogic :: reply
//@ret r
//@sub /Box<dyn std::error::Error \+ Send \+ Sync \+ 'static>/ => BoxError ## dyn
//@sub /<'a>/ => ## lifetime
//@sub /&'a mut self/ => &mut self ## lifetime
//@sub /(".*?")\.into\(\)/ => boxed_error(\1) ## Into
//@head
        let _fits = self.0.len();
//@before /output\.push_slice/
        proof { assert(output@ + self.0@ =~= self.0@); }
//@end
//@fn src/client/auth/sasl/external.rs :: impl SaslLogic for ExternalLogic :: size_hint
//@end
}
// ---- The code: configurations ----
/// What a configuration stands for: these mechanisms, in this order.
pub trait Sasl {
    spec fn sane(&self) -> bool;
    spec fn means(&self, l: Seq<BoxLogic>) -> bool;
    fn logic(&self) -> (r: Vec<BoxLogic>) requires self.sane() ensures self.means(r@);
}
/// A mechanism that will say PLAIN's words.
pub open spec fn is_plain(l: BoxLogic, z: Seq<u8>, c: Seq<u8>, p: Seq<u8>) -> bool { l.nm() == text("PLAIN") && forall|i: Seq<u8>| #[trigger] l.says(i) == (if i.len() == 0 { Some(plain(z, c, p)) } else { None }) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
pub struct Secret<T, S> { t: T, s: S }
impl<'a, S> Secret<NoNul<'a>, S> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    /// Deref
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// BTreeSet
#[verifier::external_body]
pub struct MethodSet { x: u8 }
impl MethodSet {
    pub uninterp spec fn has(&self, m: PasswordMechanism) -> bool;
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures forall|m: PasswordMechanism| !r.has(m) { unimplemented!() }
    /// [x].into_iter().collect()
    #[verifier::external_body]
    pub fn one(m: PasswordMechanism) -> (r: Self) ensures forall|x: PasswordMechanism| #[trigger] r.has(x) == (x == m) { unimplemented!() }
    /// difference(o).copied(), in order
    #[verifier::external_body]
    pub fn difference(&self, o: &Self) -> (r: Vec<PasswordMechanism>) ensures r@.no_duplicates(), forall|x: PasswordMechanism| #[trigger] r@.contains(x) == (self.has(x) && !o.has(x)) { unimplemented!() }
}
//@item src/client/auth/sasl/password.rs :: pub enum PasswordMechanism
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/client/auth/sasl/password.rs :: pub struct Password
//@sub /BTreeSet<PasswordMechanism>/ => MethodSet ## BTreeSet
//@attr
#[verifier::reject_recursive_types(S)]
//@end
//@item src/client/auth/sasl/password.rs :: pub struct Plain
//@attr
#[verifier::reject_recursive_types(S)]
//@end
//@item src/client/auth/sasl/external.rs :: pub struct External
//@end
impl PasswordMechanism {
//@fn src/client/auth/sasl/password.rs :: impl PasswordMechanism :: full_set
//@ret r
//@spec
        ensures forall|m: PasswordMechanism| r.has(m),
//@sub /pub\(self\)/ => pub ## visibility
//@sub /BTreeSet<PasswordMechanism>/ => MethodSet ## BTreeSet
//@sub /\[(PasswordMechanism::\w+)\]\.into_iter\(\)\.collect\(\)/ => MethodSet::one(\1) ## collect
//@end
//@fn src/client/auth/sasl/password.rs :: impl PasswordMechanism :: logic
//@ret r
//@spec
        requires authzid@.len() + authcid@.len() + passwd@.len() + 2 <= usize::MAX,
        ensures is_plain(r, authzid@, authcid@, passwd@),
//@sub /pub\(self\)/ => pub ## visibility
//@sub /Box<dyn SaslLogic>/ => BoxLogic ## dyn
//@sub /Box::new/ => BoxLogic::of ## dyn
//@end
}
impl<S> Password<S> {
//@fn src/client/auth/sasl/password.rs :: impl<S> Password<S> :: new
//@ret r
//@spec
        ensures r.authzid@.len() == 0, r.authcid == username, r.passwd == passwd, forall|m: PasswordMechanism| !r.deny_methods.has(m),
//@sub /const fn/ => fn ## stubs are called
//@sub /BTreeSet::new/ => MethodSet::new ## BTreeSet
//@end
}
impl<S> Sasl for Password<S> {
    open spec fn sane(&self) -> bool { self.authzid@.len() + self.authcid@.len() + self.passwd@.len() + 2 <= usize::MAX }
    open spec fn means(&self, l: Seq<BoxLogic>) -> bool { if self.deny_methods.has(PasswordMechanism::Plain) { l.len() == 0 } else { l.len() == 1 && is_plain(l[0], self.authzid@, self.authcid@, self.passwd@) } }
//@fn src/client/auth/sasl/password.rs :: impl<S> Sasl for Password<S> :: logic
//@ret r
//@sub /Vec<Box<dyn SaslLogic>>/ => Vec<BoxLogic> ## dyn
//@sub /PasswordMechanism::full_set\(\)\s*\.difference\(&self\.deny_methods\)\s*\.copied\(\)\s*\.map\(\|mech\| mech\.logic\(&self\.(\w+), &self\.(\w+), &self\.(\w+)\)\)\s*\.collect\(\)/ => let mechs = PasswordMechanism::full_set().difference(&self.deny_methods); proof { one_mech(mechs@, self.deny_methods); } let mut out = Vec::new(); for mech in it: mechs invariant self.sane(), out@.len() == it.index@, forall|i: int| 0 <= i < out@.len() ==> is_plain(#[trigger] out@[i], self.authzid@, self.authcid@, self.passwd@) { out.push(mech.logic(self.\1.as_bytes(), self.\2.as_bytes(), self.\3.as_bytes())); } out ## iterator chain
//@end
}
proof fn one_mech(v: Seq<PasswordMechanism>, deny: MethodSet)
    requires v.no_duplicates(), forall|x: PasswordMechanism| #[trigger] v.contains(x) == !deny.has(x),
    ensures v.len() == (if deny.has(PasswordMechanism::Plain) { 0int } else { 1int }),
{
    if v.len() > 0 { assert(v.contains(v[0])); }
    if v.len() > 1 { assert(v[0] == v[1]); }
    if !deny.has(PasswordMechanism::Plain) { assert(v.contains(PasswordMechanism::Plain)); }
}
impl<S> Plain<S> {
//@fn src/client/auth/sasl/password.rs :: impl<S> Plain<S> :: new
//@ret r
//@spec
        ensures r.authzid@.len() == 0, r.authcid == username, r.passwd == passwd,
//@sub /const fn/ => fn ## stubs are called
//@end
}
impl<S> Sasl for Plain<S> {
    open spec fn sane(&self) -> bool { self.authzid@.len() + self.authcid@.len() + self.passwd@.len() + 2 <= usize::MAX }
    open spec fn means(&self, l: Seq<BoxLogic>) -> bool { l.len() == 1 && is_plain(l[0], self.authzid@, self.authcid@, self.passwd@) }
//@fn src/client/auth/sasl/password.rs :: impl<S: LoadSecret + 'static> Sasl for Plain<S> :: logic
//@ret r
//@sub /Vec<Box<dyn SaslLogic>>/ => Vec<BoxLogic> ## dyn
//@sub /Box::new/ => BoxLogic::of ## dyn
//@end
}
impl Sasl for External {
    open spec fn sane(&self) -> bool { true }
    open spec fn means(&self, l: Seq<BoxLogic>) -> bool { l.len() == 1 && l[0].nm() == text("EXTERNAL") && forall|i: Seq<u8>| #[trigger] l[0].says(i) == (if i.len() == 0 { Some(self.0@) } else { None }) }
//@fn src/client/auth/sasl/external.rs :: impl Sasl for External :: logic
//@ret r
//@sub /Vec<Box<dyn SaslLogic>>/ => Vec<BoxLogic> ## dyn
//@sub /Box::new/ => BoxLogic::of ## dyn
//@end
}
// ---- The code: the queue ----
//@item src/client/auth.rs :: pub struct SaslQueue
//@sub /queue: std::collections::VecDeque<Box<dyn SaslLogic>>/ => queue: Deque ## VecDeque; dyn
//@end
impl SaslQueue {
    pub closed spec fn view(&self) -> Seq<BoxLogic> { self.queue@ }
//@fn src/client/auth.rs :: impl SaslQueue :: new
//@ret r
//@spec
        ensures r@.len() == 0,
//@sub /std::collections::VecDeque/ => Deque ## VecDeque
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: is_empty
//@ret r
//@spec
        ensures r == (self@.len() == 0),
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: len
//@ret r
//@spec
        ensures r == self@.len(),
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: clear
//@spec
        ensures final(self)@.len() == 0,
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: push
//@spec
        requires sasl.sane(),
        ensures exists|l: Seq<BoxLogic>| #[trigger] sasl.means(l) && final(self)@ == old(self)@ + l,
//@sub /push\(&mut self, sasl: &\(impl Sasl \+ \?Sized\)\)/ => push<S: Sasl>(&mut self, sasl: &S) ## the type named
//@sub /let mut vec_deque: std::collections::VecDeque<_> = sasl\.logic\(\)\.into\(\);/ => let mut vec_deque = Deque::from_vec(sasl.logic()); ## From
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: pop
//@ret r
//@spec
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && *final(self) == *old(self) },
//@sub /Box<dyn SaslLogic>/ => BoxLogic ## dyn
//@end
//@fn src/client/auth.rs :: impl SaslQueue :: retain
//@spec
        requires forall|a: &Arg<'_>| call_requires(*supported, (a,)),
        ensures forall|p: spec_fn(Seq<u8>) -> bool| #[trigger] decides(*supported, p) ==> final(self)@ == old(self)@.filter(|l: BoxLogic| p(l.nm())),
//@sub /retain\(&mut self, supported: &\(impl Fn\(&Arg<'_>\) -> bool \+ \?Sized\)\)/ => retain<F: Fn(&Arg<'_>) -> bool>(&mut self, supported: &F) ## the type named
//@sub /self\.queue\.retain\(\|l\| (.*)\);/ => let keep = |l: &BoxLogic| -> (b: bool) ensures exists|a: &Arg<'static>| #[trigger] a@ == l.nm() && call_ensures(*supported, (a,), b) { \1 }; proof { assert forall|p: spec_fn(Seq<u8>) -> bool| #[trigger] decides(*supported, p) implies picks(keep, |l: BoxLogic| p(l.nm())) by { } } self.queue.retain(keep); ## the closure named
//@end
//@fn src/client/auth.rs :: impl<'a, S: Sasl + ?Sized> std::iter::FromIterator<&'a S> for SaslQueue :: from_iter
//@ret r
//@spec
        requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).sane(),
        ensures gathered(iter@, r@),
//@sub /fn from_iter<T: IntoIterator<Item = &'a S>>\(iter: T\)/ => pub fn from_iter<'a, S: Sasl>(iter: Vec<&'a S>) ## any iterator, by the items it gives
//@opt /let iter = iter\.into_iter\(\);/ => ## any iterator, by the items it gives
//@opt /retval\.queue\.reserve\(iter\.size_hint\(\)\.0\);/ => ## capacity only
//@sub /for (\w+) in iter\b/ => for \1 in it: iter ## the loop's ghost iterator named
//@sub /-> Self/ => -> SaslQueue ## named
//@head
        let ghost items = iter@;
//@loop 0
        invariant forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).sane(), gathered(items.subrange(0, it.index@ as int), retval@), iter@ == items,
//@before /retval\.push\(sasl\)/
            let ghost was = retval@; let ghost i = it.index@ as int;
            proof { assert(*sasl == *items[i]); assert(items.subrange(0, i + 1).drop_last() =~= items.subrange(0, i)); }
//@after /retval\.push\(sasl\);/
            proof { let b = choose|b: Seq<BoxLogic>| #[trigger] sasl.means(b) && retval@ == was + b; assert(items.subrange(0, i + 1).last().means(b)); assert(gathered(items.subrange(0, i + 1), was + b)); }
//@before /retval\s*\}\s*\Z/
        proof { assert(items.subrange(0, items.len() as int) =~= items); }
//@end
//@fn src/client/auth.rs :: impl From<Vec<Box<dyn SaslLogic>>> for SaslQueue :: from
//@ret r
//@spec
        ensures r@ == value@,
//@sub /Vec<Box<dyn SaslLogic>>/ => Vec<BoxLogic> ## dyn
//@sub /value\.into\(\)/ => Deque::from_vec(value) ## From
//@end
}
// ---- The code: the handler ----
//@item src/client/auth/handler.rs :: pub struct Handler
//@sub /Box<dyn SaslLogic>/ => BoxLogic ## dyn
//@sub /crate::string::base64::ChunkDecoder/ => ChunkDecoder ## path
//@sub /queue:/ => pub queue: ## visibility
//@sub /logic:/ => pub logic: ## visibility
//@sub /decoder:/ => pub decoder: ## visibility
//@end
//@item src/client/auth/handler.rs :: pub enum HandlerError
//@end
//@fn src/client/auth.rs :: msg_abort
//@ret r
//@spec
    ensures sent_msg(r) == say(text("*")),
//@sub /use crate::names::cmd::AUTHENTICATE;/ => ## path
//@sub /ClientMsg::new\(AUTHENTICATE\)/ => ClientMsg::new_cmd(name("AUTHENTICATE")) ## name constant
//@sub /\.edit\(\)\.add_word\(crate::names::STAR\)/ => .edit_add_word(lit_arg("*")) ## name constant
//@after /add_word/
    proof { is_say(msg, text("*")); }
//@end
proof fn is_say<'a>(m: ClientMsg<'a>, w: Seq<u8>)
    requires m.tags.t().len() == 0, m.cmd@ == text("AUTHENTICATE"), m.args.w().len() == 1, m.args.w()[0] == w, m.args.l() is None,
    ensures sent_msg(m) == say(w),
{ assert(m.tags.t() =~= Seq::empty()); assert(m.args.list() =~= seq![w]); }
proof fn outs(s0: Seq<Sent>, s: Seq<Sent>)
    ensures s == s0 ==> s.subrange(0, s0.len() as int) == s0 && s.subrange(s0.len() as int, s.len() as int) == Seq::<Sent>::empty(),
        forall|x: Sent| s == #[trigger] s0.push(x) ==> s.subrange(0, s0.len() as int) == s0 && s.subrange(s0.len() as int, s.len() as int) == seq![x],
        forall|t: Seq<Sent>| s == #[trigger] (s0 + t) ==> s.subrange(0, s0.len() as int) == s0 && s.subrange(s0.len() as int, s.len() as int) == t,
{
    let n = s0.len() as int;
    if s == s0 { assert(s.subrange(0, n) =~= s0); assert(s.subrange(n, n) =~= Seq::empty()); }
    assert forall|x: Sent| s == #[trigger] s0.push(x) implies s.subrange(0, n) == s0 && s.subrange(n, s.len() as int) == seq![x] by { assert(s.subrange(0, n) =~= s0); assert(s.subrange(n, s.len() as int) =~= seq![x]); }
    assert forall|t: Seq<Sent>| s == #[trigger] (s0 + t) implies s.subrange(0, n) == s0 && s.subrange(n, s.len() as int) == t by { assert(s.subrange(0, n) =~= s0); assert(s.subrange(n, s.len() as int) =~= t); }
}
proof fn more(s0: Seq<Sent>, all: Seq<Seq<u8>>, left: Seq<Seq<u8>>)
    requires 0 < left.len() <= all.len(), left == all.subrange(all.len() - left.len(), all.len() as int),
    ensures (s0 + says_all(all.subrange(0, all.len() - left.len()))).push(say(left[0])) == s0 + says_all(all.subrange(0, all.len() - left.len() + 1)),
        left.drop_first() == all.subrange(all.len() - left.len() + 1, all.len() as int),
        all.subrange(0, all.len() as int) == all,
{
    let k = all.len() - left.len();
    assert((s0 + says_all(all.subrange(0, k))).push(say(left[0])) =~= s0 + says_all(all.subrange(0, k + 1)));
    assert(left.drop_first() =~= all.subrange(k + 1, all.len() as int));
    assert(all.subrange(0, all.len() as int) =~= all);
}
pub struct NoHandler;
impl Handler {
    pub open spec fn ok(&self) -> bool { self.decoder.limit() == 400 }
//@fn src/client/auth/handler.rs :: impl Handler :: new
//@ret r
//@spec
        ensures r.logic == logic, r.queue == queue, fresh(r.decoder),
//@sub /Box<dyn SaslLogic>/ => BoxLogic ## dyn
//@sub /crate::string::base64::ChunkDecoder/ => ChunkDecoder ## path
//@end
//@fn src/client/auth/handler.rs :: impl Handler :: from_queue
//@ret r
//@spec
        ensures (r is Some) == (queue@.len() > 0), r matches Some(h) ==> next(queue@, &h),
//@sub /let logic = queue\.pop\(\)\?;/ => let logic = match queue.pop() { Some(x) => x, None => return None }; ## ? on Option
//@end
//@fn src/client/auth/handler.rs :: impl Handler :: auth_msg
//@ret r
//@spec
        ensures sent_msg(r) == say(self.logic.nm()),
//@sub /ClientMsg::new\(crate::names::cmd::AUTHENTICATE\)/ => ClientMsg::new_cmd(name("AUTHENTICATE")) ## name constant
//@sub /\.edit\(\)\.add_word\(/ => .edit_add_word( ## the guard and its operation in one
//@after /add_word/
        proof { is_say(msg, self.logic.nm()); }
//@end
//@fn src/client/auth/handler.rs :: impl Handler :: use_logic
//@spec
        ensures final(self).logic == logic, final(self).queue == old(self).queue, fresh(final(self).decoder),
//@sub /Box<dyn SaslLogic>/ => BoxLogic ## dyn
//@sub /crate::string::base64::ChunkDecoder/ => ChunkDecoder ## path
//@end
//@fn src/client/auth/handler.rs :: impl Handler :: retain
//@ret r
//@spec
        requires old(self).ok(), forall|a: &Arg<'_>| call_requires(*supported, (a,)),
        ensures final(self).ok(),
            forall|p: spec_fn(Seq<u8>) -> bool| #[trigger] decides(*supported, p) ==> {
                let q = old(self).queue@.filter(|l: BoxLogic| p(l.nm()));
                if p(old(self).logic.nm()) { r is None && final(self).logic == old(self).logic && final(self).queue@ == q && final(self).decoder == old(self).decoder }
                else if q.len() > 0 { r == Some(true) && next(q, final(self)) }
                else { r == Some(false) }
            },
//@sub /retain\(&mut self, supported: &\(impl Fn\(&Arg<'_>\) -> bool \+ \?Sized\)\)/ => retain<F: Fn(&Arg<'_>) -> bool>(&mut self, supported: &F) ## the type named
//@end
//@fn src/client/auth/handler.rs :: impl Handler :: handle
//@ret r
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@spec
        requires old(self).ok(),
        ensures final(self).ok(), final(sink).sent().len() >= old(sink).sent().len(), final(sink).sent().subrange(0, old(sink).sent().len() as int) == old(sink).sent(),
            step(old(self), *msg, final(self), final(sink).sent().subrange(old(sink).sent().len() as int, final(sink).sent().len() as int), r),
//@sub /crate::ircmsg::ServerMsg/ => ServerMsg ## path
//@sub /handle\(/ => handle<S: ClientMsgSink>( ## the sink's type named
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /use crate::string::base64::ChunkEncoder;/ => ## path
//@sub /("\w+") \| ("\w+") \| ("\w+") => (.*?),/ => kind if str_is(kind, \1) || str_is(kind, \2) || str_is(kind, \3) => \4, ## literal pattern
//@sub /("\w+") \| ("\w+") => \{/ => kind if str_is(kind, \1) || str_is(kind, \2) => { ## literal pattern
//@sub /("\w+") => \{/ => kind if str_is(kind, \1) => { ## literal pattern
//@sub /msg\.args\.words\(\)\.first\(\)/ => first_word(msg.args.words()) ## slice method
//@sub /tracing::\w+!\([^;]*;/ => ## logging
//@sub /let chal = res\.map_err\(\|_e\| \{([\s\S]*?)\n\s*\}\)\?;/ => let chal = match res { Ok(v) => v, Err(_e) => { let e = {\1 }; proof { outs(S0, sink.sent()); } return Err(e); } }; ## map_err and ?
//@sub /Arg::from_str/ => lit_arg ## literal
//@sub /reply\(&chal,/ => reply(chal.as_bytes(), ## Deref
//@opt /name != \*ln/ => !arg_eq(&name, ln) ## PartialEq
//@opt /name == \*ln/ => arg_eq(&name, ln) ## PartialEq
//@sub /self\.queue\.retain\(&\|ln\| (.*\bname\b.*)\);/ => let keep = |ln: &Arg<'_>| -> (b: bool) ensures b == (name@ != ln@) { \1 }; proof { assert(decides(keep, |s: Seq<u8>| s != name@)); assert(not_named(name@) =~= (|l: BoxLogic| (|s: Seq<u8>| s != name@)(l.nm()))); } self.queue.retain(&keep); ## the closure named
//@sub /self\.queue\.retain\(&\|ln\| (.*\bset\b.*)\);/ => let keep = |ln: &Arg<'_>| -> (b: bool) ensures b == listed(set.words(), ln@) { \1 }; proof { assert(decides(keep, |s: Seq<u8>| listed(set.words(), s))); assert(in_list(set.words()) =~= (|l: BoxLogic| (|s: Seq<u8>| listed(set.words(), s))(l.nm()))); } self.queue.retain(&keep); ## the closure named
//@sub /let set: std::collections::BTreeSet<&\[u8\]> = msg\s*\.args\s*\.split_last\(\)\s*\.0\s*\.iter\(\)\s*\.flat_map\(\|a\| a\.as_bytes\(\)\.split\(\|b\| \*b == b','\)\)\s*\.collect\(\);/ => let set = MechSet::of(msg.args.split_last().0); ## flat_map and collect
//@sub /for chunk in (ChunkEncoder::new\(.*?\)) / => let mut left = \1; while let Some(chunk) = left.next()  ## Iterator
//@sub /ClientMsg::new\(AUTHENTICATE\)/ => ClientMsg::new_cmd(name("AUTHENTICATE")) ## name constant
//@sub /\.edit\(\)\.add_word\(/ => .edit_add_word( ## the guard and its operation in one
//@sub /msg\.args\.split_last\(\)\.1\.cloned\(\)\.unwrap_or_default\(\)/ => last_or_default(msg.args.split_last().1) ## Option methods
//@head
        let ghost S0 = sink.sent();
        proof { lits(); }
//@before /if let Some\(res\) = res/
                let ghost ans = ans_of(res);
                proof { assert(heard(old(self), *msg, self.decoder, ans)); }
//@loop 0
                        invariant
                            all == chunks(b64(reply), 400),
                            sink.sent() == S0 + says_all(all.subrange(0, all.len() - left.pending().len())),
                            left.pending().len() <= all.len(), left.pending() == all.subrange(all.len() - left.pending().len(), all.len() as int),
                        ensures sink.sent() == S0 + says_all(all),
                        decreases left.pending().len(),
//@before /for chunk in/
                    let ghost reply = buf@;
                    let ghost all = chunks(b64(reply), 400);
                    proof { assert(S0 + says_all(all.subrange(0, 0)) =~= S0); assert(all.subrange(0, all.len() as int) =~= all); }
//@before /return if let/
                        proof { outs(S0, sink.sent()); }
//@before /let mut msg = ClientMsg/
                        let ghost (p0, c0) = (left.pending(), chunk@);
//@before /sink\.send\(msg\);/
                        proof { is_say(msg, c0); let q0 = seq![c0] + p0; assert(q0.drop_first() =~= p0); assert(q0 =~= all.subrange(all.len() - p0.len() - 1, all.len() as int)); more(S0, all, q0); }
//@post
        proof {
            outs(S0, sink.sent());
        }
//@end
//@fn src/client/auth/handler.rs :: impl crate::client::Handler for Handler :: handle
//@name handle_message
//@ret r
//@spec
        requires old(self).ok(),
        ensures final(self).ok(), exists|v: Result<bool, HandlerError>| #[trigger] step(old(self), *msg, final(self), final(queue).sent().subrange(old(queue).sent().len() as int, final(queue).sent().len() as int), v) && ended(v, old(channel).sent(), final(channel).sent(), r is Break),
//@sub /crate::ircmsg::ServerMsg/ => ServerMsg ## path
//@sub /_: &mut crate::client::ClientState/ => state: &mut ClientState ## unnamed parameter
//@sub /mut queue: crate::client::queue::QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /mut channel: crate::client::channel::SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<Result<(), HandlerError>> ## by reference, so that its contents can be spoken of
//@sub /std::ops::ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /self\.handle\(msg, &mut queue\)/ => self.handle(msg, queue) ## already by reference
//@sub /v\.and\(Ok\(\(\)\)\)/ => match v { Ok(_) => Ok(()), Err(e) => Err(e) } ## Result::and
//@end
}
/// Told exactly once, when it ends; and it is told it succeeded exactly if it did.
pub open spec fn ended(v: Result<bool, HandlerError>, before: Seq<Result<(), HandlerError>>, after: Seq<Result<(), HandlerError>>, end: bool) -> bool {
    match v {
        Ok(false) => !end && after == before,
        Ok(true) => end && after == before.push(Ok(())),
        Err(e) => end && after == before.push(Err(e)),
    }
}
#[verifier::external_body]
pub struct ClientState { x: u8 }
/// C21: the first mechanism in order starts.
pub open spec fn begun(q: Seq<BoxLogic>, r: Result<Handler, NoHandler>, before: Seq<Sent>, after: Seq<Sent>) -> bool {
    match r { Ok(h) => next(q, &h) && after == before.push(say(h.logic.nm())), Err(_) => q.len() == 0 && after == before }
}
//@fn src/client/auth/handler.rs :: impl crate::client::MakeHandler<SaslQueue> for crate::names::cmd::AUTHENTICATE :: make_handler
//@ret r
//@spec
    ensures begun(sasl_queue@, r, old(queue).sent(), final(queue).sent()),
//@sub /self,\s*_: &crate::client::ClientState/ => state: &ClientState ## unnamed parameter
//@sub /mut queue: crate::client::queue::QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /Result<Box<dyn crate::client::Handler<Value = Self::Value>>, Self::Error>/ => Result<Handler, NoHandler> ## dyn
//@sub /sasl_queue\.pop\(\)\.ok_or\(NoHandler\)\?/ => match sasl_queue.pop() { Some(x) => x, None => return Err(NoHandler) } ## ok_or and ?
//@sub /Box::new\(retval\)/ => retval ## dyn
//@end
//@fn src/client/auth/handler.rs :: impl<'a, T: Sasl> crate::client::MakeHandler<&'a T> for crate::names::cmd::AUTHENTICATE :: make_handler
//@name make_handler_of
//@ret r
//@spec
    requires sasl.sane(),
    ensures exists|q: Seq<BoxLogic>| #[trigger] sasl.means(q) && begun(q, r, old(queue).sent(), final(queue).sent()),
//@sub /fn make_handler\w*\(/ => fn make_handler_of<'a, T: Sasl>( ## the impl's parameters
//@sub /self,\s*_: &crate::client::ClientState/ => state: &ClientState ## unnamed parameter
//@sub /mut queue: crate::client::queue::QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /Result<Box<dyn crate::client::Handler<Value = Self::Value>>, Self::Error>/ => Result<Handler, NoHandler> ## dyn
//@sub /let mut sasl_queue: SaslQueue = sasl\.logic\(\)\.into\(\);/ => let mut sasl_queue = SaslQueue::from(sasl.logic()); ## From
//@sub /sasl_queue\.pop\(\)\.ok_or\(NoHandler\)\?/ => match sasl_queue.pop() { Some(x) => x, None => return Err(NoHandler) } ## ok_or and ?
//@sub /Box::new\(retval\)/ => retval ## dyn
//@after /let mut sasl_queue/
        let ghost all = sasl_queue@;
        proof { assert(sasl.means(all)); }
//@end
// ---- Linked contracts ----
//@link register.rs :: impl SaslQueue
is_empty clear
//@end
//@link register.rs :: impl SaslHandler :: sub SaslHandler->Handler;.nm()->.logic.nm();q@[0].logic->q@[0] :: as impl Handler
from_queue auth_msg
//@end
}
fn main() {}
