//@meta property C22
//@meta assume options given as function pointers are methods with unspecified results
//@meta assume dyn CapFn, dyn NickGen and the SASL handler are boxed objects; what the SASL handler answers is tied to the sasl unit by its lemma as_registration_sees_it
//@meta assume BTreeSet, BTreeMap and NameMap stubs satisfy their stated contracts
//@meta assume the redirection details of 005/010 and of 004 are dropped (no part of the property)
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
//@include smsg.inc
// ---- Trusted contracts: the standard library ----
#[verifier::external_body]
pub fn str_is(a: &str, b: &'static str) -> (r: bool) ensures r == (text(a) == text(b)) { unimplemented!() }
#[verifier::external_body]
pub fn lit_key(s: &'static str) -> (r: Key<'static>) ensures r@ == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn first_word<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<&'b Arg<'a>>) ensures s@.len() == views(s@).len(), (r is Some) == (s@.len() > 0), r matches Some(x) ==> x@ == views(s@)[0] { unimplemented!() }
#[verifier::external_body]
pub fn last_word<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<&'b Arg<'a>>) ensures s@.len() == views(s@).len(), (r is Some) == (s@.len() > 0), r matches Some(x) ==> x@ == views(s@).last() { unimplemented!() }
#[verifier::external_body]
pub fn split_last_word<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<(&'b Arg<'a>, &'b [Arg<'a>])>) ensures s@.len() == views(s@).len(), (r is Some) == (s@.len() > 0), r matches Some(x) ==> x.0@ == views(s@).last() && views(x.1@) == views(s@).drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn split_first_word<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<(&'b Arg<'a>, &'b [Arg<'a>])>) { unimplemented!() }
impl<'a> Args<'a> {
    #[verifier::external_body]
    pub fn words(&self) -> (r: &[Arg<'a>]) ensures views(r@) == self.w() { unimplemented!() }
}
impl<'a> Nick<'a> {
    /// Proved in C03_types.rs.
    #[verifier::external_body]
    pub fn from_arg(a: Arg<'a>) -> (r: Result<Self, InvalidString>) ensures (r is Ok) == ok_Nick(a@), r matches Ok(n) ==> n@ == a@ { unimplemented!() }
}
#[verifier::external_body]
pub struct BoxError { x: u8 }
#[verifier::external_body]
pub fn boxed_error(s: &'static str) -> BoxError { unimplemented!() }
#[verifier::external_body]
pub fn boxed_parse_error(e: ParseError) -> BoxError { unimplemented!() }
/// Box::new(msg.clone().owning())
#[verifier::external_body]
pub fn owned_msg<'a>(m: &ServerMsg<'a>) -> Box<ServerMsg<'static>> { unimplemented!() }
/// The error for a server's redirection, whatever it is.
#[verifier::external_body]
pub fn redirected<'a>(m: &ServerMsg<'a>) -> HandlerError { unimplemented!() }
/// msg.args.clone().owning().split_last().1.cloned().unwrap_or_default()
#[verifier::external_body]
pub fn reason<'a>(a: &Args<'a>) -> Line<'static> { unimplemented!() }
#[verifier::external_body]
pub fn owning_source<'a>(s: &Option<SharedSource<'a>>) -> (r: Option<Source<'static>>) { unimplemented!() }
#[verifier::external_body]
pub fn same_source<'a>(a: &Option<Source<'static>>, s: &SharedSource<'a>) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn owned_source<'a>(s: &SharedSource<'a>) -> Source<'static> { unimplemented!() }
impl<'a> ServerMsgKindRaw<'a> {
    /// is_error() == Some(true)
    #[verifier::external_body]
    pub fn is_bad(&self) -> bool { unimplemented!() }
}
/// BTreeSet of keys
#[verifier::external_body]
pub struct KeySet { x: u8 }
impl KeySet {
    pub uninterp spec fn view(&self) -> Set<Seq<u8>>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Seq<u8>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key<'static>) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Key<'static>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    /// difference(o).cloned().collect()
    #[verifier::external_body]
    pub fn minus(&self, o: &KeySet) -> (r: KeySet) ensures r@ == self@.difference(o@) { unimplemented!() }
    /// intersection(o).cloned().collect()
    #[verifier::external_body]
    pub fn meet(&self, o: &KeySet) -> (r: KeySet) ensures r@ == self@.intersect(o@) { unimplemented!() }
}
/// BTreeMap<Key, Word>
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: K, v: V }
impl<'a> BTreeMap<Key<'a>, Word<'a>> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(Key<'a>, Word<'a>)>)
        ensures keys_in(r@) == self@.dom() { unimplemented!() }
    /// keys().map(|k| k.clone().owning()).collect()
    #[verifier::external_body]
    pub fn key_set(&self) -> (r: KeySet) ensures r@ == self@.dom() { unimplemented!() }
}
pub open spec fn keys_in<'a>(s: Seq<(Key<'a>, Word<'a>)>) -> Set<Seq<u8>> decreases s.len() { if s.len() == 0 { Set::empty() } else { keys_in(s.drop_last()).insert(s.last().0@) } }
// ---- NameMap<Cap, bool>: a map from names (flatmap.rs), the guard and its operation in one ----
#[verifier::external_body]
pub struct CapMap { x: u8 }
impl CapMap {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, (Seq<u8>, bool)>;
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, (Seq<u8>, bool)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_insert(&mut self, kv: (Key<'static>, Word<'static>), on: bool) ensures final(self)@ == (if old(self)@.contains_key(kv.0@) { old(self)@ } else { old(self)@.insert(kv.0@, (kv.1@, on)) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_or_update(&mut self, kv: (Key<'static>, Word<'static>), on: bool) ensures final(self)@ == old(self)@.insert(kv.0@, (if old(self)@.contains_key(kv.0@) { old(self)@[kv.0@].0 } else { kv.1@ }, on)) { unimplemented!() }
    /// remove_raw of each key
    #[verifier::external_body]
    pub fn remove_all(&mut self, m: &BTreeMap<Key<'static>, Word<'static>>) ensures final(self)@ == old(self)@.remove_keys(m@.dom()) { unimplemented!() }
    /// keys().cloned().collect()
    #[verifier::external_body]
    pub fn key_set(&self) -> (r: KeySet) ensures r@ == self@.dom() { unimplemented!() }
    /// get_parsed(SASL)
    #[verifier::external_body]
    pub fn get_sasl(&self) -> (r: Option<Result<Mechs, ParseError>>)
        ensures (r is Some) == self@.contains_key(text("sasl")), r matches Some(x) ==> (x is Ok) == (mechs_of(self@[text("sasl")].0) is Some), r matches Some(Ok(x)) ==> mechs_of(self@[text("sasl")].0) == Some(x@) { unimplemented!() }
}
/// The mechanisms that a value of the "sasl" capability lists.
pub uninterp spec fn mechs_of(v: Seq<u8>) -> Option<Set<Seq<u8>>>;
#[verifier::external_body]
pub struct Mechs { x: u8 }
impl Mechs { pub uninterp spec fn view(&self) -> Set<Seq<u8>>; }
#[verifier::external_body]
pub struct ISupportMap { x: u8 }
impl ISupportMap {
    #[verifier::external_body]
    pub const fn new() -> (r: Self) { unimplemented!() }
    /// Reads one ISUPPORT message.
    #[verifier::external_body]
    pub fn read<'a>(&mut self, w: &[Arg<'a>]) { unimplemented!() }
}
// ---- Nick generators (nicks.rs), capability functions, as boxed objects ----
#[verifier::external_body]
pub struct BoxGen { x: u8 }
impl BoxGen {
    pub uninterp spec fn first(&self) -> Seq<u8>;
    pub uninterp spec fn rest(&self) -> Option<BoxGen>;
    pub uninterp spec fn without(&self, n: Seq<u8>) -> Option<BoxGen>;
    #[verifier::external_body]
    pub fn next_nick(self) -> (r: (Nick<'static>, Option<BoxGen>)) ensures r.0@ == self.first(), r.1 == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_invalid(self, n: &Nick<'static>) -> (r: Option<BoxGen>) ensures r == self.without(n@) { unimplemented!() }
}
#[verifier::external_body]
pub fn gen_take(o: &mut Option<BoxGen>) -> (r: Option<BoxGen>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body]
pub struct BoxCapFn { x: u8 }
impl BoxCapFn {
    pub uninterp spec fn wants(&self, avail: Set<Seq<u8>>) -> Set<Seq<u8>>;
    #[verifier::external_body]
    pub fn require(self, avail: &KeySet) -> (r: KeySet) ensures r@ == self.wants(avail@) { unimplemented!() }
}
// ---- Authentication, by the contracts proved in sasl.rs ----
#[verifier::external_body]
pub struct BoxLogic { x: u8 }
impl BoxLogic { pub uninterp spec fn nm(&self) -> Seq<u8>; }
pub open spec fn keep(q: Seq<BoxLogic>, ms: Set<Seq<u8>>) -> Seq<BoxLogic> { q.filter(|l: BoxLogic| ms.contains(l.nm())) }
#[verifier::external_body]
pub struct SaslQueue { x: u8 }
impl SaslQueue {
    pub uninterp spec fn view(&self) -> Seq<BoxLogic>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<BoxLogic>::empty() { unimplemented!() }
    /// retain(&|mech| mechs.contains(mech.as_bytes()))
    #[verifier::external_body]
    pub fn retain_in(&mut self, m: &Mechs) ensures final(self)@ == keep(old(self)@, m@) { unimplemented!() }
    /// std::mem::take
    #[verifier::external_body]
    pub fn take(q: &mut SaslQueue) -> (r: SaslQueue) ensures r == *old(q), final(q)@.len() == 0 { unimplemented!() }
}
pub open spec fn say(w: Seq<u8>) -> Sent { Sent { tags: Seq::empty(), cmd: text("AUTHENTICATE"), args: seq![w] } }
pub open spec fn is_sasl(k: Seq<u8>) -> bool { k == text("AUTHENTICATE") || k == text("900") || k == text("902") || k == text("903") || k == text("904") || k == text("905") || k == text("906") || k == text("907") || k == text("908") }
#[verifier::external_body]
pub struct SaslError { x: u8 }
#[verifier::external_body]
pub struct SaslHandler { x: u8 }
impl SaslHandler {
    pub uninterp spec fn nm(&self) -> Seq<u8>;
    /// What it answers to a message: go on, logged in, or failed.
    pub uninterp spec fn verdict<'a>(&self, m: ServerMsg<'a>) -> Option<bool>;
    #[verifier::external_body]
    pub fn from_queue(q: SaslQueue) -> (r: Option<SaslHandler>) ensures (r is Some) == (q@.len() > 0), r matches Some(h) ==> h.nm() == q@[0].nm() { unimplemented!() }
    #[verifier::external_body]
    pub fn auth_msg(&self) -> (r: ClientMsg<'static>) ensures sent_msg(r) == say(self.nm()) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle<'a, S: ClientMsgSink>(&mut self, m: &ServerMsg<'a>, sink: &mut S) -> (r: Result<bool, SaslError>)
        ensures
            old(self).verdict(*m) == (match r { Ok(false) => None, Ok(true) => Some(true), Err(_) => Some(false) }),
            r == Ok::<bool, SaslError>(true) ==> m.kind@ == text("900") || m.kind@ == text("903") || m.kind@ == text("907"),
            grew(old(sink).sent(), final(sink).sent()),
            forall|i: int| old(sink).sent().len() <= i < final(sink).sent().len() ==> (#[trigger] final(sink).sent()[i]).cmd == text("AUTHENTICATE"),
            !is_sasl(m.kind@) ==> final(sink).sent() == old(sink).sent() && r == Ok::<bool, SaslError>(false) { unimplemented!() }
}
// ---- Other parts of the client ----
pub open spec fn is_ping<'a>(m: ServerMsg<'a>) -> bool { m.kind@ == text("PING") }
pub open spec fn answer(a: Seq<Seq<u8>>) -> Sent { Sent { tags: Seq::empty(), cmd: text("PONG"), args: if a.len() == 0 { Seq::empty() } else { seq![a.last()] } } }
/// Proved in ping.rs.
#[verifier::external_body]
pub fn pong<'a, S: ClientMsgSink>(m: &ServerMsg<'a>, sink: &mut S) -> (r: bool) ensures r == is_ping(*m), final(sink).sent() == (if r { old(sink).sent().push(answer(m.args.list())) } else { old(sink).sent() }) { unimplemented!() }
/// Proved in caps.rs, where the groups are also shown to fit.
pub uninterp spec fn reply(a: Seq<Seq<u8>>) -> Option<(Seq<u8>, SubCmd, bool, Map<Seq<u8>, Seq<u8>>)>;
//@item src/client/cap.rs :: pub enum SubCmd
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/client/cap.rs :: pub struct ServerMsgArgs
//@end
impl<'a> ServerMsgArgs<'a> {
    pub open spec fn view(&self) -> (Seq<u8>, SubCmd, bool, Map<Seq<u8>, Seq<u8>>) { (self.nick@, self.subcmd, self.is_last, self.caps@) }
    #[verifier::external_body]
    pub fn parse_owning(args: &Args<'a>) -> (r: Result<ServerMsgArgs<'static>, ParseError>) ensures (r is Ok) == (reply(args.list()) is Some), r matches Ok(x) ==> Some(x@) == reply(args.list()) { unimplemented!() }
}
pub open spec fn spaced(g: Seq<Seq<u8>>) -> Seq<u8> decreases g.len() { if g.len() == 0 { Seq::empty() } else if g.len() == 1 { g[0] } else { spaced(g.drop_last()) + seq![32u8] + g.last() } }
pub open spec fn flat(gs: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases gs.len() { if gs.len() == 0 { Seq::empty() } else { flat(gs.drop_last()) + gs.last() } }
pub open spec fn request(g: Seq<Seq<u8>>) -> Sent { Sent { tags: Seq::empty(), cmd: text("CAP"), args: seq![text("REQ"), spaced(g)] } }
pub open spec fn requests(gs: Seq<Seq<Seq<u8>>>) -> Seq<Sent> { gs.map_values(|g: Seq<Seq<u8>>| request(g)) }
#[verifier::external_body]
pub fn req<'a, S: ClientMsgSink>(caps: &KeySet, client: Nick<'a>, server: &Option<Source<'static>>, sink: &mut S)
    ensures exists|gs: Seq<Seq<Seq<u8>>>| #![trigger requests(gs)] final(sink).sent() == old(sink).sent() + requests(gs) && flat(gs).to_set() == caps@ { unimplemented!() }
/// The client's state: a heterogenous map, by its keys. None where there is no entry.
#[verifier::external_body]
pub struct ClientState { x: u8 }
pub ghost struct Entries {
    pub client_source: Option<Source<'static>>, pub server_source: Option<Source<'static>>, pub caps: Option<CapMap>, pub isupport: Option<ISupportMap>,
    pub version: Option<Arg<'static>>, pub account: Option<Option<Arg<'static>>>,
}
impl ClientState {
    pub uninterp spec fn st(&self) -> Entries;
    /// insert::<K>
    #[verifier::external_body]
    pub fn insert_ClientSource(&mut self, v: Source<'static>) ensures final(self).st() == (Entries { client_source: Some(v), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_ServerSource(&mut self, v: Source<'static>) ensures final(self).st() == (Entries { server_source: Some(v), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_Caps(&mut self, v: CapMap) ensures final(self).st() == (Entries { caps: Some(v), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_ISupport(&mut self, v: ISupportMap) ensures final(self).st() == (Entries { isupport: Some(v), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_ServerVersion(&mut self, v: Arg<'static>) ensures final(self).st() == (Entries { version: Some(v), ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_Account(&mut self, v: Option<Arg<'static>>) ensures final(self).st() == (Entries { account: Some(v), ..old(self).st() }) { unimplemented!() }
    /// Proved in track.rs.
    #[verifier::external_body]
    pub fn update_source_len_from<'a>(&mut self, source: Option<&Source<'a>>, add_tilde: bool) ensures final(self).st() == old(self).st() { unimplemented!() }
}
/// C22: what a client's state says after a registration.
pub open spec fn saves(v: Registration, a: Entries, b: Entries) -> bool {
    &&& b.client_source == Some(Source { nick: v.nick, userhost: v.userhost })
    &&& b.account == Some(v.account)
    &&& b.caps == Some(v.caps)
    &&& b.isupport == Some(v.isupport)
    &&& b.server_source == (if v.source is Some { v.source } else { a.server_source })
    &&& b.version == (if v.version is Some { v.version } else { a.version })
}
/// `iter().skip(n)`
pub struct SkipIter<'b, 'a> { s: &'b [Arg<'a>], i: usize }
impl<'b, 'a> SkipIter<'b, 'a> {
    pub closed spec fn rest(&self) -> Seq<Seq<u8>> { if self.i <= self.s@.len() { views(self.s@).skip(self.i as int) } else { Seq::empty() } }
    pub fn new(s: &'b [Arg<'a>], n: usize) -> (r: Self) ensures r.rest() == (if n <= s@.len() { views(s@).skip(n as int) } else { Seq::empty() }) { SkipIter { s, i: n } }
    pub fn next(&mut self) -> (r: Option<&'b Arg<'a>>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() =~= old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i += 1; Some(x) } else { None } }
}
/// The options' functions.
#[verifier::external_body]
#[verifier::accept_recursive_types(O)]
pub struct Register<O> { o: O }
impl<O> Register<O> {
    pub uninterp spec fn sends_pass(&self, o: O) -> Option<Seq<u8>>;
    pub uninterp spec fn sends_user(&self, o: O) -> (Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>);
    pub uninterp spec fn tries(&self, o: O) -> BoxGen;
    pub uninterp spec fn wants(&self, o: O) -> BoxCapFn;
    pub uninterp spec fn auths(&self, o: O) -> (Seq<BoxLogic>, bool);
    #[verifier::external_body]
    pub fn password(&self, o: &O) -> (r: Option<Line<'static>>) ensures match r { Some(p) => self.sends_pass(*o) == Some(p@), None => self.sends_pass(*o) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn username(&self, o: &O) -> (r: User<'static>) ensures r@ == self.sends_user(*o).0 { unimplemented!() }
    #[verifier::external_body]
    pub fn user_p1(&self, o: &O) -> (r: Arg<'static>) ensures r@ == self.sends_user(*o).1 { unimplemented!() }
    #[verifier::external_body]
    pub fn user_p2(&self, o: &O) -> (r: Arg<'static>) ensures r@ == self.sends_user(*o).2 { unimplemented!() }
    #[verifier::external_body]
    pub fn realname(&self, o: &O) -> (r: Line<'static>) ensures r@ == self.sends_user(*o).3 { unimplemented!() }
    #[verifier::external_body]
    pub fn nicks(&self, o: &O) -> (r: BoxGen) ensures r == self.tries(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn caps(&self, o: &O) -> (r: BoxCapFn) ensures r == self.wants(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn auth(&self, o: &O) -> (r: (SaslQueue, bool)) ensures (r.0@, r.1) == self.auths(*o) { unimplemented!() }
}
// ---- Specification ----
pub open spec fn plain(cmd: Seq<u8>, args: Seq<Seq<u8>>) -> Sent { Sent { tags: Seq::empty(), cmd, args } }
/// C22: what opens the registration.
pub open spec fn burst<O>(r: &Register<O>, o: O) -> Seq<Sent> {
    let u = r.sends_user(o);
    let rest = seq![plain(text("CAP"), seq![text("LS"), text("302")]), plain(text("USER"), seq![u.0, u.1, u.2, u.3]), take_nick(r.tries(o).first())];
    match r.sends_pass(o) { Some(p) => seq![plain(text("PASS"), seq![p])] + rest, None => rest }
}

pub open spec fn grew(a: Seq<Sent>, b: Seq<Sent>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn the_end() -> Sent { Sent { tags: Seq::empty(), cmd: text("CAP"), args: seq![text("END")] } }
pub open spec fn is_cap(s: Sent) -> bool { s.cmd == text("CAP") }
/// Of what was sent since `a`, nothing is about capabilities.
pub open spec fn no_caps(a: Seq<Sent>, b: Seq<Sent>) -> bool { grew(a, b) && forall|i: int| a.len() <= i < b.len() ==> !is_cap(#[trigger] b[i]) }
pub open spec fn rank(s: HandlerState) -> int { match s { HandlerState::Req(..) => 0, HandlerState::Ack(..) => 1, HandlerState::Sasl(..) => 2, HandlerState::AwaitWelcome => 4, HandlerState::AwaitEnd => 5, HandlerState::CapEnd => 3, HandlerState::Broken => -1 } }
pub open spec fn acct(r: &Registration) -> Option<Seq<u8>> { match r.account { Some(a) => Some(a@), None => None } }
/// Between messages.
pub open spec fn resting(s: HandlerState) -> bool { !(s is Broken) && !(s is CapEnd) && (s matches HandlerState::Ack(set, _) ==> set@ != Set::<Seq<u8>>::empty()) }
/// The nick that a message not about a refused one leaves the client with.
pub open spec fn nick_after<'a>(n: Seq<u8>, m: ServerMsg<'a>) -> Seq<u8> {
    let k = m.kind@;
    let w = m.args.w();
    let a = m.args.list();
    if k == text("001") { if w.len() > 0 && w[0] != text("*") && ok_Nick(w[0]) { w[0] } else { n } }
    else if k == text("900") && a.len() > 2 { match parse_source(a[a.len() - 3]) { Some(s) => s.0, None => n } }
    else if k == text("901") && a.len() > 1 { match parse_source(a[a.len() - 2]) { Some(s) => s.0, None => n } }
    else { n }
}
/// The account, likewise.
pub open spec fn acct_after<'a>(x: Option<Seq<u8>>, m: ServerMsg<'a>) -> Option<Seq<u8>> {
    if m.kind@ == text("900") && m.args.list().len() > 1 { Some(m.args.list()[m.args.list().len() - 2]) } else if m.kind@ == text("901") { None } else { x }
}
pub open spec fn refused(k: Seq<u8>) -> bool { k == text("432") || k == text("433") || k == text("436") }
/// What remains to be tried.
pub open spec fn candidates<'a>(h: &Handler, k: Seq<u8>) -> Option<BoxGen> { if k == text("432") { match h.nicks { Some(g) => g.without(h.reg.nick@), None => None } } else { h.nicks } }
pub open spec fn take_nick(n: Seq<u8>) -> Sent { Sent { tags: Seq::empty(), cmd: text("NICK"), args: seq![n] } }
/// A reply to a capability message of the client.
pub open spec fn told<'a>(m: ServerMsg<'a>, c: SubCmd) -> bool { m.kind@ == text("CAP") && (reply(m.args.list()) matches Some(x) && x.1 == c) }
pub open spec fn names<'a>(m: ServerMsg<'a>) -> Set<Seq<u8>> { reply(m.args.list())->Some_0.3.dom() }
/// Mechanisms worth trying, given what is offered.
pub open spec fn usable(q: Seq<BoxLogic>, caps: Map<Seq<u8>, (Seq<u8>, bool)>) -> Seq<BoxLogic> {
    if !caps.contains_key(text("sasl")) { Seq::empty() } else { match mechs_of(caps[text("sasl")].0) { Some(ms) => keep(q, ms), None => q } }
}
/// Capabilities to request, given what is offered.
pub open spec fn wanted(f: BoxCapFn, q: Seq<BoxLogic>, caps: Map<Seq<u8>, (Seq<u8>, bool)>) -> Set<Seq<u8>> {
    let s = f.wants(caps.dom());
    (if usable(q, caps).len() > 0 { s.insert(text("sasl")) } else { s }).remove(text("sts"))
}
/// The list of what is offered is complete.
pub open spec fn offer<'a>(m: ServerMsg<'a>) -> bool { told(m, SubCmd::Ls) && reply(m.args.list())->Some_0.2 }
/// Negotiation is over: everything requested was answered and authentication finished.
pub open spec fn finished<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler) -> bool {
    match a.state {
        HandlerState::Req(f, q) => offer(m) && wanted(f, q@, b.reg.caps@) == Set::<Seq<u8>>::empty(),
        HandlerState::Ack(set, q) => told(m, SubCmd::Ack) && set@.subset_of(names(m)) && q@.len() == 0,
        HandlerState::Sasl(h) => h.verdict(m) is Some,
        _ => false,
    }
}
pub open spec fn crossing(a: &Handler, b: &Handler) -> bool { !(a.state is AwaitWelcome) && b.state is AwaitWelcome }
/// C22: what a message makes of capability negotiation.
pub open spec fn negotiated<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler, s0: Seq<Sent>, s1: Seq<Sent>) -> bool {
    if crossing(a, b) { finished(a, m, b) && (a.needs_auth ==> b.reg.account is Some) && s1.len() > s0.len() && s1.last() == the_end() && no_caps(s0, s1.drop_last()) }
    else if a.state is Req && b.state is Ack { offer(m) && asked(a, b, s0, s1) }
    else { no_caps(s0, s1) }
}
/// What is requested was offered and is wanted.
pub open spec fn asked(a: &Handler, b: &Handler, s0: Seq<Sent>, s1: Seq<Sent>) -> bool {
    let set = b.state->Ack_0@;
    set == wanted(a.state->Req_0, a.state->Req_1@, b.reg.caps@) && set.subset_of(b.reg.caps@.dom()) && b.state->Ack_1@ == usable(a.state->Req_1@, b.reg.caps@)
    && (exists|gs: Seq<Seq<Seq<u8>>>| #![trigger requests(gs)] s1 == s0 + requests(gs) && flat(gs).to_set() == set)
}
/// C22: what the client knows to be offered.
pub open spec fn known<'a>(a: Set<Seq<u8>>, m: ServerMsg<'a>, b: Set<Seq<u8>>) -> bool {
    if told(m, SubCmd::Ls) || told(m, SubCmd::New) || told(m, SubCmd::Ack) { b == a.union(names(m)) } else if told(m, SubCmd::Del) { b == a.difference(names(m)) } else { b == a }
}
/// C22: one message of the registration.
pub open spec fn step<'a>(a: &Handler, m: ServerMsg<'a>, b: &Handler, s0: Seq<Sent>, s1: Seq<Sent>, r: Result<Option<Registration>, HandlerError>) -> bool {
    let k = m.kind@;
    &&& b.needs_auth == a.needs_auth
    &&& r is Err ==> no_caps(s0, s1)
    &&& r matches Ok(Some(g)) ==> a.state is AwaitEnd && (k == text("376") || k == text("422")) && (a.needs_auth ==> a.reg.account is Some) && g.nick == a.reg.nick && g.account == a.reg.account && g.caps == a.reg.caps && s1 == s0
    &&& r matches Ok(None) ==> {
        &&& resting(b.state)
        &&& rank(b.state) >= rank(a.state)
        &&& b.state is AwaitEnd && !(a.state is AwaitEnd) ==> k == text("001")
        &&& negotiated(a, m, b, s0, s1)
        &&& known(a.reg.caps@.dom(), m, b.reg.caps@.dom())
        &&& acct(&b.reg) == acct_after(acct(&a.reg), m)
        &&& if refused(k) { candidates(a, k) matches Some(g) && b.reg.nick@ == g.first() && b.nicks == g.rest() && s1 == s0.push(take_nick(g.first())) } else { b.reg.nick@ == nick_after(a.reg.nick@, m) && b.nicks == a.nicks }
    }
    &&& refused(k) ==> (r is Err) == (candidates(a, k) is None)
}
/// C22: negotiation ends at most once.
proof fn ends_once<'a>(hs: Seq<Handler>, i: int, j: int)
    requires 0 <= i < j < hs.len() - 1, forall|n: int| 0 <= n < hs.len() - 1 ==> rank(#[trigger] hs[n].state) <= rank(hs[n + 1].state), crossing(&hs[i], &hs[i + 1]),
    ensures !crossing(&hs[j], &hs[j + 1]),
    decreases j - i,
{
    ranks_grow(hs, i + 1, j);
}
proof fn ranks_grow<'a>(hs: Seq<Handler>, i: int, j: int)
    requires 0 <= i <= j < hs.len(), forall|n: int| 0 <= n < hs.len() - 1 ==> rank(#[trigger] hs[n].state) <= rank(hs[n + 1].state),
    ensures rank(hs[i].state) <= rank(hs[j].state),
    decreases j - i,
{ if i < j { ranks_grow(hs, i, j - 1); assert(rank(hs[j - 1].state) <= rank(hs[j - 1 + 1].state)); } }
proof fn grows()
    ensures forall|a: Seq<Sent>, x: Sent| grew(a, #[trigger] a.push(x)), forall|a: Seq<Sent>| #[trigger] grew(a, a), forall|a: Seq<Sent>, x: Sent| (#[trigger] a.push(x)).drop_last() == a,
{
    assert forall|a: Seq<Sent>, x: Sent| grew(a, #[trigger] a.push(x)) by { assert(a.push(x).subrange(0, a.len() as int) =~= a); }
    assert forall|a: Seq<Sent>| #[trigger] grew(a, a) by { assert(a.subrange(0, a.len() as int) =~= a); }
    assert forall|a: Seq<Sent>, x: Sent| (#[trigger] a.push(x)).drop_last() == a by { assert(a.push(x).drop_last() =~= a); }
}
proof fn sets()
    ensures
        forall|a: Set<Seq<u8>>, b: Set<Seq<u8>>| #![trigger a.difference(b)] a.difference(b) == Set::<Seq<u8>>::empty() ==> a.subset_of(b),
        forall|a: Set<Seq<u8>>, b: Set<Seq<u8>>, x: Seq<u8>| #![trigger a.remove(x), a.difference(b)] a.difference(b) == Set::<Seq<u8>>::empty() ==> a.remove(x).subset_of(b),
{
    assert forall|a: Set<Seq<u8>>, b: Set<Seq<u8>>| #![trigger a.difference(b)] a.difference(b) == Set::<Seq<u8>>::empty() implies a.subset_of(b) by {
        assert forall|x: Seq<u8>| a.contains(x) implies b.contains(x) by { if !b.contains(x) { assert(a.difference(b).contains(x)); } }
    }
}
pub open spec fn but_caps(a: Handler, b: Handler) -> bool { b.state == a.state && b.nicks == a.nicks && b.needs_auth == a.needs_auth && b.reg.nick == a.reg.nick && b.reg.account == a.reg.account && b.reg.source == a.reg.source }
proof fn keys_start<'a>(s: Seq<(Key<'a>, Word<'a>)>)
    ensures keys_in(s.subrange(0, 0)) == Set::<Seq<u8>>::empty(), s.len() == 0 ==> keys_in(s) == Set::<Seq<u8>>::empty(), forall|a: Set<Seq<u8>>| #![trigger a.union(Set::<Seq<u8>>::empty())] a.union(Set::<Seq<u8>>::empty()) == a,
{ assert forall|a: Set<Seq<u8>>| #![trigger a.union(Set::<Seq<u8>>::empty())] a.union(Set::<Seq<u8>>::empty()) == a by { assert(a.union(Set::<Seq<u8>>::empty()) =~= a); } }
proof fn keys_step<'a>(s: Seq<(Key<'a>, Word<'a>)>, i: int)
    requires 0 <= i < s.len(),
    ensures
        keys_in(s.subrange(0, i + 1)) == keys_in(s.subrange(0, i)).insert(s[i].0@), i + 1 == s.len() ==> s.subrange(0, i + 1) == s,
        forall|a: Set<Seq<u8>>| #![trigger a.union(keys_in(s.subrange(0, i + 1)))] a.union(keys_in(s.subrange(0, i + 1))) == a.union(keys_in(s.subrange(0, i))).insert(s[i].0@),
        forall|a: Set<Seq<u8>>, x: Seq<u8>| #![trigger a.insert(x)] a.contains(x) ==> a.insert(x) == a,
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    if i + 1 == s.len() { assert(s.subrange(0, i + 1) =~= s); }
    assert forall|a: Set<Seq<u8>>| #![trigger a.union(keys_in(s.subrange(0, i + 1)))] a.union(keys_in(s.subrange(0, i + 1))) == a.union(keys_in(s.subrange(0, i))).insert(s[i].0@) by { assert(a.union(keys_in(s.subrange(0, i + 1))) =~= a.union(keys_in(s.subrange(0, i))).insert(s[i].0@)); }
    assert forall|a: Set<Seq<u8>>, x: Seq<u8>| #![trigger a.insert(x)] a.contains(x) implies a.insert(x) == a by { assert(a.insert(x) =~= a); }
}
// ---- The code ----
//@item src/client/register/handler.rs :: pub struct Registration
//@sub /NameMap<Cap, bool>/ => CapMap ## map
//@sub /NameMap<ISupport>/ => ISupportMap ## map
//@end
//@item src/client/register/handler.rs :: pub enum HandlerError
//@sub /Box<dyn std::error::Error \+ Send \+ Sync>/ => BoxError ## dyn
//@sub /BTreeSet<Key<'static>>/ => KeySet ## BTreeSet
//@end
//@item src/client/register/handler.rs :: enum HandlerState
//@attr
pub
//@sub /Box<dyn CapFn>/ => BoxCapFn ## dyn
//@sub /BTreeSet<Key<'static>>/ => KeySet ## BTreeSet
//@sub /crate::client::auth::Handler/ => SaslHandler ## path
//@end
//@item src/client/register/handler.rs :: pub struct Handler
//@sub /pub\(super\)/ => pub ## visibility
//@sub /Box<dyn NickGen>/ => BoxGen ## dyn
//@end
impl HandlerState {
    /// std::mem::take
    #[verifier::external_body]
    pub fn take(s: &mut HandlerState) -> (r: HandlerState) ensures r == *old(s), *final(s) is Broken { unimplemented!() }
//@fn src/client/register/handler.rs :: impl HandlerState :: ack
//@ret r
//@spec
        requires resting(*old(self)),
        ensures
            match *old(self) {
                HandlerState::Ack(set, q) =>
                    if ack {
                        let left = set@.difference(caps@.dom());
                        r is Ok && if left != Set::<Seq<u8>>::empty() { final(sink).sent() == old(sink).sent() && (*final(self) matches HandlerState::Ack(s1, q1) && s1@ == left && q1 == q) }
                        else if q@.len() > 0 { (*final(self) matches HandlerState::Sasl(h) && final(sink).sent() == old(sink).sent().push(say(h.nm())) && h.nm() == q@[0].nm()) }
                        else { *final(self) is CapEnd && final(sink).sent() == old(sink).sent() }
                    } else {
                        final(sink).sent() == old(sink).sent() && if set@.intersect(caps@.dom()) != Set::<Seq<u8>>::empty() { r is Err } else { r is Ok && *final(self) == *old(self) }
                    },
                _ => r is Ok && *final(self) == *old(self) && final(sink).sent() == old(sink).sent(),
            },
//@sub /ack\(\s*&mut self/ => ack<S: ClientMsgSink>(&mut self ## the sink's type named
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /BTreeMap<Key<'_>, Word<'_>>/ => BTreeMap<Key<'static>, Word<'static>> ## lifetimes
//@sub /caps\.keys\(\)\.map\(\|k\| k\.clone\(\)\.owning\(\)\)\.collect\(\)/ => caps.key_set() ## collect
//@sub /ackd\.difference\(&caps\)\.cloned\(\)\.collect\(\)/ => ackd.minus(&caps) ## collect
//@sub /let missing: BTreeSet<_> = ackd\.intersection\(&caps\)\.cloned\(\)\.collect\(\)/ => let missing = ackd.meet(&caps) ## collect
//@sub /auth::Handler::from_queue\(std::mem::take\(queue\)\)/ => SaslHandler::from_queue(SaslQueue::take(queue)) ## path
//@end
}
impl Registration {
//@fn src/client/register/handler.rs :: impl Registration :: new
//@ret r
//@spec
        ensures r.nick == nick, r.account is None, r.userhost is None, r.source is None, r.caps@ == Map::<Seq<u8>, (Seq<u8>, bool)>::empty(),
//@sub /NameMap::new\(\)(,\s*version)/ => CapMap::new()\1 ## map
//@sub /NameMap::new\(\)/ => ISupportMap::new() ## map
//@end
//@fn src/client/register/handler.rs :: impl Registration :: parse_myinfo
//@spec
        ensures final(self).nick == old(self).nick, final(self).account == old(self).account, final(self).caps == old(self).caps, final(self).userhost == old(self).userhost, final(self).source == old(self).source,
            if args@.len() > 2 { final(self).version matches Some(v) && v@ == views(args@)[2] } else { final(self).version == old(self).version },
//@sub /args\.iter\(\)\.skip\((\d+)\)/ => SkipIter::new(args, \1) ## slice::iter, skip
//@end
//@fn src/client/register/handler.rs :: impl Registration :: save
//@spec
        ensures saves(self, old(state).st(), final(state).st()),
//@sub /&mut crate::client::ClientState/ => &mut ClientState ## path
//@sub /use crate::client::state::\*;/ => ## path
//@sub /state\.insert::<(\w+)>\(/ => state.insert_\1( ## lookup by type
//@end
    /// std::mem::take
    #[verifier::external_body]
    pub fn take(s: &mut Registration) -> (r: Registration) ensures r == *old(s) { unimplemented!() }
}
proof fn lists()
    ensures ok_Arg(text("LS")), ok_Arg(text("302")), forall|w: Seq<Seq<u8>>| #![trigger w.len()] w.len() == 0 ==> w == Seq::<Seq<u8>>::empty(), forall|w: Seq<Seq<u8>>, x: Seq<u8>| #![trigger added(w, x)] join(added(w, x).0, added(w, x).1) == w.push(x), forall|w: Seq<Seq<u8>>| #[trigger] join(w, None) == w,
{
    broadcast use ascii_text;
    reveal_strlit("LS"); reveal_strlit("302");
    assert forall|w: Seq<Seq<u8>>| #![trigger w.len()] w.len() == 0 implies w == Seq::<Seq<u8>>::empty() by { assert(w =~= Seq::<Seq<u8>>::empty()); }
    assert forall|w: Seq<Seq<u8>>, x: Seq<u8>| #![trigger added(w, x)] join(added(w, x).0, added(w, x).1) == w.push(x) by { assert(join(added(w, x).0, added(w, x).1) =~= w.push(x)); }
    assert forall|w: Seq<Seq<u8>>| #[trigger] join(w, None) == w by { assert(join(w, None) =~= w); }
}
proof fn lits()
    ensures
        forall|n: Seq<u8>| !is_cap(#[trigger] take_nick(n)), forall|n: Seq<u8>| !is_cap(#[trigger] say(n)), forall|a: Seq<Seq<u8>>| !is_cap(#[trigger] answer(a)),
        text("AUTHENTICATE") != text("CAP"), text("CAP").len() == 3, text("CAP")[0] == 67, text("AUTHENTICATE").len() == 12, text("PING").len() == 4, num(text("CAP")) > 1000,
//@for N in 001 002 003 004 005 010 376 422 432 433 436 464 465 900 901 902 903 904 905 906 907 908
        text("{N}").len() == 3, num(text("{N}")) == 1{N} - 1000,
//@endfor
{
    broadcast use ascii_text;
    reveal_strlit("CAP"); reveal_strlit("NICK"); reveal_strlit("AUTHENTICATE"); reveal_strlit("PONG"); reveal_strlit("PING");
    assert(text("NICK").len() == 4); assert(text("PONG").len() == 4); assert(text("AUTHENTICATE").len() == 12);
//@for N in 001 002 003 004 005 010 376 422 432 433 436 464 465 900 901 902 903 904 905 906 907 908
    reveal_strlit("{N}");
//@endfor
}
pub open spec fn num(s: Seq<u8>) -> int { (s[0] - 48) * 100 + (s[1] - 48) * 10 + (s[2] - 48) }
impl Handler {
//@fn src/client/register/handler.rs :: impl Handler :: new
//@ret r
//@spec
        ensures resting(r.state), rank(r.state) == 0, r.needs_auth == needs_auth, r.reg.nick == nicks.0, r.nicks == nicks.1, r.reg.account is None, r.state == HandlerState::Req(caps, auths), r.reg.caps@ == Map::<Seq<u8>, (Seq<u8>, bool)>::empty(),
//@sub /pub\(super\)/ => pub ## visibility
//@sub /Box<dyn NickGen>/ => BoxGen ## dyn
//@sub /Box<dyn CapFn>/ => BoxCapFn ## dyn
//@end
//@fn src/client/register/handler.rs :: impl Handler :: next_nick
//@ret r
//@spec
        ensures
            final(self).state == old(self).state, final(self).needs_auth == old(self).needs_auth, final(self).reg.account == old(self).reg.account, final(self).reg.caps == old(self).reg.caps,
            match old(self).nicks {
                Some(g) => r is Ok && final(self).reg.nick@ == g.first() && final(self).nicks == g.rest() && final(sink).sent() == old(sink).sent().push(take_nick(g.first())),
                None => r is Err && final(sink).sent() == old(sink).sent(),
            },
//@sub /next_nick\(&mut self/ => next_nick<S: ClientMsgSink>(&mut self ## the sink's type named
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /self\.nicks\.take\(\)/ => gen_take(&mut self.nicks) ## Option::take
//@sub /ClientMsg::new\(NICK\)/ => ClientMsg::new_cmd(name("NICK")) ## name constant
//@sub /\.edit\(\)\.add_word\(nick\.clone\(\)\)/ => .edit_add_word(Arg::from_Nick(nick.clone())) ## the guard and its operation in one; Into
//@before /sink\.send\(msg\)/
        proof { assert(msg.tags.t() =~= Seq::<Tag>::empty()); assert(msg.args.list() =~= seq![nick@]); }
//@end
//@fn src/client/register/handler.rs :: impl Handler :: handle
//@ret r
//@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(200)]
//@spec
        requires resting(old(self).state),
        ensures step(old(self), *msg, final(self), old(sink).sent(), final(sink).sent(), r),
//@sub /fn handle\(/ => pub fn handle<S: ClientMsgSink>( ## the sink's type named
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /sink\.borrow_mut\(\)/ => sink ## already by reference
//@sub /msg\.source\.clone\(\)\.map\(SharedSource::owning_merged\)/ => owning_source(&msg.source) ## Option::map
//@sub /crate::client::handlers::pong/ => pong ## path
//@sub /tracing::\w+!\([^;]*;/ => ## logging
//@sub /\n(\s+)(?="\w{3}"(?: \||\s+if| =>))/ => \n\1kind if ( ## literal pattern
//@sub /("\w{3}") \| / => str_is(kind, \1) ||  ## literal pattern
//@sub /("\w{3}")\s+if ([\s\S]*?) =>/ => str_is(kind, \1)) && (\2) => ## literal pattern
//@sub /("\w{3}") =>/ => str_is(kind, \1)) => ## literal pattern
//@sub /let nick = msg\s*\.args\s*\.words\(\)\s*\.first\(\)\s*\.filter\(\|n\| \*n != crate::names::STAR\.as_bytes\(\)\)\s*\.and_then\(\|n\| (Nick::from_arg\(n\.clone\(\)\.owning\(\)\))\.ok\(\)\);/ => let nick = match first_word(msg.args.words()) { Some(n) => if !is_lit(n.as_bytes(), "*") { match \1 { Ok(x) => Some(x), Err(_) => None } } else { None }, None => None }; ## Option methods
//@sub /use std::ops::Deref;/ => ## path
//@sub /self\.reg\.source\.as_ref\(\)\.is_some_and\(\|src\| src == source\.deref\(\)\)/ => same_source(&self.reg.source, source) ## Option methods
//@sub /source\.clone\(\)\.owning_merged\(\)/ => owned_source(source) ## clone
//@sub /msg\.args\.words\(\)\.split_first\(\)/ => split_first_word(msg.args.words()) ## slice method
//@sub /let mut ism = self\.reg\.isupport\.edit\(\);\s*for isupport in isupports \{[\s\S]*?ism\.insert\(\(key, value\), \(\)\);\s*\}/ => self.reg.isupport.read(isupports); ## not part of this property
//@sub /let split = \|\| \{[\s\S]*?\};\s*if let Some\(\(server, port\)\) = split\(\) \{[\s\S]*?\} else \{\s*Err\(HandlerError::ServerError\(Box::new\(msg\.clone\(\)\.owning\(\)\)\)\)\s*\}/ => Err(redirected(msg)) ## an error either way
//@sub /if let \(\[_, client, port\], Some\(info\)\) = msg\.args\.split_last\(\) \{[\s\S]*?\} else \{\s*Err\(HandlerError::ServerError\(Box::new\(msg\.clone\(\)\.owning\(\)\)\)\)\s*\}/ => Err(redirected(msg)) ## an error either way
//@sub /std::mem::take\(&mut self\.reg\)/ => Registration::take(&mut self.reg) ## mem::take
//@sub /HandlerError::Broken\((".*?")\.into\(\)\)/ => HandlerError::Broken(boxed_error(\1)) ## Into
//@sub /HandlerError::broken\((".*?")\)/ => HandlerError::Broken(boxed_error(\1)) ## Into
//@sub /self\.nicks\.take\(\)\.and_then\(\|ng\| (ng\.handle_invalid\(&self\.reg\.nick\))\)/ => match gen_take(&mut self.nicks) { Some(ng) => \1, None => None } ## Option methods
//@sub /msg\.args\.clone\(\)\.owning\(\)\.split_last\(\)\.1\.cloned\(\)\.unwrap_or_default\(\)/ => reason(&msg.args) ## Option methods
//@sub /= args\.split_last\(\)/ => = split_last_word(args) ## slice method
//@sub /= args\.last\(\)/ => = last_word(args) ## slice method
//@sub /= msg\.args\.clone\(\)\.split_last\(\)\.0\.last\(\)/ => = last_word(msg.args.split_last().0) ## slice method
//@sub /Source::parse\(whoami\.clone\(\)\.owning\(\)\)\.map_err\(HandlerError::broken\)\?/ => match Source::parse(Word::from_Arg(whoami.clone().owning())) { Ok(x) => x, Err(e) => return Err(HandlerError::Broken(boxed_parse_error(e))) } ## map_err and ?
//@sub /use crate::client::cap;/ => ## path
//@sub /cap::ServerMsgArgs::parse\(&msg\.args\.clone\(\)\.owning\(\)\)\s*\.map_err\(HandlerError::broken\)\?/ => match ServerMsgArgs::parse_owning(&msg.args) { Ok(x) => x, Err(e) => return Err(HandlerError::Broken(boxed_parse_error(e))) } ## map_err and ?
//@sub /cap::SubCmd/ => SubCmd ## path
//@sub /let mut caps = self\.reg\.caps\.edit\(\);/ => ## the guard and its operation in one
//@sub /std::mem::drop\(caps\);/ => ## the guard and its operation in one
//@sub /caps\.try_insert\(\(key, value\), (\w+)\)/ => proof { keys_step(ev, it.index@ as int); } self.reg.caps.try_insert((e.0, e.1), \1) ## the guard and its operation in one
//@sub /caps\.insert_or_update\(\(key, value\), (\w+)\)/ => proof { keys_step(ev, it.index@ as int); } self.reg.caps.insert_or_update((e.0, e.1), \1) ## the guard and its operation in one
//@sub /cap_msg\.caps\.keys\(\)\.for_each\(\|cap\| \{\s*caps\.remove_raw\(cap\);\s*\}\);/ => self.reg.caps.remove_all(&cap_msg.caps); ## for_each
//@sub /for \(key, value\) in cap_msg\.caps(?=\s)/ => let ghost h0 = *self; let es = cap_msg.caps.into_iter(); let ghost ev = es@; proof { keys_start(ev); } for e in it: es ## pattern
//@sub /std::mem::take\(&mut self\.state\)/ => HandlerState::take(&mut self.state) ## mem::take
//@sub /use crate::names::cap::\{SASL, STS\};/ => ## path
//@sub /self\.reg\.caps\.get_parsed\(SASL\)/ => self.reg.caps.get_sasl() ## lookup by type
//@sub /auths\.retain\(&\|mech\| mechs\.contains\(mech\.as_bytes\(\)\)\)/ => auths.retain_in(&mechs) ## closure
//@sub /self\.reg\.caps\.keys\(\)\.cloned\(\)\.collect\(\)/ => self.reg.caps.key_set() ## collect
//@sub /SASL::NAME/ => lit_key("sasl") ## constant
//@opt /STS::NAME/ => lit_key("sts") ## constant
//@sub /let diff: BTreeSet<_> = reqs\.difference\(&avail\)\.cloned\(\)\.collect\(\)/ => let diff = reqs.minus(&avail) ## collect
//@sub /cap::req\(\s*reqs\.iter\(\)\.cloned\(\),\s*Some\(self\.reg\.nick\.clone\(\)\.into\(\)\),\s*self\.reg\.source\.as_ref\(\),/ => req(&reqs, self.reg.nick.clone(), &self.reg.source, ## iterator; Into
//@sub /msg\.kind\.is_error\(\) == Some\(true\)/ => msg.kind.is_bad() ## PartialEq
//@sub /Box::new\(msg\.clone\(\)\.owning\(\)\)/ => owned_msg(msg) ## clone
//@sub /crate::ircmsg::ClientMsg::new\(CAP\)/ => ClientMsg::new_cmd(name("CAP")) ## name constant
//@sub /\.edit\(\)\.add_literal\(/ => .edit_add_literal( ## the guard and its operation in one
//@head
        let ghost s0 = sink.sent();
        proof { lits(); grows(); sets(); }
//@before /if matches!\(self\.state, HandlerState::CapEnd\)/
        let ghost s2 = sink.sent();
        let ghost h2 = *self;
        proof {
            assert(self.needs_auth == old(self).needs_auth);
            assert(self.state is CapEnd ==> finished(old(self), *msg, self));
            assert(self.state is CapEnd ==> no_caps(s0, s2));
            assert(resting(self.state) || self.state is CapEnd);
            assert(retval is None ==> rank(self.state) >= rank(old(self).state));
            assert(retval is None ==> known(old(self).reg.caps@.dom(), *msg, self.reg.caps@.dom()));
            assert(retval is None && !(self.state is CapEnd) ==> negotiated(old(self), *msg, self, s0, s2));
            assert(retval is None ==> acct(&self.reg) == acct_after(acct(&old(self).reg), *msg));
            assert(retval is None && !refused(msg.kind@) ==> self.reg.nick@ == nick_after(old(self).reg.nick@, *msg));
        }
//@before /sink\.send\(msg\)/
        proof { assert(msg.tags.t() =~= Seq::<Tag>::empty()); assert(msg.args.list() =~= seq![text("END")]); assert(sent_msg(msg) == the_end()); }
//@loop 1
                            invariant
                                but_caps(h0, *self), ev == es@, es@ == it.seq(), self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev.subrange(0, it.index@ as int))),
                                it.index@ == ev.len() ==> self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev)),
//@loop 2
                            invariant
                                but_caps(h0, *self), ev == es@, es@ == it.seq(), self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev.subrange(0, it.index@ as int))),
                                it.index@ == ev.len() ==> self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev)),
//@loop 3
                            invariant
                                but_caps(h0, *self), ev == es@, es@ == it.seq(), self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev.subrange(0, it.index@ as int))),
                                it.index@ == ev.len() ==> self.reg.caps@.dom() == h0.reg.caps@.dom().union(keys_in(ev)),
//@end
//@fn src/client/register/handler.rs :: impl crate::client::Handler for Handler :: handle
//@name handle_client
//@ret r
//@spec
        requires resting(old(self).state),
        ensures exists|res: Result<Option<Registration>, HandlerError>| #![trigger step(old(self), *msg, final(self), old(queue).sent(), final(queue).sent(), res)] step(old(self), *msg, final(self), old(queue).sent(), final(queue).sent(), res) && (match res {
            Ok(Some(v)) => r is Break && saves(v, old(state).st(), final(state).st()) && final(channel).sent() == old(channel).sent().push(Ok::<(), HandlerError>(())),
            Ok(None) => r is Continue && *final(state) == *old(state) && final(channel).sent() == old(channel).sent(),
            Err(e) => r is Break && *final(state) == *old(state) && final(channel).sent() == old(channel).sent().push(Err::<(), HandlerError>(e)),
        }),
//@sub /state: &mut crate::client::ClientState/ => state: &mut ClientState ## path
//@sub /mut queue: crate::client::queue::QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /mut channel: crate::client::channel::SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<Result<(), HandlerError>> ## by reference, so that its contents can be spoken of
//@sub /std::ops::ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /std::ops::ControlFlow/ => ControlFlow ## path
//@sub /self\.handle\(msg, &mut queue\)/ => self.handle(msg, queue) ## by reference already
//@end
}
impl<O> Register<O> {
//@fn src/client/register.rs :: impl<O> Register<O> :: register_msgs
//@ret r
//@spec
        ensures final(sink).sent() == old(sink).sent() + burst(self, *opts), r.0@ == self.tries(*opts).first(), r.1 == self.tries(*opts).rest(),
//@sub /fn register_msgs\(/ => fn register_msgs<S: ClientMsgSink>( ## the sink's type named
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /Box<dyn NickGen>/ => BoxGen ## dyn
//@sub /use crate::names::cmd::\{CAP, NICK, PASS, USER\};/ => ## path
//@sub /\(self\.(\w+)\)\(opts\)/ => self.\1(opts) ## function pointer
//@sub /ClientMsg::new\((\w+)\)/ => ClientMsg::new_cmd(name("\1")) ## name constant
//@sub /let mut args = msg\.args\.edit\(\);/ => ## the guard and its operation in one
//@sub /\bargs\.add_word\(self\.username\(opts\)\)/ => msg.args.edit_add_word(Arg::from_User(self.username(opts))) ## the guard and its operation in one
//@sub /(?<!\.)\bargs\.(add\w*)\(/ => msg.args.edit_\1( ## the guard and its operation in one
//@sub /\.edit\(\)\.add_word\(nick\.clone\(\)\)/ => .edit_add_word(Arg::from_Nick(nick.clone())) ## the guard and its operation in one; Into
//@sub /\.edit\(\)\.add\(/ => .edit_add( ## the guard and its operation in one
//@head
        proof { lists(); }
//@sub /sink\.send\(msg\)/ => proof { assert(msg.tags.t() =~= Seq::<Tag>::empty()); } sink.send(msg) ## ghost
//@after /args\.add_literal\("302"\);/
        proof { assert(msg.args.list() =~= seq![text("LS"), text("302")]); assert(sent_msg(msg).args == seq![text("LS"), text("302")]); }
//@after /args\.add\(\(self\.realname\)\(opts\)\);/
        proof { let u = self.sends_user(*opts); assert(msg.args.list() =~= seq![u.0, u.1, u.2, u.3]); }
//@after /msg\.args\.edit\(\)\.add\(pass\);/
        proof { assert(msg.args.list() =~= seq![self.sends_pass(*opts)->Some_0]); }
//@after /msg\.args\.edit\(\)\.add_word\(nick\.clone\(\)\);/
        proof { let u = self.sends_user(*opts); assert(sink.sent().push(take_nick(nick@)) =~= old(sink).sent() + burst(self, *opts)); }
//@end
//@fn src/client/register.rs :: impl<O> Register<O> :: handler
//@ret r
//@spec
        ensures final(sink).sent() == old(sink).sent() + burst(self, *opts), resting(r.state), r.state is Req, r.state->Req_0 == self.wants(*opts), r.state->Req_1@ == self.auths(*opts).0,
            r.needs_auth == (self.auths(*opts).1 && self.auths(*opts).0.len() > 0), r.reg.nick@ == self.tries(*opts).first(), r.nicks == self.tries(*opts).rest(), r.reg.account is None, r.reg.caps@ == Map::<Seq<u8>, (Seq<u8>, bool)>::empty(),
//@sub /fn handler\(/ => fn handler<S: ClientMsgSink>( ## the sink's type named
//@sub /sink: impl ClientMsgSink<'static>/ => sink: &mut S ## by reference, so that its contents can be spoken of
//@sub /\(self\.(\w+)\)\(opts\)/ => self.\1(opts) ## function pointer
//@opt /needs_auth &= (.*?);/ => needs_auth = needs_auth && \1; ## compound assignment
//@end
}
}
fn main() {}
