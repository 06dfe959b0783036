//@meta property C27
//@meta assume ClientState's typed lookup (TypeId/Any) is a stub
//@meta assume text constants are their text
//@meta assume a CHGHOST whose host is no ordinary argument is malformed
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
//@include smsg.inc
// ---- Trusted contracts ----
impl NonZeroUsize {
    #[verifier::external_body]
    pub const unsafe fn new_unchecked(x: usize) -> (r: NonZeroUsize) requires x != 0 ensures r.val() == x { unimplemented!() }
    /// Copy.
    #[verifier::external_body]
    pub fn copy(&self) -> (r: NonZeroUsize) ensures r == *self { unimplemented!() }
}
pub fn sat_add(a: usize, b: usize) -> (r: usize) ensures r == (if a + b > usize::MAX { usize::MAX as int } else { a + b }) { a.saturating_add(b) }
/// Option::or_else, then Option::unwrap_or.
pub fn either(a: Option<usize>, b: Option<usize>, c: usize) -> (r: usize) ensures r == (match a { Some(x) => x, None => match b { Some(y) => y, None => c } }) { match a { Some(x) => x, None => match b { Some(y) => y, None => c } } }
#[verifier::external_body]
pub fn nick_eq<'a, 'b>(a: &Nick<'a>, b: &Nick<'b>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn str_is(a: &str, b: &'static str) -> (r: bool) ensures r == (text(a) == text(b)) { unimplemented!() }
impl<'a> Nick<'a> {
    /// Proved in C03_types.rs.
    #[verifier::external_body]
    pub fn from_arg(a: Arg<'a>) -> (r: Result<Self, InvalidString>) ensures (r is Ok) == ok_Nick(a@), r matches Ok(n) ==> n@ == a@ { unimplemented!() }
}
impl<'a> User<'a> {
    /// Proved in C03_types.rs.
    #[verifier::external_body]
    pub fn from_super(a: Arg<'a>) -> (r: Result<Self, InvalidString>) ensures (r is Ok) == ok_User(a@), r matches Ok(n) ==> n@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len_with_tilde(&self) -> (r: usize) ensures r == tilde_len(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn invalid_field<'a>(s: &'static str, v: Option<u8>) -> ParseError { unimplemented!() }
/// Arc: Deref.
#[verifier::external_body]
pub fn arc_ref<'b, 'a>(s: &'b SharedSource<'a>) -> (r: &'b Source<'a>) ensures *r == s.0@ { unimplemented!() }
/// Slice patterns: `[_, items @ ..]`, `[x]`, `[x, y]`.
#[verifier::external_body]
pub fn pat_rest<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<&'b [Arg<'a>]>) ensures (r is Some) == (s@.len() > 0), s@.len() == views(s@).len(), r matches Some(x) ==> x@ == s@.drop_first() && views(x@) == views(s@).drop_first() { unimplemented!() }
#[verifier::external_body]
pub fn pat_one<'b, 'a>(s: Option<&'b [Arg<'a>]>) -> (r: Option<&'b Arg<'a>>) ensures (r is Some) == (s matches Some(x) && x@.len() == 1), r matches Some(y) ==> *y == s->Some_0@[0] && views(s->Some_0@).len() == 1 && y@ == views(s->Some_0@)[0], r is None && s is Some ==> views(s->Some_0@).len() != 1 { unimplemented!() }
#[verifier::external_body]
pub fn pat_two<'b, 'a>(s: Option<&'b [Arg<'a>]>) -> (r: Option<(&'b Arg<'a>, &'b Arg<'a>)>) ensures (r is Some) == (s matches Some(x) && x@.len() == 2), r matches Some(y) ==> *y.0 == s->Some_0@[0] && *y.1 == s->Some_0@[1] && views(s->Some_0@) == seq![y.0@, y.1@], r is None && s is Some ==> views(s->Some_0@).len() != 2 { unimplemented!() }
pub fn settle(s: &mut ClientState) ensures *final(s) == *old(s) { }
pub fn touch(s: &mut Source<'static>) ensures *final(s) == *old(s) { }
/// std::slice::Iter
#[verifier::external_body]
pub struct ArgIter<'b, 'a> { p: core::marker::PhantomData<&'b Arg<'a>> }
impl<'b, 'a> ArgIter<'b, 'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn over(s: &'b [Arg<'a>]) -> (r: Self) ensures r.left() == views(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'b Arg<'a>>) ensures (r is Some) == (old(self).left().len() > 0), match r { Some(x) => x@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => final(self).left() == old(self).left() } { unimplemented!() }
}
/// The heterogenous map of a client's state, at the keys that matter here (lookup by type: FlatMap, C05, and Any).
#[verifier::external_body]
pub struct StateMap { x: u8 }
impl StateMap {
    pub uninterp spec fn source(&self) -> Option<Source<'static>>;
    pub uninterp spec fn isupport(&self) -> Option<ISupportMap>;
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r.source() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).source() is None, final(self).isupport() is None { unimplemented!() }
}
#[verifier::external_body]
pub struct ISupportMap { x: u8 }
impl ISupportMap {
    pub uninterp spec fn limit_of(&self, s: Seq<u8>) -> Option<usize>;
    /// get_parsed(..).and_then(|v| v.ok().map(|v| v.get() as usize))
    #[verifier::external_body]
    pub fn limit(&self, s: &'static str) -> (r: Option<usize>) ensures r == self.limit_of(text(s)) { unimplemented!() }
}
impl ClientState {
    /// get::<ClientSource>(), get_mut::<ClientSource>(), get::<ISupport>()
    #[verifier::external_body]
    pub fn get_source(&self) -> (r: Option<&Source<'static>>) ensures match r { Some(x) => self.state.source() == Some(*x), None => self.state.source() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut_source(&mut self) -> (r: Option<&mut Source<'static>>)
        ensures match r {
            Some(x) => old(self).state.source() == Some(*x) && final(self).state.source() == Some(*final(x)) && final(self).source_len == old(self).source_len && final(self).state.isupport() == old(self).state.isupport(),
            None => old(self).state.source() is None && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_isupport(&self) -> (r: Option<&ISupportMap>) ensures match r { Some(x) => self.state.isupport() == Some(*x), None => self.state.isupport() is None } { unimplemented!() }
}
// ---- Specification ----
/// A user name's length, allowing for a tilde the server may put before it.
pub open spec fn tilde_len(u: Seq<u8>) -> int { u.len() + (if u[0] != 126 { 1int } else { 0int }) }
pub open spec fn most(x: int) -> int { if x > usize::MAX { usize::MAX as int } else { x } }
/// The length a complete source takes.
pub open spec fn full_len(s: Src, tilde: bool) -> Option<int> {
    match s.1 { Some((Some(u), h)) => Some(most(s.0.len() + (if tilde { tilde_len(u) } else { u.len() as int }) + h.len() + 2)), _ => None }
}
/// Up to the tilde, that is the length of its text.
proof fn full_len_is_text(s: Src)
    requires s.1 matches Some((Some(u), h)) && s.0.len() + u.len() + h.len() + 2 <= usize::MAX,
    ensures full_len(s, false) == Some(write_source(s.0, s.1).len() as int),
{ }
/// Whom an item of a USERHOST reply is about, and what it says: nick, maybe a star, =, + or -, user@host.
pub open spec fn item_uh(a: Seq<u8>, nick: Seq<u8>) -> Option<UH> {
    let n = until2(a, 61, 42);
    let b = suf(a, n);
    if pre(a, n) != nick || b.len() == 0 { None }
    else {
        let c = if b[0] == 61 { b.drop_first() } else { b.drop_first().drop_first() };
        if b[0] != 61 && !(b[0] == 42 && b.len() > 1 && b[1] == 61) { None }
        else if c.len() == 0 || (c[0] != 43 && c[0] != 45) { None }
        else { parse_uh(c.drop_first()) }
    }
}
/// The words of an argument.
pub open spec fn words_of(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() via words_end {
    let t = suf(s, blanks(s));
    let k = span::<Arg>(t);
    if k == 0 || t[0] == 58 { Seq::empty() } else { seq![pre(t, k)] + words_of(suf(t, k)) }
}
#[via_fn]
proof fn words_end(s: Seq<u8>) { blanks_of(s); span_of::<Arg>(suf(s, blanks(s))); }
/// The first item about `nick` that says something.
pub open spec fn first_uh(items: Seq<Seq<u8>>, nick: Seq<u8>) -> Option<UH> decreases items.len() {
    if items.len() == 0 { None } else { match item_uh(items[0], nick) { Some(x) => Some(x), None => first_uh(items.drop_first(), nick) } }
}
/// What one message makes of the client's source.
pub open spec fn tracked<'a>(s: Src, m: ServerMsg<'a>) -> Src {
    let a = m.args.list();
    let own = m.source is Some && src_of(m.source)->Some_0.0 == s.0;
    if m.kind@ == text("302") {
        if a.len() < 2 { s } else { match first_uh(a.subrange(1, a.len() - 1) + words_of(a.last()), s.0) { Some(uh) => (s.0, Some(uh)), None => s } }
    } else if m.kind@ == text("NICK") {
        if m.args.l() is None && a.len() == 1 && own && ok_Nick(a[0]) { (a[0], s.1) } else { s }
    } else if m.kind@ == text("CHGHOST") {
        if m.args.l() is None && a.len() == 2 && own && ok_User(a[0]) { (s.0, Some((Some(a[0]), a[1]))) } else { s }
    } else { s }
}
impl ClientState {
    pub open spec fn src(&self) -> Option<Src> { match self.state.source() { Some(x) => Some(x@), None => None } }
    /// C27: once all parts are known, the assumed length is that of the source.
    pub open spec fn len_ok(&self) -> bool { self.src() matches Some(s) && full_len(s, true) is Some ==> self.source_len.val() == full_len(self.src()->Some_0, true)->Some_0 }
}
/// The fold over a history.
pub open spec fn history<'a>(s: Option<Src>, ms: Seq<ServerMsg<'a>>) -> Option<Src> decreases ms.len() {
    if ms.len() == 0 { s } else { match history(s, ms.drop_last()) { Some(x) => Some(tracked(x, ms.last())), None => None } }
}
proof fn lits() ensures text("302") != text("NICK"), text("302") != text("CHGHOST"), text("NICK") != text("CHGHOST") {
    broadcast use ascii_text;
    reveal_strlit("302"); reveal_strlit("NICK"); reveal_strlit("CHGHOST");
    assert(text("302").len() == 3); assert(text("NICK").len() == 4); assert(text("CHGHOST").len() == 7);
}
// ---- The code ----
//@item src/client/logic.rs :: pub struct ClientState
//@sub /source_len: NonZeroUsize/ => pub source_len: NonZeroUsize ## visibility
//@sub /state: crate::util::FlatMap<\(std::any::TypeId, Box<dyn Any \+ Send \+ Sync>\)>/ => pub state: StateMap ## heterogenous map
//@end
/// The assumed length before anything is known.
pub uninterp spec fn default_len() -> usize;
#[verifier::external_body]
pub fn default_source_len() -> (r: NonZeroUsize) ensures r.val() > 0, r.val() == default_len() { unimplemented!() }
//@fn src/client/logic.rs :: calc_source_len
//@ret r
//@spec
    ensures source matches Some(s) && full_len(s@, !trust_notilde) is Some ==> r.val() == full_len(source->Some_0@, !trust_notilde)->Some_0,
        r.val() > 0,
//@sub /source\.map\(\|v\| v\.nick\.len\(\)\)/ => match source { Some(v) => Some(v.nick.len()), None => None } ## Option::map
//@sub /source\.and_then\(\|v\| v\.userhost\.as_ref\(\)\)/ => (match source { Some(v) => match &v.userhost { Some(x) => Some(x), None => None }, None => None }) ## Option::and_then
//@sub /uh\.user\.as_ref\(\)\.map\(\|u\| (if trust_notilde \{ u\.len\(\) \} else \{ u\.len_with_tilde\(\) \})\)/ => match &uh.user { Some(u) => Some(\1), None => None } ## Option::map
//@sub /ln\.saturating_add\(lu\)\.saturating_add\(lh\)/ => sat_add(sat_add(ln, lu), lh) ## name
//@sub /(ln|lu|lh)\s*\.or_else\(\|\| \{\s*isupport\s*\.get_parsed\(crate::names::isupport::(\w+)\)\s*\.and_then\(\|v\| v\.ok\(\)\.map\(\|v\| v\.get\(\) as usize\)\)\s*\}\)\s*\.unwrap_or\((\d+)\)/ => either(\1, isupport.limit("\2"), \3) ## Option::or_else
//@sub /\blen\.saturating_add\(/ => sat_add(len,  ## name
//@sub /cs\.get::<super::state::ISupport>\(\)/ => cs.get_isupport() ## lookup by type
//@sub /DEFAULT_SOURCE_LEN/ => default_source_len() ## constant
//@head
    broadcast use {valid_Nick, valid_Word, valid_User};
//@end
impl ClientState {
//@fn src/client/logic.rs :: impl ClientState :: new
//@ret r
//@spec
        ensures r.src() is None, r.source_len.val() == default_len(),
//@sub /const fn/ => fn ## a stub is called
//@sub /DEFAULT_SOURCE_LEN/ => default_source_len() ## constant
//@sub /crate::util::FlatMap::new/ => StateMap::new ## heterogenous map
//@end
//@fn src/client/logic.rs :: impl ClientState :: clear
//@spec
        ensures final(self).src() is None, final(self).state.isupport() is None, final(self).source_len.val() == default_len(),
//@sub /DEFAULT_SOURCE_LEN/ => default_source_len() ## constant
//@sub /pub\(super\)/ => pub ## visibility
//@end
//@fn src/client/logic.rs :: impl ClientState :: source_len
//@ret r
//@spec
        ensures r == self.source_len,
//@sub /\{\s*self\.source_len\s*\}/ => { self.source_len.copy() } ## Copy
//@end
//@fn src/client/logic.rs :: impl ClientState :: set_source_len
//@spec
        ensures final(self).source_len == len, final(self).state == old(self).state,
//@end
//@fn src/client/logic.rs :: impl ClientState :: update_source_len_from
//@ret r
//@spec
        ensures final(self).state == old(self).state, r == final(self).source_len,
            source matches Some(s) && full_len(s@, add_tilde) is Some ==> r.val() == full_len(source->Some_0@, add_tilde)->Some_0,
//@sub /(self\.source_len)\n/ => \1.copy()\n ## Copy
//@end
//@fn src/client/logic.rs :: impl ClientState :: update_source_len
//@ret r
//@spec
        ensures final(self).state == old(self).state, r == final(self).source_len, final(self).len_ok(),
//@sub /lookup!\(self\.get::<super::state::ClientSource>\(\)\.downcast_ref\(\)\)/ => self.get_source() ## lookup by type
//@sub /(self\.source_len)\n/ => \1.copy()\n ## Copy
//@end
}
//@item src/client/handlers/track.rs :: pub struct TrackClientSource
//@end
//@fn src/client/handlers/track.rs :: parse_userhost_item
//@ret r
//@spec
    ensures (r is Ok) == (item_uh(item@, nick@) is Some), r matches Ok(x) ==> item_uh(item@, nick@) == Some(x@),
//@sub /crate::string::Splitter/ => Splitter ## path
//@sub /splitter\.save_end\(\)\.until_byte_eq\((b'.')\)\.until_byte_eq\((b'.')\)\.string::<Nick>\(true\)/ => splitter.save_end_until2_string::<Nick>(\1, \2, true) ## chain, proved in splitter.rs
//@sub /Ok\(n\) if n == \*nick/ => Ok(n) if nick_eq(&n, nick) ## PartialEq
//@sub /ParseError::InvalidField\(\s*("\w+")\.into\(\),\s*format!\([^)]*\)\.into\(\),\s*\)/ => invalid_field(\1, other) ## error value
//@sub /UserHost::parse\(splitter\.rest_or_default::<Word>\(\)\)\.map_err\(Some\)/ => match UserHost::parse(splitter.rest_or_default::<Word>()) { Ok(x) => Ok(x), Err(e) => Err(Some(e)) } ## Result::map_err
//@head
    proof {
        let a = item@;
        let n = until2(a, 61, 42);
        until_of(a, 61); until_of(pre(a, until(a, 61)), 42);
        let p = pre(a, n);
        span_of::<Nick>(p);
        valid_Nick(*nick);
        assert(suf(a, n) =~= a.subrange(n as int, a.len() as int));
        if p == nick@ { assert forall|i: int| 0 <= i < p.len() implies !Nick::bad(#[trigger] p[i]) by { assert(!bad_Nick(nick@[i])); } span_is::<Nick>(p, p.len() as int); assert(pre(p, p.len()) =~= p); }
        if span::<Nick>(p) == p.len() { assert(pre(p, p.len()) =~= p); }
    }
//@end
impl TrackClientSource {
//@fn src/client/handlers/track.rs :: impl Handler for TrackClientSource :: handle
//@ret r
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@spec
        ensures r is Continue, final(queue).sent() == old(queue).sent(),
            old(state).src() is None ==> final(state).src() is None,
            old(state).src() matches Some(s) ==> final(state).src() == Some(tracked(s, *msg)),
            old(state).len_ok() ==> final(state).len_ok(),
//@sub /crate::ircmsg::ServerMsg/ => ServerMsg ## path
//@sub /_: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## unnamed parameter; by reference, so that its contents can be spoken of
//@sub /_: crate::client::channel::SenderRef<'_, Self::Value>/ => channel: &mut SenderRef<()> ## unnamed parameter
//@sub /ControlFlow<\(\)>/ => ControlFlow<(), ()> ## path
//@sub /("\w+") => \{/ => kind if str_is(kind, \1) => { ## literal pattern
//@sub /if let \(\[_, items @ \.\.\], Some\(last\)\) = msg\.args\.split_last\(\)/ => let (words, last) = msg.args.split_last(); if let (Some(items), Some(last)) = (pat_rest(words), last) ## slice pattern
//@sub /items\.iter\(\)/ => ArgIter::over(items) ## slice::iter
//@sub /crate::string::Splitter/ => Splitter ## path
//@sub /state\.get_mut::<ClientSource>\(\)/ => state.get_mut_source() ## lookup by type
//@sub /if let Some\(\[nick\]\) = msg\.args\.all\(\)/ => if let Some(nick) = pat_one(msg.args.all()) ## slice pattern
//@sub /if let Some\(\[user, host\]\) = msg\.args\.all\(\)/ => if let Some((user, host)) = pat_two(msg.args.all()) ## slice pattern
//@sub /match msg\.source\.as_ref\(\)/ => match &msg.source ## Option::as_ref
//@sub /_ => \(\),(\s+\}\s+\}\s+\})/ => _ => { touch(src); }\1 ## no-op, for a guard that borrows
//@sub /(ControlFlow::Continue\(\(\)\)\s*\}\s*)\Z/ => settle(state); \1 ## no-op, for the borrows that end
//@sub /Some\(m_src\) if m_src\.nick == src\.nick/ => Some(m_src) if nick_eq(&arc_ref(m_src).nick, &src.nick) ## Deref; PartialEq
//@sub /host\.clone\(\)\.owning\(\)\.into\(\)/ => Word::from_Arg(host.clone().owning()) ## From
//@loop 0
                        invariant
                            *src == s0, after_borrow(*state).state.source() == Some(*final(src)), after_borrow(*state).source_len == old(state).source_len, first_uh(items.left() + words_of(last.rem()), s0.nick@) == first_uh(a.subrange(1, a.len() - 1) + words_of(a.last()), s0.nick@),
                        ensures state.src() == Some(tracked(s0@, *msg)), old(state).len_ok() ==> state.len_ok(),
                        decreases items.left().len(), last.rem().len(),
//@head
        let ghost a = msg.args.list();
        let ghost s0 = state.state.source()->Some_0;
        proof { lits(); }
//@before /let mut items = items\.iter\(\);/
                    proof {
                        assert(views(words@).len() == words@.len());
                        assert(views(items@) =~= a.subrange(1, a.len() - 1));
                    }
//@before /let item = if let Some/
                        let ghost (l0, r0) = (items.left(), last.rem());
                        proof {
                            if l0.len() > 0 { assert((l0 + words_of(r0)).drop_first() =~= l0.drop_first() + words_of(r0)); assert((l0 + words_of(r0))[0] == l0[0]); }
                            else {
                                assert(l0 + words_of(r0) =~= words_of(r0));
                                let t = suf(r0, blanks(r0));
                                let k = span::<Arg>(t);
                                blanks_of(r0); span_of::<Arg>(t);
                                if k > 0 { assert(pre(t, k)[0] == t[0]); }
                                if k > 0 && t[0] != 58 { assert(words_of(r0).drop_first() =~= words_of(suf(t, k))); assert(words_of(r0)[0] == pre(t, k)); assert(l0 + words_of(suf(t, k)) =~= words_of(suf(t, k))); }
                            }
                        }
//@end
//@fn src/client/handlers/track.rs :: impl SelfMadeHandler for TrackClientSource :: queue_msgs
//@spec
        ensures final(queue).sent() == (match state.src() { Some(s) => old(queue).sent().push(Sent { tags: Seq::empty(), cmd: text("USERHOST"), args: seq![s.0] }), None => old(queue).sent() }),
//@sub /mut queue: QueueEditGuard<'_>/ => queue: &mut QueueEditGuard<'_> ## by reference, so that its contents can be spoken of
//@sub /state\.get::<ClientSource>\(\)/ => state.get_source() ## lookup by type
//@sub /ClientMsg::new\(USERHOST\)/ => ClientMsg::new_cmd(name("USERHOST")) ## name constant
//@sub /\.edit\(\)\.add\(src\.nick\.clone\(\)\)/ => .edit_add(line_from_nick(src.nick.clone())) ## the guard and its operation in one; From
//@before /queue\.push/
            proof { valid_Nick(src.nick); assert(msg.tags.t() =~= Seq::<Tag>::empty()); assert(msg.args.list() =~= seq![src.nick@]); }
//@end
}
#[verifier::external_body]
pub fn line_from_nick<'a>(n: Nick<'a>) -> (r: Line<'a>) ensures r@ == n@ { unimplemented!() }
}
fn main() {}
