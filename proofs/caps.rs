//@meta property C20
//@meta assume the queue guard and sink are passed by reference so that their contents can be spoken of
//@meta assume text constants are their text (axiom ascii_text)
//@meta assume BTreeMap stubs satisfy their stated contracts
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
//@include cmsg.inc
// ---- Builder<Line>, by the contracts proved in builder.rs ----
#[verifier::external_body]
pub struct LineBuilder { x: u8 }
impl LineBuilder {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new<'b>(init: Line<'b>) -> (r: Self) ensures r@ == init@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn append<'b>(&mut self, s: Line<'b>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push_char(&mut self, c: char) -> (r: Result<(), InvalidString>) ensures c == ' ' ==> final(self)@ == old(self)@ + seq![32u8] { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Line<'static>) ensures r@ == self@ { unimplemented!() }
}
/// isize to usize; nothing if negative.
pub fn to_usize(x: isize) -> (r: usize) ensures r == (if x >= 0 { x as int } else { 0 }) { if x >= 0 { x as usize } else { 0 } }
#[verifier::external_body]
pub fn key_to_line<'a>(k: Key<'a>) -> (r: Line<'a>) ensures r@ == k@ { unimplemented!() }
/// std::collections::BTreeMap with byte-string keys (whose order is that of their bytes: casemap.rs, C05).
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: K, v: V }
impl<'a> BTreeMap<Key<'a>, Word<'a>> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key<'a>, v: Word<'a>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &[u8]) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    /// into_iter: its entries, each once.
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(Key<'a>, Word<'a>)>)
        ensures entries(r@) == self@ { unimplemented!() }
}
/// The map that inserting pairs in order leads to.
pub open spec fn entries<'a>(s: Seq<(Key<'a>, Word<'a>)>) -> Map<Seq<u8>, Seq<u8>> decreases s.len() { if s.len() == 0 { Map::empty() } else { entries(s.drop_last()).insert(s.last().0@, s.last().1@) } }
impl<'a> Nick<'a> {
    /// From<Arg>: proved in C03_types.rs.
    #[verifier::external_body]
    pub fn from_arg(a: Arg<'a>) -> (r: Result<Self, InvalidString>) ensures (r is Ok) == ok_Nick(a@), r matches Ok(n) ==> n@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn ne(&self, o: &Nick<'a>) -> (r: bool) ensures r == (self@ != o@) { unimplemented!() }
}
// Casemapping, by the contracts proved in casemap.rs.
pub struct AsciiCasemap<const UPPERCASE: bool>;
impl<'a> Arg<'a> {
    #[verifier::external_body]
    pub fn transform<const U: bool>(&mut self, tf: AsciiCasemap<U>) ensures U ==> final(self)@ == up(old(self)@) { unimplemented!() }
}
#[verifier::external_body]
pub fn missing(s: &'static str) -> ParseError { unimplemented!() }
#[verifier::external_body]
pub fn invalid_field<'a>(s: &'static str, v: &Arg<'a>) -> ParseError { unimplemented!() }
pub fn ok_or<T>(o: Option<T>, e: ParseError) -> (r: Result<T, ParseError>) ensures (r is Ok) == (o is Some), r matches Ok(x) ==> o == Some(x) { match o { Some(x) => Ok(x), None => Err(e) } }
#[verifier::external_body]
pub fn split_first<'b, 'a>(s: &'b [Arg<'a>]) -> (r: Option<(&'b Arg<'a>, &'b [Arg<'a>])>)
    ensures (r is Some) == (s@.len() > 0), r matches Some(x) ==> *x.0 == s@[0] && x.1@ == s@.drop_first() { s.split_first() }
#[verifier::external_body]
pub fn unwrap_word<'a>(r: Result<Word<'a>, InvalidString>) -> (o: Word<'a>) requires r is Ok ensures r == Ok::<Word<'a>, InvalidString>(o) { unimplemented!() }
// ---- Specification ----
pub open spec fn names<'a>(ks: Seq<Key<'a>>) -> Seq<Seq<u8>> { ks.map_values(|k: Key<'a>| k@) }
/// Names separated by single spaces.
pub open spec fn spaced(g: Seq<Seq<u8>>) -> Seq<u8> decreases g.len() { if g.len() == 0 { Seq::empty() } else if g.len() == 1 { g[0] } else { spaced(g.drop_last()) + seq![32u8] + g.last() } }
pub open spec fn flat(gs: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases gs.len() { if gs.len() == 0 { Seq::empty() } else { flat(gs.drop_last()) + gs.last() } }
/// The request for one group of capabilities, and the server's acknowledgement of it.
pub open spec fn request(g: Seq<Seq<u8>>) -> Sent { Sent { tags: Seq::empty(), cmd: text("CAP"), args: seq![text("REQ"), spaced(g)] } }
pub open spec fn requests(gs: Seq<Seq<Seq<u8>>>) -> Seq<Sent> { gs.map_values(|g: Seq<Seq<u8>>| request(g)) }
pub open spec fn who<'a>(client: Option<Arg<'a>>) -> Seq<u8> { match client { Some(c) => c@, None => seq![42u8] } }
pub open spec fn ack(src: Option<Src>, client: Seq<u8>, g: Seq<Seq<u8>>) -> Seq<u8> { write_msg(Seq::empty(), src, text("CAP"), seq![client, text("ACK")], Some(spaced(g))) }
pub open spec fn plain(g: Seq<Seq<u8>>) -> Seq<u8> { write_msg(Seq::empty(), None, text("CAP"), seq![text("REQ")], Some(spaced(g))) }
/// Both lines fit, terminators included.
pub open spec fn fits(src: Option<Src>, client: Seq<u8>, g: Seq<Seq<u8>>) -> bool { ack(src, client, g).len() + 2 <= 512 && plain(g).len() + 2 <= 512 }
/// The groups hold the capabilities, in order and each once, and only a capability on its own may fail to fit.
pub open spec fn grouped(src: Option<Src>, client: Seq<u8>, caps: Seq<Seq<u8>>, gs: Seq<Seq<Seq<u8>>>) -> bool {
    flat(gs) == caps && forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() <= 1 || fits(src, client, gs[i])
}
pub open spec fn src_len(src: Option<Src>) -> int { match src { Some(x) => 2 + write_source(x.0, x.1).len() as int, None => 0 } }
proof fn lits()
    ensures text("CAP").len() == 3, text("REQ").len() == 3, text("ACK").len() == 3, ok_Arg(text("REQ")),
{
    broadcast use ascii_text;
    reveal_strlit("CAP"); reveal_strlit("REQ"); reveal_strlit("ACK");
}
proof fn lens(src: Option<Src>, client: Seq<u8>, g: Seq<Seq<u8>>)
    ensures ack(src, client, g).len() == src_len(src) + 10 + client.len() + spaced(g).len(),
        plain(g).len() == 9 + spaced(g).len(),
        room(src, text("CAP"), seq![text("REQ")], None) == src_len(src) + 8,
{
    lits();
    let w = seq![client, text("ACK")];
    assert(w.drop_first() =~= seq![text("ACK")]);
    assert(seq![text("ACK")].drop_first() =~= Seq::<Seq<u8>>::empty());
    assert(seq![text("REQ")].drop_first() =~= Seq::<Seq<u8>>::empty());
    reveal_with_fuel(write_words, 4);
    assert(write_words(w) =~= seq![32u8] + client + seq![32u8] + text("ACK"));
    assert(write_words(seq![text("REQ")]) =~= seq![32u8] + text("REQ"));
}
proof fn flat_push(gs: Seq<Seq<Seq<u8>>>, g: Seq<Seq<u8>>)
    ensures flat(gs.push(g)) == flat(gs) + g,
{ assert(gs.push(g).drop_last() =~= gs); }
proof fn step(a: Seq<Seq<u8>>, i: int) requires 0 <= i < a.len() ensures a.subrange(0, i + 1) == a.subrange(0, i).push(a[i]) { assert(a.subrange(0, i + 1) =~= a.subrange(0, i).push(a[i])); }
proof fn spaced_push(g: Seq<Seq<u8>>, x: Seq<u8>)
    ensures spaced(g.push(x)) == (if g.len() == 0 { x } else { spaced(g) + seq![32u8] + x }),
{ assert(g.push(x).drop_last() =~= g); }
proof fn sent_more(a: Seq<Sent>, gs: Seq<Seq<Seq<u8>>>, g: Seq<Seq<u8>>)
    ensures (a + requests(gs)).push(request(g)) == a + requests(gs.push(g)),
{ assert((a + requests(gs)).push(request(g)) =~= a + requests(gs.push(g))); }
// ---- Requests ----
//@fn src/client/cap.rs :: req
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires src_len(osrc(server)) < isize::MAX / 4, who(client).len() < isize::MAX / 4, forall|i: int| 0 <= i < caps@.len() ==> (#[trigger] caps@[i])@.len() < isize::MAX / 2,
    ensures exists|gs: Seq<Seq<Seq<u8>>>| #![trigger requests(gs)] final(sink).sent() == old(sink).sent() + requests(gs) && grouped(osrc(server), who(client), names(caps@), gs),
//@sub /req<'a>\(\s*caps: impl IntoIterator<Item = Key<'a>>/ => req<'a, S: ClientMsgSink>(caps: Vec<Key<'a>> ## the iterator's items
//@sub /mut sink: impl ClientMsgSink<'static>/ => sink: &mut S ## the sink, so that its contents can be spoken of
//@sub /ClientMsg::new\(CAP\)/ => ClientMsg::new_cmd(name("CAP")) ## name constant
//@sub /\.edit\(\)\.add_literal\(/ => .edit_add_literal( ## the guard and its operation in one
//@sub /\.edit\(\)\.add\(/ => .edit_add( ## the guard and its operation in one
//@sub /client\.map\(\|c\| c\.len\(\)\)\.unwrap_or\(1\)/ => (match &client { Some(c) => c.len(), None => 1 }) ## Option::map
//@sub /\(msg\.bytes_left\(server\) - len_mod\)\.try_into\(\)\.unwrap_or_default\(\)/ => to_usize(msg.bytes_left(server) - len_mod) ## conversion
//@sub /for cap in caps(?= )/ => for cap in it: caps ## named for the invariant
//@sub /cap_string\.append\(cap\)/ => cap_string.append(key_to_line(cap)) ## Into
//@sub /LineBuilder::new\(cap\.into\(\)\)/ => LineBuilder::new(key_to_line(cap)) ## Into
//@head
    let ghost mut gs = Seq::<Seq<Seq<u8>>>::empty();
    let ghost mut cur = Seq::<Seq<u8>>::empty();
//@before /let len_mod/
    proof { lits(); lens(osrc(server), who(client), cur); assert(msg.tags.t() =~= Seq::<Tag>::empty()); assert forall|x: Seq<u8>| join(added(seq![text("REQ")], x).0, added(seq![text("REQ")], x).1) =~= seq![text("REQ"), x] by { } assert(sink.sent() =~= old(sink).sent() + requests(gs)); assert(msg.args.w() =~= seq![text("REQ")]); }
//@loop 0
        invariant
            sink.sent() == old(sink).sent() + requests(gs),
            flat(gs) + cur == names(caps@).subrange(0, it.index@ as int),
            cap_string@ == spaced(cur), (cap_string@.len() == 0) == (cur.len() == 0),
            forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() <= 1 || fits(osrc(server), who(client), gs[i]),
            cur.len() <= 1 || cap_string@.len() <= base_len,
//@before /if cap_string\.len\(\) \+ cap\.len/
        proof {
            broadcast use valid_Key;
            assert(cap@ == caps@[it.index@ as int]@);
            assert(cap@.len() > 0);
            step(names(caps@), it.index@ as int);
            spaced_push(cur, cap@);
            lens(osrc(server), who(client), cur);
            flat_push(gs, cur);
        }
        let ghost was = cur;
//@after /cap_string\.append\(cap\);/
            proof { cur = was.push(cap@); assert(flat(gs) + cur =~= (flat(gs) + was).push(cap@)); }
//@after /sink\.send\(msg_clone\);/
                proof { sent_more(old(sink).sent(), gs, cur); gs = gs.push(cur); }
//@after /cap_string = LineBuilder::new\(cap\.into\(\)\);/
            proof { cur = seq![cap@]; assert(flat(gs) + cur =~= (flat(gs) + Seq::<Seq<u8>>::empty()).push(cap@)); }
//@post
    proof { flat_push(gs, cur); sent_more(old(sink).sent(), gs, cur); lens(osrc(server), who(client), cur); assert(flat(gs.push(cur)) =~= names(caps@)); assert(sink.sent() == old(sink).sent() + requests(gs.push(cur))); }
//@end

// ---- Replies: specification ----
/// What one word of the list adds: name=value, or a name on its own; names that cannot be keys are passed over.
pub open spec fn put(m: Map<Seq<u8>, Seq<u8>>, w: Seq<u8>) -> Map<Seq<u8>, Seq<u8>> {
    let k = span::<Key>(w);
    if k == 0 || w[0] == 58 { m }
    else if k == w.len() { m.insert(w, Seq::empty()) }
    else if w[k as int] == 61 { m.insert(pre(w, k), suf(w, (k + 1) as nat)) }
    else { m }
}
/// The capabilities a list of words names, later ones replacing earlier ones.
pub open spec fn listed(s: Seq<u8>, m: Map<Seq<u8>, Seq<u8>>) -> Map<Seq<u8>, Seq<u8>> decreases s.len() via listed_ends {
    let t = suf(s, blanks(s));
    let k = span::<Word>(t);
    if s.len() == 0 || k == 0 { m } else { listed(suf(t, k), put(m, pre(t, k))) }
}
#[via_fn]
proof fn listed_ends(s: Seq<u8>, m: Map<Seq<u8>, Seq<u8>>) { blanks_of(s); span_of::<Word>(suf(s, blanks(s))); }
/// A capability and its value (empty for none), as a word.
pub open spec fn entry(e: (Seq<u8>, Seq<u8>)) -> Seq<u8> { if e.1.len() == 0 { e.0 } else { e.0 + seq![61u8] + e.1 } }
pub open spec fn entry_ok(e: (Seq<u8>, Seq<u8>)) -> bool { ok_Key(e.0) && ok_Word(e.1) && !ascii_ws(e.0[0]) }
pub open spec fn line_of(es: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else if es.len() == 1 { entry(es[0]) } else { entry(es[0]) + seq![32u8] + line_of(es.drop_first()) } }
pub open spec fn map_of(es: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Seq<u8>>) -> Map<Seq<u8>, Seq<u8>> decreases es.len() { if es.len() == 0 { m } else { map_of(es.drop_first(), m.insert(es[0].0, es[0].1)) } }
proof fn put_entry(m: Map<Seq<u8>, Seq<u8>>, e: (Seq<u8>, Seq<u8>))
    requires entry_ok(e),
    ensures put(m, entry(e)) == m.insert(e.0, e.1),
{
    let w = entry(e);
    let k = e.0.len();
    assert forall|i: int| 0 <= i < k implies !Key::bad(#[trigger] w[i]) by { assert(w[i] == e.0[i]); assert(!bad_Key(e.0[i])); }
    if e.1.len() > 0 { assert(w[k as int] == 61); }
    span_is::<Key>(w, k as int);
    assert(w[0] == e.0[0]);
    if e.1.len() == 0 { assert(e.1 =~= Seq::empty()); } else { assert(pre(w, k) =~= e.0); assert(suf(w, k + 1) =~= e.1); }
}
/// C20: a reply that lists capabilities is read as exactly those.
proof fn lists(es: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Seq<u8>>)
    requires forall|i: int| 0 <= i < es.len() ==> entry_ok(#[trigger] es[i]),
    ensures listed(line_of(es), m) == map_of(es, m), listed(seq![32u8] + line_of(es), m) == map_of(es, m),
    decreases es.len(),
{
    let s = line_of(es);
    let q = seq![32u8] + s;
    if es.len() == 0 {
        blanks_is(q, 1);
        assert(suf(q, 1).len() == 0);
        assert(s.len() == 0);
        assert(span::<Word>(suf(q, 1)) == 0);
    } else {
        let e = es[0];
        assert(entry_ok(es[0]));
        let w = entry(e);
        let d = es.drop_first();
        let r = if es.len() == 1 { Seq::<u8>::empty() } else { seq![32u8] + line_of(d) };
        assert(s =~= w + r);
        assert forall|i: int| 0 <= i < w.len() implies !bad_Word(#[trigger] w[i]) by {
            if i < e.0.len() { assert(w[i] == e.0[i]); assert(!bad_Key(e.0[i])); } else if i > e.0.len() { assert(w[i] == e.1[i - e.0.len() - 1]); assert(!bad_Word(e.1[i - e.0.len() - 1])); }
        }
        assert(w[0] == e.0[0]);
        word_then(s, w, r);
        put_entry(m, e);
        assert forall|i: int| 0 <= i < d.len() implies entry_ok(#[trigger] d[i]) by { assert(entry_ok(es[i + 1])); }
        lists(d, m.insert(e.0, e.1));
        if es.len() == 1 { assert(d.len() == 0); assert(listed(r, m.insert(e.0, e.1)) == m.insert(e.0, e.1)); }
        assert(suf(s, blanks(s)) == s);
        assert(suf(q, blanks(q)) == s);
        assert(listed(s, m) == listed(r, put(m, w)));
        assert(listed(q, m) == listed(r, put(m, w)));
    }
}
pub open spec fn sub_of(s: Seq<u8>) -> Option<SubCmd> {
    if s == text("LS") { Some(SubCmd::Ls) } else if s == text("LIST") { Some(SubCmd::List) } else if s == text("ACK") { Some(SubCmd::Ack) }
    else if s == text("NAK") { Some(SubCmd::Nak) } else if s == text("NEW") { Some(SubCmd::New) } else if s == text("DEL") { Some(SubCmd::Del) } else { None }
}
pub open spec fn sub_name(s: SubCmd) -> Seq<u8> {
    match s { SubCmd::Ls => text("LS"), SubCmd::List => text("LIST"), SubCmd::Ack => text("ACK"), SubCmd::Nak => text("NAK"), SubCmd::New => text("NEW"), SubCmd::Del => text("DEL") }
}
/// The names are the subcommands' own.
proof fn sub_inverse(c: SubCmd) ensures sub_of(sub_name(c)) == Some(c) {
    broadcast use ascii_text;
    reveal_strlit("LS"); reveal_strlit("LIST"); reveal_strlit("ACK"); reveal_strlit("NAK"); reveal_strlit("NEW"); reveal_strlit("DEL");
    assert(text("LS").len() == 2); assert(text("LIST").len() == 4);
    assert(text("ACK")[0] == 65); assert(text("NAK")[1] == 65); assert(text("NEW")[1] == 69); assert(text("DEL")[0] == 68); assert(text("NAK")[0] == 78); assert(text("NEW")[0] == 78);
}
/// What an argument list means as a reply: nick, subcommand (in any case), maybe "*" if there is more to come, and the capabilities.
pub open spec fn reply(a: Seq<Seq<u8>>) -> Option<(Seq<u8>, SubCmd, bool, Map<Seq<u8>, Seq<u8>>)> {
    if a.len() < 3 || !ok_Nick(a[0]) { None }
    else { match sub_of(up(a[1])) {
        None => None,
        Some(c) => if a.len() > 3 && a[2] != text("*") { None } else { Some((a[0], c, a.len() == 3, listed(a.last(), Map::empty()))) },
    } }
}
impl<'a> ServerMsgArgs<'a> {
    pub open spec fn view(&self) -> (Seq<u8>, SubCmd, bool, Map<Seq<u8>, Seq<u8>>) { (self.nick@, self.subcmd, self.is_last, self.caps@) }
}
// ---- Replies: the code ----
//@item src/client/cap.rs :: pub enum SubCmd
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/client/cap.rs :: pub struct ServerMsgArgs
//@end
impl SubCmd {
//@fn src/client/cap.rs :: impl SubCmd :: from_bytes
//@ret r
//@spec
        ensures r == sub_of(bytes@),
//@sub /const fn/ => fn ## a stub is called
//@sub /b("\w+") =>/ => x if is_lit(x, \1) => ## byte string pattern
//@end
//@fn src/client/cap.rs :: impl SubCmd :: into_cmd
//@ret r
//@spec
        ensures r@ == sub_name(self),
//@end
//@fn src/client/cap.rs :: impl SubCmd :: into_arg
//@ret r
//@spec
        ensures r@ == sub_name(self),
//@sub /const fn/ => fn ## a stub is called
//@sub /self\.into_cmd\(\)\.into_super\(\)/ => Arg::from_Cmd(self.into_cmd()) ## into_super (C03_types.rs)
//@end
}
impl<'a> ServerMsgArgs<'a> {
//@fn src/client/cap.rs :: impl<'a> ServerMsgArgs<'a> :: parse
//@ret r
//@spec
        ensures (r is Ok) == (reply(args.list()) is Some), r matches Ok(x) ==> Some(x@) == reply(args.list()),
//@sub /Err\(ParseError::MissingField\(("\w+")\.into\(\)\)\)/ => Err(missing(\1)) ## error value
//@sub /(\w+)\.split_first\(\)\.ok_or\(ParseError::MissingField\(("\w+")\.into\(\)\)\)\?/ => ok_or(split_first(\1), missing(\2))? ## error value
//@sub /Nick::from_arg\(nick\.clone\(\)\)\.map_err\(ParseError::InvalidNick\)\?/ => map_err(Nick::from_arg(nick.clone()), |e| ParseError::InvalidNick(e))? ## error value
//@sub /crate::string::tf::AsciiCasemap::<true>/ => AsciiCasemap::<true> ## name
//@sub /(SubCmd::from_bytes\(subcmd\.as_bytes\(\)\))\.ok_or_else\(\|\| \{\s*ParseError::InvalidField\(\s*"subcmd"\.into\(\),\s*format!\([^)]*\(\)\)\.into\(\),\s*\)\s*\}\)\?/ => ok_or(\1, invalid_field("subcmd", &subcmd))? ## error value
//@sub /args\.split_first\(\) \{/ => split_first(args) { ## slice::split_first
//@sub /last_arg == ("\*")/ => is_lit(last_arg.as_bytes(), \1) ## PartialEq<str>
//@sub /Err\(ParseError::InvalidField\(\s*"is_last"\.into\(\),\s*format!\([^)]*\(\)\)\s*\.into\(\),\s*\)\)/ => Err(invalid_field("is_last", last_arg)) ## error value
//@sub /word\.rest\(\)\.unwrap\(\)/ => unwrap_word(word.rest()) ## no panic
//@loop 0
            invariant
                listed(last.rem(), caps@) == listed(all, Map::empty()),
            decreases last.rem().len(),
//@before /while !last\.is_empty/
        let ghost all = last.rem();
//@after /last\.consume_whitespace\(\);/
            proof { last.chars(); blanks_of(was); span_of::<Word>(last.rem()); }
//@before /last\.consume_whitespace\(\);/
            let ghost was = last.rem();
            proof { last.chars(); }
//@before /let Ok\(key\) = word\.string/
            proof {
                let t = suf(was, blanks(was));
                let k = span::<Word>(t);
                span_of::<Key>(word.rem());
                assert(word.rem() == pre(t, k) && last.rem() == suf(t, k));
                if t.len() > 0 { assert(!bad_Line(was[blanks(was) as int])); assert(t[0] == was[blanks(was) as int]); assert(k > 0); }
                if k == 0 { assert(t.len() == 0); assert(last.rem() =~= t); assert(listed(t, caps@) == caps@); }
                assert(listed(was, caps@) == listed(last.rem(), put(caps@, word.rem())));
                let j = span::<Key>(word.rem());
                if j < word.rem().len() { assert(suf(word.rem(), j).drop_first() =~= suf(word.rem(), (j + 1) as nat)); } else { assert(pre(word.rem(), j) =~= word.rem()); }
            }
//@before /caps\.insert\(key, value\);/
            proof { assert(value@.len() == 0 ==> value@ =~= Seq::<u8>::empty()); }
//@before /let \(nick, args\)/
        proof { assert(views(args@).len() == args@.len()); assert forall|i: int| 0 <= i < args@.len() implies (#[trigger] args@[i])@ == a[i] by { assert(views(args@)[i] == a[i]); } }
//@head
        let ghost a = args.list();
//@end
//@fn src/client/cap.rs :: impl<'a> ServerMsgArgs<'a> :: combine
//@ret r
//@spec
        ensures
            old(self).is_last || old(self).subcmd != newer.subcmd || old(self).nick@ != newer.nick@ ==> r == Some(newer) && *final(self) == *old(self),
            !(old(self).is_last || old(self).subcmd != newer.subcmd || old(self).nick@ != newer.nick@) ==> r is None && final(self)@ == (old(self).nick@, old(self).subcmd, newer.is_last, old(self).caps@.union_prefer_right(newer.caps@)),
//@sub /self\.nick != newer\.nick/ => self.nick.ne(&newer.nick) ## PartialEq
//@sub /for \(key, value\) in newer\.caps(?= )/ => let es = newer.caps.into_iter(); for e in it: es ## pattern
//@sub /insert\(key, value\)/ => insert(e.0, e.1) ## pattern
//@loop 0
            invariant
                self.nick == old(self).nick, self.subcmd == old(self).subcmd, self.is_last == newer.is_last,
                self.caps@ == old(self).caps@.union_prefer_right(entries(es@.subrange(0, it.index@ as int))),
//@before /self\.caps\.insert\(key, value\)/
            proof { let d = es@.subrange(0, it.index@ + 1); assert(d.drop_last() =~= es@.subrange(0, it.index@ as int)); assert(d.last() == es@[it.index@ as int]); assert(entries(d) == entries(es@.subrange(0, it.index@ as int)).insert(d.last().0@, d.last().1@)); }
//@after /self\.caps\.insert\(key, value\);/
            proof { assert(self.caps@ =~= old(self).caps@.union_prefer_right(entries(es@.subrange(0, it.index@ + 1)))); }
//@before /for \(key, value\)/
        proof { assert(self.caps@ =~= old(self).caps@.union_prefer_right(Map::empty())); }
//@before /None\s*\}\s*\Z/
        proof { assert(es@.subrange(0, es@.len() as int) =~= es@); }
//@end
//@fn src/client/cap.rs :: impl<'a> ServerMsgArgs<'a> :: contains
//@ret r
//@spec
        ensures r == self.caps@.contains_key(cap@),
//@sub /impl AsRef<\[u8\]>/ => &[u8] ## AsRef
//@sub /cap\.as_ref\(\)/ => cap ## AsRef
//@end
}
}
fn main() {}
