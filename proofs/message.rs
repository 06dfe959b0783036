//@meta property C01 C02 C09 C25
//@meta assume text constants are their text
//@meta assume message size below usize::MAX
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
//@include escspec.inc
//@include tagspec.inc
//@include mapspec.inc
//@include tagmap.inc
//@include io.inc
//@include error.inc
//@include msgparts.inc
//@include msgspec.inc
// ---- Trusted contracts on the standard library ----
/// std::sync::Arc
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { t: T }
impl<T> Arc<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn try_unwrap(a: Self) -> (r: Result<T, Self>) ensures match r { Ok(t) => t == a@, Err(b) => b@ == a@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_write(v: &mut Vec<u8>) -> (r: &mut VecOut) ensures (*r).out() == old(v)@, final(v)@ == (*final(r)).out() { unimplemented!() }
#[verifier::external_body]
pub struct VecOut { x: u8 }
impl Write for VecOut {
    uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
/// bytes::BytesMut
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn writer(&mut self) -> (r: &mut VecOut) ensures (*r).out() == old(self)@, final(self)@ == (*final(r)).out() { unimplemented!() }
}
#[verifier::external_body]
pub fn to_isize(x: usize) -> (r: isize) ensures r == (if x <= isize::MAX { x as int } else { isize::MAX as int }) { x.try_into().unwrap_or(isize::MAX) }
/// An iterator, by the items it yields.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Items<T> { t: Vec<T> }
impl<T> Items<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
/// std::borrow::Cow
#[verifier::external_body]
pub struct Words<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Words<'a> {
    pub uninterp spec fn view(&self) -> Seq<Arg<'a>>;
    #[verifier::external_body]
    pub const fn owned(v: Vec<Arg<'a>>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
}
impl<'a> Nick<'a> {
    #[verifier::external_body]
    pub fn into_arg(self) -> (r: Arg<'a>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn added(w: Seq<Seq<u8>>, s: Seq<u8>) -> (Seq<Seq<u8>>, Option<Seq<u8>>) { if ok_Arg(s) { (w.push(s), None) } else { (w, Some(s)) } }
impl<'a> Args<'a> {
    /// Proved in args.rs.
    #[verifier::external_body]
    pub fn set(&mut self, args: Items<Arg<'a>>, last: Option<Line<'a>>)
        ensures last is None ==> final(self).list() == views(args@), last matches Some(s) ==> (final(self).w(), final(self).l()) == added(views(args@), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(words: Words<'a>, last: Option<Line<'a>>) -> (r: Self)
        ensures last is None ==> r.list() == views(words@), last matches Some(s) ==> (r.w(), r.l()) == added(views(words@), s@) { unimplemented!() }
}
// ---- Specification ----
impl<'a> ServerMsgKindRaw<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { ServerMsgKindRaw::Numeric(n) => n@, ServerMsgKindRaw::Cmd(c) => c@ } }
    pub proof fn valid(&self)
        ensures kind_word(self@), ok_Arg(self@),
            self is Numeric ==> three_digits(self@), self is Cmd ==> !three_digits(self@) && letters(self@) && up(self@) == self@,
    {
        match self {
            ServerMsgKindRaw::Numeric(n) => { n.valid(); },
            ServerMsgKindRaw::Cmd(c) => {
                valid_Cmd(*c);
                assert(!bad_Cmd(c@[0]));
                assert forall|i: int| 0 <= i < c@.len() implies upper(#[trigger] c@[i]) by { assert(!bad_Cmd(c@[i])); }
                assert(up(c@) =~= c@);
            },
        }
    }
}
/// The kind a word stands for.
pub open spec fn kind_ok(w: Seq<u8>) -> bool { three_digits(w) || letters(w) }
pub open spec fn kind_of(w: Seq<u8>) -> Seq<u8> { if three_digits(w) { w } else { up(w) } }
pub open spec fn src_of<'a>(s: Option<SharedSource<'a>>) -> Option<Src> { match s { Some(x) => Some(x.0@@), None => None } }
impl<'a> ServerMsg<'a> {
    /// Its text.
    pub open spec fn out(&self) -> Seq<u8> { write_msg(self.tags.t(), src_of(self.source), self.kind@, self.args.w(), self.args.l()) }
}
impl<'a> ClientMsg<'a> {
    pub open spec fn out(&self) -> Seq<u8> { write_msg(self.tags.t(), None, self.cmd@, self.args.w(), self.args.l()) }
}
/// The bytes a message takes but for the tags and the line terminator; the last argument always counts as having a colon (C09).
pub open spec fn room(src: Option<Src>, kind: Seq<u8>, w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> int { write_msg(Seq::empty(), src, kind, w, l).len() - write_args(w, l).len() + args_room(w, l) }
pub open spec fn args_room(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> int { if w.len() == 0 && l is None { 0 } else { write_args(w, l).len() + (if l is None { 1int } else { 0 }) } }
pub open spec fn clamp(x: int) -> int { if x <= isize::MAX { x } else { isize::MAX as int } }
/// Option::as_deref
pub fn shared_as_deref<'b, 'a>(s: &'b Option<SharedSource<'a>>) -> (r: Option<&'b Source<'a>>)
    ensures match r { Some(x) => s matches Some(y) && *x == y.0@, None => s is None },
{ match s { Some(x) => Some(x.deref()), None => None } }
/// C01 for server messages, over the contracts of the code alone.
fn server_round_trip<'a, W: Write>(msg: ServerMsg<'a>, w: &mut W, text: Line<'a>)
    requires msg.source matches Some(x) ==> source_ok(x.0@@.0, x.0@@.1), text@ == msg.out(),
{
    let back = ServerMsg::parse(Ok(text));
    proof {
        msg.tags.valid(); msg.args.valid(); msg.kind.valid();
        msg_round_trip(msg.tags.t(), src_of(msg.source), msg.kind@, msg.args.w(), msg.args.l());
        msg_line(msg.tags.t(), src_of(msg.source), msg.kind@, msg.args.w(), msg.args.l());
    }
    assert(ok_Line(msg.out()));
    assert(back is Ok);
    let Ok(back) = back else { return; };
    proof { back.tags.valid(); canonical::<Tag, PairX>(back.tags.t(), msg.tags.t()); }
    assert(back.tags.t() == msg.tags.t());
    assert(src_of(back.source) == src_of(msg.source));
    assert(back.kind@ == msg.kind@);
    assert((back.args.w(), back.args.l()) == (msg.args.w(), msg.args.l()));
}
/// C01 for client messages.
fn client_round_trip<'a>(msg: ClientMsg<'a>, text: Line<'a>)
    requires text@ == msg.out(),
{
    let back = ClientMsg::parse(Ok(text));
    proof {
        msg.tags.valid(); msg.args.valid(); ServerMsgKindRaw::Cmd(msg.cmd).valid();
        msg_round_trip(msg.tags.t(), None, msg.cmd@, msg.args.w(), msg.args.l());
        msg_line(msg.tags.t(), None, msg.cmd@, msg.args.w(), msg.args.l());
    }
    assert(ok_Line(msg.out()));
    assert(back is Ok);
    let Ok(back) = back else { return; };
    proof { back.tags.valid(); canonical::<Tag, PairX>(back.tags.t(), msg.tags.t()); }
    assert(back.tags.t() == msg.tags.t());
    assert(back.cmd@ == msg.cmd@);
    assert((back.args.w(), back.args.l()) == (msg.args.w(), msg.args.l()));
}
// ---- The code ----
//@item src/ircmsg/source.rs :: struct SharedSource
//@attr
pub
//@sub /\(std::sync::Arc</ => (pub Arc< ## path; visibility
//@end
//@item src/ircmsg/servermsgkind.rs :: enum ServerMsgKindRaw
//@attr
pub
//@end
//@item src/ircmsg/server.rs :: struct ServerMsg
//@attr
pub
//@end
//@item src/ircmsg/client.rs :: struct ClientMsg
//@attr
pub
//@end
impl<'a> SharedSource<'a> {
//@fn src/ircmsg/source.rs :: impl<'a> SharedSource<'a> :: new
//@ret r
//@spec
        ensures r.0@ == source,
//@sub /std::sync::Arc/ => Arc ## path
//@end
//@fn src/ircmsg/source.rs :: impl<'a> SharedSource<'a> :: owning
//@ret r
//@spec
        ensures r@ == self.0@@,
//@sub /std::sync::Arc/ => Arc ## path
//@sub /\(\*arc\)/ => arc.get() ## Deref
//@end
//@fn src/ircmsg/source.rs :: impl<'a> SharedSource<'a> :: owning_merged
//@ret r
//@spec
        ensures r@ == self.0@@,
//@sub /std::sync::Arc/ => Arc ## path
//@sub /\(\*arc\)/ => arc.get() ## Deref
//@end
//@fn src/ircmsg/source.rs :: impl<'a> std::ops::Deref for SharedSource<'a> :: deref
//@attr pub
//@ret r
//@spec
        ensures *r == self.0@,
//@sub /&Self::Target/ => &Source<'a> ## associated type
//@sub /&self\.0/ => self.0.get() ## Deref
//@end
}
impl<'a> ServerMsgKindRaw<'a> {
//@fn src/ircmsg/servermsgkind.rs :: impl<'a> ServerMsgKindRaw<'a> :: owning
//@ret r
//@spec
        ensures r@ == self@, (r is Numeric) == (self is Numeric),
//@end
//@fn src/ircmsg/servermsgkind.rs :: impl<'a> ServerMsgKindRaw<'a> :: as_arg
//@ret r
//@spec
        ensures r@ == self@,
//@sub /use crate::string::Bytes;/ => ## path
//@head
        proof { self.valid(); }
//@end
//@fn src/ircmsg/servermsgkind.rs :: impl<'a> ServerMsgKindRaw<'a> :: as_str
//@ret r
//@spec
        ensures text(r) == self@,
//@end
//@fn src/ircmsg/servermsgkind.rs :: impl<'a> ServerMsgKindRaw<'a> :: len
//@ret r
//@spec
        ensures r == self@.len(), r > 0,
//@head
        proof { self.valid(); }
//@end
}
//@fn src/ircmsg/codec.rs :: parse
//@ret r
//@spec
    requires forall|w: Word<'a>| call_requires(parse_source, (w,)), forall|w: Word<'a>| call_requires(parse_kind, (w,)),
    ensures match head_of(line@) {
        None => r is Err,
        Some(h) => match r {
            Ok((tags, source, kind, args)) => same_tags(tags.t(), parse_tags(h.0)) && (args.w(), args.l()) == parse_args(h.3)
                && (match (source, h.1) { (Some(x), Some(st)) => exists|w: Word<'a>| w@ == st && call_ensures(parse_source, (w,), Ok(x)), (None, None) => true, _ => false })
                && (exists|w: Word<'a>| w@ == h.2 && call_ensures(parse_kind, (w,), Ok(kind))),
            Err(e) => (h.1 matches Some(st) && exists|w: Word<'a>, e: ParseError| w@ == st && call_ensures(parse_source, (w,), Err(e)))
                || (exists|w: Word<'a>, e: ParseError| w@ == h.2 && call_ensures(parse_kind, (w,), Err(e))),
        },
    },
//@sub /pub\(crate\)(?= )/ => pub ## visibility
//@sub /fn parse</ => fn codec_parse< ## name
//@sub /msg: Line<'a>/ => line: Line<'a> ## rename
//@sub /Splitter::new\(msg\)/ => Splitter::new(line) ## rename
//@sub /let kind = loop/ => let kind: Word<'a>; loop ## break with a value
//@sub /break word,/ => { kind = word; break } ## break with a value
//@sub /Some\(parse_source\((.*)\)\?\)/ => Some(parse_source(\1)?) ## same
//@before /msg\.consume_whitespace/
        let ghost a = msg.rem();
        proof { blanks_of(a); span_of::<Word>(suf(a, blanks(a))); broadcast use valid_Word; }
//@loop 0
        invariant_except_break
            head_of(line@) == head(msg.rem(), expect_tags, expect_source, tt, st),
            expect_source == (st is None),
        invariant
            forall|w: Word<'a>| call_requires(parse_source, (w,)), forall|w: Word<'a>| call_requires(parse_kind, (w,)),
            same_tags(tags.t(), parse_tags(tt)),
            match (source, st) { (Some(x), Some(s)) => exists|w: Word<'a>| w@ == s && call_ensures(parse_source, (w,), Ok(x)), (None, None) => true, _ => false },
        ensures head_of(line@) == Some((tt, st, kind@, msg.rem())),
        decreases msg.rem().len(),
//@before /let kind/
    let ghost mut tt = Seq::<u8>::empty();
    let ghost mut st: Option<Seq<u8>> = None;
    proof { assert(parse_tags(tt) =~= Seq::empty()); assert(tags.t() =~= parse_tags(tt)); }
//@after /tags = Tags::parse[^;]*;/
                proof { tt = pre(suf(a, blanks(a)), span::<Word>(suf(a, blanks(a)))).drop_first(); }
//@before /source = Some/
                let ghost sw = pre(suf(a, blanks(a)), span::<Word>(suf(a, blanks(a)))).drop_first();
                proof { head_src(msg.rem(), false, tt, Some(sw)); st = Some(sw); }
//@end
//@fn src/ircmsg/codec.rs :: bytes_left
//@ret r
//@spec
    requires kind@.len() + (match source { Some(n) => 2 + n.val(), None => 0 }) + write_args(args.w(), args.l()).len() + 1 < usize::MAX,
    ensures r == 510 - clamp(kind@.len() + (match source { Some(n) => 2 + n.val(), None => 0 }) + args_room(args.w(), args.l())),
//@sub /pub\(crate\)(?= )/ => pub ## visibility
//@sub /fn bytes_left/ => fn codec_bytes_left ## name
//@sub /size\.try_into\(\)\.unwrap_or\(isize::MAX\)/ => to_isize(size) ## conversion
//@end
proof fn no_words() ensures write_words(Seq::empty()) == Seq::<u8>::empty() { }
proof fn args_done(w: Seq<Seq<u8>>, l: Option<Seq<u8>>, words: Seq<Seq<u8>>, o: Seq<u8>, out: Seq<u8>)
    requires
        join(w, l).len() == 0 ==> words.len() == 0 && out == o + write_words(words),
        join(w, l).len() > 0 ==> words == join(w, l).drop_last() && out == o + write_words(words) + (if l is Some { seq![32u8, 58u8] } else { seq![32u8] }) + join(w, l).last(),
    ensures out == o + write_args(w, l),
{
    match l {
        Some(x) => { assert(join(w, l).drop_last() =~= w); },
        None => { if w.len() > 0 { assert(w =~= w.drop_last().push(w.last())); write_words_push(w.drop_last(), w.last()); } else { assert(words =~= w); } },
    }
    assert(out =~= o + write_args(w, l));
}
proof fn msg_done(a: Seq<u8>, h: Seq<u8>, k: Seq<u8>, x: Seq<u8>, out: Seq<u8>)
    requires out == (a + (h + k)) + x,
    ensures out == a + (h + k + x),
{ assert(out =~= a + (h + k + x)); }
//@fn src/ircmsg/codec.rs :: write_to
//@ret r
//@spec
    ensures r is Ok ==> final(write).out() == old(write).out() + write_msg(tags.t(), match source { Some(x) => Some(x@), None => None }, kind@, args.w(), args.l()),
//@sub /fn write_to/ => fn codec_write_to ## name
//@sub /\(impl std::io::Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /write_all\((word|last)\)/ => write_all(\1.as_ref()) ## Deref
//@sub /for word in words(?= )/ => for word in it: words ## names the loop's ghost iterator
//@loop 0
        invariant write.out() == o + write_words(views(words@).take(it.index@)),
//@before /let \(words, last\)/
    let ghost o = write.out();
    let ghost src = match source { Some(x) => Some(x@), None => None };
    proof { assert(o =~= old(write).out() + (write_head(tags.t(), src) + kind@)); no_words(); assert(o =~= o + write_words(Seq::empty())); assert forall|s: Seq<Seq<u8>>| #[trigger] s.take(0) == Seq::<Seq<u8>>::empty() by { assert(s.take(0) =~= Seq::empty()); } }
//@before /write\.write_all\([^;]*;\s*(?=write\.write_all\(word)/
            proof {
                let i = it.index@;
                assert(views(words@).take(i + 1) =~= views(words@).take(i).push(word@));
                write_words_push(views(words@).take(i), word@);
            }
//@after /write\.write_all\(word[^;]*;/
            proof { assert(write.out() =~= o + write_words(views(words@).take(it.index@ + 1))); }
//@before /Ok\(\(\)\)/
    proof {
        assert(views(words@).take(words@.len() as int) =~= views(words@));
        if args.list().len() > 0 {
            assert(write.out() =~= o + write_words(views(words@)) + (if args.l() is Some { seq![32u8, 58u8] } else { seq![32u8] }) + args.list().last());
        }
        args_done(args.w(), args.l(), views(words@), o, write.out());
        msg_done(old(write).out(), write_head(tags.t(), src), kind@, write_args(args.w(), args.l()), write.out());
    }
//@head
    hide(write_words); hide(write_args); hide(write_tags); hide(write_source);
//@end
//@item src/ircmsg/codec.rs :: struct ClientCodec
//@attr
pub
//@end
//@item src/ircmsg/codec.rs :: struct ServerCodec
//@attr
pub
//@end
impl ClientCodec {
//@fn src/ircmsg/codec.rs :: impl ClientCodec :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + msg.out(),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /write_to\(&msg\.tags, (.*), &msg\.cmd, / => codec_write_to(&msg.tags, \1, msg.cmd.as_ref(), ## name; Deref
//@end
//@fn src/ircmsg/codec.rs :: impl ClientCodec :: send_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /Self::write_to\(msg, buf\)/ => Self::write_to(msg, vec_write(buf)) ## Write for Vec
//@sub /write\.write_all\(buf\)/ => write.write_all(buf.as_slice()) ## Deref
//@before /buf\.clear/
        proof { assert(write.out() =~= old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8]); }
//@end
//@fn src/ircmsg/codec.rs :: impl ClientCodec :: send_to_tokio
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(impl tokio::io::AsyncWriteExt \+ \?Sized \+ Unpin\)/ => impl Write ## the asynchronous writer by what it writes
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /Self::write_to\(msg, buf\)/ => Self::write_to(msg, vec_write(buf)) ## Write for Vec
//@sub /write\.write_all\(buf\)/ => write.write_all(buf.as_slice()) ## Deref
//@before /buf\.clear/
        proof { assert(write.out() =~= old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8]); }
//@end
//@fn src/ircmsg/codec.rs :: impl Encoder<ClientMsg<'_>> for ClientCodec :: encode
//@ret r
//@spec
        ensures r is Ok ==> final(dst)@ == old(dst)@ + item.out() + seq![13u8, 10u8],
//@sub /Result<\(\), Self::Error>/ => Result<(), IoError> ## associated type
//@sub /&mut dst\.writer\(\)/ => dst.writer() ## a temporary
//@post
        proof { assert(dst@ =~= old(dst)@ + item.out() + seq![13u8, 10u8]); }
//@end
}
impl ServerCodec {
//@fn src/ircmsg/codec.rs :: impl ServerCodec :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + msg.out(),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /write_to\(&msg\.tags, msg\.source\.as_deref\(\), &msg\.kind\.as_arg\(\), / => codec_write_to(&msg.tags, shared_as_deref(&msg.source), msg.kind.as_arg().as_ref(), ## name; Deref
//@end
//@fn src/ircmsg/codec.rs :: impl ServerCodec :: send_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /Self::write_to\(msg, buf\)/ => Self::write_to(msg, vec_write(buf)) ## Write for Vec
//@sub /write\.write_all\(buf\)/ => write.write_all(buf.as_slice()) ## Deref
//@before /buf\.clear/
        proof { assert(write.out() =~= old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8]); }
//@end
//@fn src/ircmsg/codec.rs :: impl ServerCodec :: send_to_tokio
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(impl tokio::io::AsyncWriteExt \+ \?Sized \+ Unpin\)/ => impl Write ## the asynchronous writer by what it writes
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /Self::write_to\(msg, buf\)/ => Self::write_to(msg, vec_write(buf)) ## Write for Vec
//@sub /write\.write_all\(buf\)/ => write.write_all(buf.as_slice()) ## Deref
//@before /buf\.clear/
        proof { assert(write.out() =~= old(write).out() + old(buf)@ + msg.out() + seq![13u8, 10u8]); }
//@end
//@fn src/ircmsg/codec.rs :: impl Encoder<ServerMsg<'_>> for ServerCodec :: encode
//@ret r
//@spec
        ensures r is Ok ==> final(dst)@ == old(dst)@ + item.out() + seq![13u8, 10u8],
//@sub /Result<\(\), Self::Error>/ => Result<(), IoError> ## associated type
//@sub /&mut dst\.writer\(\)/ => dst.writer() ## a temporary
//@post
        proof { assert(dst@ =~= old(dst)@ + item.out() + seq![13u8, 10u8]); }
//@end
}
impl<'a> ClientMsg<'a> {
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + self.out(),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: send_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + self.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: send_to_tokio
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + self.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(impl tokio::io::AsyncWriteExt \+ \?Sized \+ Unpin\)/ => impl Write ## the asynchronous writer by what it writes
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: with_args
//@ret r
//@spec
        ensures r.tags == self.tags, r.cmd == self.cmd, last is None ==> r.args.list() == views(args@), last matches Some(s) ==> (r.args.w(), r.args.l()) == added(views(args@), s@),
//@sub /impl IntoIterator<Item = crate::string::Arg<'a>>/ => Items<Arg<'a>> ## an iterator is the items it yields
//@sub /mut self,/ => self, ## mut self
//@sub /\bself\./ => this. ## mut self
//@sub /\bself\s*\}\s*$/ => this } ## mut self
//@head
        let mut this = self;
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: new_cmd
//@ret r
//@spec
        ensures r.tags.t().len() == 0, r.cmd == cmd, r.args.list().len() == 0,
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: parse
//@ret r
//@spec
        ensures msg is Err ==> r is Err, msg matches Ok(line) ==> match head_of(line@) {
            None => r is Err,
            Some(h) => (r is Ok) == letters(h.2) && (r matches Ok(m) ==>
                same_tags(m.tags.t(), parse_tags(h.0)) && m.cmd@ == up(h.2) && (m.args.w(), m.args.l()) == parse_args(h.3)),
        },
//@sub /msg: impl TryInto<Line<'a>, Error = impl Into<InvalidString>>/ => msg: Result<Line<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /msg\.try_into\(\)\.map_err\(\|e\| ParseError::InvalidLine\(e\.into\(\)\)\)\?/ => map_err(msg, |e| ParseError::InvalidLine(e))? ## conversion; closure
//@sub /super::parse\(/ => codec_parse( ## name
//@sub /\|_\| Ok\(\(\)\)/ => |_w: Word<'a>| -> (y: Result<(), ParseError>) ensures y is Ok { Ok(()) } ## contract of the closure
//@sub /\|kind\| Cmd::from_word\(kind\)\.map_err\(ParseError::InvalidKind\)/ => |kind: Word<'a>| -> (y: Result<Cmd<'a>, ParseError>) ensures (y is Ok) == letters(kind@), y matches Ok(c) ==> c@ == up(kind@) { map_err(Cmd::from_word(kind), |e| ParseError::InvalidKind(e)) } ## contract of the closure
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: bytes_left
//@ret r
//@spec
        requires room(match source { Some(x) => Some(x@), None => None }, self.cmd@, self.args.w(), self.args.l()) + 1 < usize::MAX,
        ensures r == 510 - clamp(room(match source { Some(x) => Some(x@), None => None }, self.cmd@, self.args.w(), self.args.l())),
//@sub /super::bytes_left\(&self\.cmd, source\.map\(Source::len_nonzero\)/ => codec_bytes_left(self.cmd.as_ref(), match source { Some(x) => Some(x.len_nonzero()), None => None } ## Option::map
//@end
//@fn src/ircmsg/client.rs :: impl<'a> ClientMsg<'a> :: owning
//@ret r
//@spec
        ensures r.tags.t() == self.tags.t(), r.cmd@ == self.cmd@, r.args.w() == self.args.w(), r.args.l() == self.args.l(), r.out() == self.out(),
//@end
}
impl<'a> ServerMsg<'a> {
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: write_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + self.out(),
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: send_to
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + self.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /\(impl Write \+ \?Sized\)/ => impl Write ## unsized writers too
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: send_to_tokio
//@ret r
//@spec
        ensures r is Ok ==> final(write).out() == old(write).out() + old(buf)@ + self.out() + seq![13u8, 10u8] && final(buf)@.len() == 0,
//@sub /async fn/ => fn ## a pause is no step of the function
//@sub /\.await/ => ## a pause is no step of the function
//@sub /\(impl tokio::io::AsyncWriteExt \+ \?Sized \+ Unpin\)/ => impl Write ## the asynchronous writer by what it writes
//@sub /std::io::Result<\(\)>/ => Result<(), IoError> ## path
//@sub /super::/ => ## path
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: with_args
//@ret r
//@spec
        ensures r.tags == self.tags, r.kind == self.kind, r.source == self.source, last is None ==> r.args.list() == views(args@), last matches Some(s) ==> (r.args.w(), r.args.l()) == added(views(args@), s@),
//@sub /impl IntoIterator<Item = crate::string::Arg<'a>>/ => Items<Arg<'a>> ## an iterator is the items it yields
//@sub /mut self,/ => self, ## mut self
//@sub /\bself\./ => this. ## mut self
//@sub /\bself\s*\}\s*$/ => this } ## mut self
//@head
        let mut this = self;
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: new_num
//@ret r
//@spec
        ensures r.tags.t().len() == 0, r.source == Some(source), r.kind == ServerMsgKindRaw::Numeric(num), r.args.list() =~= seq![target@],
//@sub /Args::new\(vec!\[target\.into\(\)\], None\)/ => Args::new(Words::owned(vec![target.into_arg()]), None) ## Cow; From
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: new_cmd
//@ret r
//@spec
        ensures r.tags.t().len() == 0, r.source is None, r.kind == ServerMsgKindRaw::Cmd(cmd), r.args.list().len() == 0,
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: parse
//@ret r
//@spec
        ensures msg is Err ==> r is Err, msg matches Ok(line) ==> match head_of(line@) {
            None => r is Err,
            Some(h) => (r is Ok) == (kind_ok(h.2) && (h.1 matches Some(x) ==> parse_source(x) is Some)) && (r matches Ok(m) ==>
                same_tags(m.tags.t(), parse_tags(h.0)) && src_of(m.source) == (match h.1 { Some(x) => parse_source(x), None => None })
                && m.kind@ == kind_of(h.2) && (m.kind is Numeric) == three_digits(h.2) && (m.args.w(), m.args.l()) == parse_args(h.3)),
        },
//@sub /msg: impl TryInto<Line<'a>, Error = impl Into<InvalidString>>/ => msg: Result<Line<'a>, InvalidString> ## the conversion at the call is the caller's
//@sub /msg\.try_into\(\)\.map_err\(\|e\| ParseError::InvalidLine\(e\.into\(\)\)\)\?/ => map_err(msg, |e| ParseError::InvalidLine(e))? ## conversion; closure
//@sub /super::parse\(msg, Source::parse, / => codec_parse(msg, |w: Word<'a>| -> (y: Result<Source<'a>, ParseError>) ensures (y is Ok) == (parse_source(w@) is Some), y matches Ok(s) ==> parse_source(w@) == Some(s@) { Source::parse(w) }, ## name; function item as a closure
//@sub /\|kind\| \{/ => |kind: Word<'a>| -> (y: Result<ServerMsgKindRaw<'a>, ParseError>) ensures (y is Ok) == kind_ok(kind@), y matches Ok(k) ==> k@ == kind_of(kind@) && (k is Numeric) == three_digits(kind@) { ## contract of the closure
//@sub /Numeric::from_bytes\(&kind\)/ => Numeric::from_bytes(kind.as_ref()) ## Deref
//@sub /num\.into\(\)/ => ServerMsgKindRaw::Numeric(num) ## From
//@sub /Cmd::from_word\(kind\)\.map_err\(ParseError::InvalidKind\)\?\.into\(\)/ => ServerMsgKindRaw::Cmd(map_err(Cmd::from_word(kind), |e| ParseError::InvalidKind(e))?) ## From; closure
//@sub /source\.map\(SharedSource::new\)/ => match source { Some(s) => Some(SharedSource::new(s)), None => None } ## Option::map
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: bytes_left
//@ret r
//@spec
        requires room(src_of(self.source), self.kind@, self.args.w(), self.args.l()) + 1 < usize::MAX,
        ensures r == 510 - clamp(room(src_of(self.source), self.kind@, self.args.w(), self.args.l())),
//@sub /super::bytes_left\(/ => codec_bytes_left( ## name
//@sub /&self\.kind\.as_arg\(\)/ => self.kind.as_arg().as_ref() ## Deref
//@sub /self\.source\.as_deref\(\)\.map\(Source::len_nonzero\)/ => match shared_as_deref(&self.source) { Some(x) => Some(x.len_nonzero()), None => None } ## Option::map
//@end
//@fn src/ircmsg/server.rs :: impl<'a> ServerMsg<'a> :: owning
//@ret r
//@spec
        ensures r.tags.t() == self.tags.t(), src_of(r.source) == src_of(self.source), r.kind@ == self.kind@, r.args.w() == self.args.w(), r.args.l() == self.args.l(), r.out() == self.out(),
//@sub /self\.source\.map\(\|src\| (.*)\);/ => match self.source { Some(src) => Some(\1), None => None }; ## Option::map
//@end
}
// ---- Linked contracts ----
pub open spec fn osrc<'a>(s: Option<&Source<'a>>) -> Option<Src> { match s { Some(x) => Some(x@), None => None } }
//@link cmsg.inc :: impl<'a> ClientMsg<'a>
new_cmd
bytes_left = self.bytes_left(source)
//@end
//@link smsg.inc :: impl<'a> ServerMsgKindRaw<'a>
as_str
//@end
//@link compare.rs :: impl<'a> ServerMsgKindRaw<'a>
as_arg
//@end
}
fn main() {}
