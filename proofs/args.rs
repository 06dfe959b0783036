//@meta property C08 C01 C02 C09 C25
//@meta assume Vec and Cow stubs satisfy their stated contracts
//@meta assume conversions by TryInto/Into at call sites are the caller's
//@meta assume the sum of the lengths of a list's arguments is below usize::MAX
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
//@include grammar.inc
// ---- Trusted contracts on the standard library ----
/// Cow<'a, [Arg<'a>]>
#[verifier::external_body]
pub struct Words<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Words<'a> {
    pub uninterp spec fn view(&self) -> Seq<Arg<'a>>;
    #[verifier::external_body]
    pub const fn owned(v: Vec<Arg<'a>>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut Vec<Arg<'a>>) ensures (*r)@ == old(self)@, final(self)@ == (*final(r))@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Vec<Arg<'a>>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[Arg<'a>]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// No more than isize::MAX arguments fit in memory.
pub broadcast axiom fn words_len<'a>(s: Words<'a>) ensures (#[trigger] s@).len() <= isize::MAX as nat;
#[verifier::external_body]
pub fn replace<T>(o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x) { o.replace(x) }
#[verifier::external_body]
pub fn last_mut<'b, T>(v: &'b mut Vec<T>) -> (r: Option<&'b mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->Some_0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->Some_0)),
{ v.last_mut() }
#[verifier::external_body]
pub fn split_last<'b, T>(s: &'b [T]) -> (r: Option<(&'b T, &'b [T])>)
    ensures (r is Some) == (s@.len() > 0), r matches Some(x) ==> *x.0 == s@.last() && x.1@ == s@.drop_last(),
{ s.split_last() }
#[verifier::external_body]
pub fn no_words<'b, T>() -> (r: &'b [T]) ensures r@.len() == 0 { &[] }
/// Deref from Arg to Line.
#[verifier::external_body]
pub fn as_line<'b, 'a>(a: &'b Arg<'a>) -> (r: &'b Line<'a>) ensures r@ == a@ { unimplemented!() }
/// `v.into_iter().map(f).collect()`
#[verifier::external_body]
pub fn map_collect<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]),
{ v.into_iter().map(|x| f(x)).collect() }
/// An iterator, as the items it yields.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Items<T> { t: Vec<T> }
impl<T> Items<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Items<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= self@.len(), r.0 <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn extend<T>(v: &mut Vec<T>, it: Items<T>) ensures final(v)@ == old(v)@ + it@ { unimplemented!() }

// ---- Specification ----
pub open spec fn views<'a>(w: Seq<Arg<'a>>) -> Seq<Seq<u8>> { w.map_values(|a: Arg<'a>| a@) }
pub open spec fn oview<'a>(l: Option<Line<'a>>) -> Option<Seq<u8>> { match l { Some(l) => Some(l@), None => None } }
/// The list: the words, then the long argument if there is one.
pub open spec fn join(w: Seq<Seq<u8>>, l: Option<Seq<u8>>) -> Seq<Seq<u8>> { match l { Some(x) => w.push(x), None => w } }
pub open spec fn long_ok<'a>(l: Option<Line<'a>>) -> bool { l matches Some(x) ==> !ok_Arg(x@) }
/// Adding a string at the end: a previous long argument is evicted.
pub open spec fn added(w: Seq<Seq<u8>>, s: Seq<u8>) -> (Seq<Seq<u8>>, Option<Seq<u8>>) { if ok_Arg(s) { (w.push(s), None) } else { (w, Some(s)) } }
/// The bytes an argument list counts for.
pub open spec fn total(w: Seq<Seq<u8>>) -> nat decreases w.len() { if w.len() == 0 { 0 } else { total(w.drop_last()) + w.last().len() + 1 } }
pub proof fn total_written(w: Seq<Seq<u8>>)
    ensures total(w) == write_words(w).len(),
    decreases w.len(),
{ if w.len() > 0 { total_written(w.drop_last()); assert(w =~= w.drop_last().push(w.last())); write_words_push(w.drop_last(), w.last()); } }
impl<'a> Args<'a> {
    pub open spec fn inv(&self) -> bool { long_ok(self.long) }
    pub open spec fn w(&self) -> Seq<Seq<u8>> { views(self.words@) }
    pub open spec fn l(&self) -> Option<Seq<u8>> { oview(self.long) }
    pub open spec fn list(&self) -> Seq<Seq<u8>> { join(self.w(), self.l()) }
    /// Every argument but the last is a non-empty word without spaces that does not begin with a colon.
    pub proof fn shape(&self)
        requires self.inv(),
        ensures forall|i: int| 0 <= i < self.list().len() - 1 ==> ok_Arg(#[trigger] self.list()[i]), list_ok(self.w(), self.l()),
            self.list().len() > 0 ==> ok_Line(self.list().last()) && (self.l() is Some <==> !ok_Arg(self.list().last())),
    {
        if self.long is Some { valid_Line(self.long->Some_0); }
        assert forall|i: int| 0 <= i < self.w().len() implies ok_Arg(#[trigger] self.w()[i]) by { valid_Arg(self.words@[i]); }
        if self.list().len() > 0 && self.l() is None { valid_Arg(self.words@.last()); let s = self.list().last(); assert(ok_Arg(s));
            assert forall|i: int| 0 <= i < s.len() implies !bad_Line(#[trigger] s[i]) by { assert(!bad_Arg(s[i])); } }
    }
}
impl<'a, 'b> ArgsEditGuard<'a, 'b> {
    pub open spec fn inv(&self) -> bool { long_ok(*self.1) }
    pub open spec fn w(&self) -> Seq<Seq<u8>> { views(self.0@) }
    pub open spec fn l(&self) -> Option<Seq<u8>> { oview(*self.1) }
    pub open spec fn list(&self) -> Seq<Seq<u8>> { join(self.w(), self.l()) }
    /// The guard still edits the same list.
    #[verifier::prophetic]
    pub open spec fn same(&self, o: Self) -> bool { *final(self.0) == *final(o.0) && *final(self.1) == *final(o.1) }
}
// ---- The code ----
//@item src/ircmsg/args.rs :: struct Args
//@attr
pub
//@sub /\bwords: Cow<'a, \[Arg<'a>\]>/ => pub words: Words<'a> ## Cow by its contract; visibility
//@sub /\blong:/ => pub long: ## visibility
//@end
//@item src/ircmsg/args.rs :: struct ArgsEditGuard
//@attr
pub
//@sub /\(&'b mut Vec<Arg<'a>>, &'b mut/ => (pub &'b mut Vec<Arg<'a>>, pub &'b mut ## visibility
//@end
//@fn src/ircmsg/args.rs :: add_impl
//@ret r
//@spec
    requires long_ok(*old(long)),
    ensures
        (views(final(words)@), oview(*final(long))) == added(views(old(words)@), s@), long_ok(*final(long)),
        r == *old(long),
//@sub /Arg::find_invalid\(&s\)/ => Arg::find_invalid(s.as_bytes()) ## Deref
//@opt /long\.replace\(s\)/ => replace(long, s) ## Option::replace
//@post
    proof { assert(views(words@) =~= added(views(old(words)@), s@).0); }
//@end
impl<'a, 'c> ArgsEditGuard<'a, 'c> {
//@fn src/ircmsg/args.rs :: impl<'a> ArgsEditGuard<'a, '_> :: add_word
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), final(self).w() == old(self).w().push(w@), *final(self).1 == *old(self).1,
//@sub /add_word<'b: 'a>/ => add_word ## lifetime
//@sub /impl Into<Arg<'b>>/ => Arg<'a> ## the conversion at the call is the caller's
//@sub /w\.into\(\)/ => w ## identity conversion
//@post
        proof { assert(self.w() =~= old(self).w().push(w@)); }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> ArgsEditGuard<'a, '_> :: add_before_last
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), *final(self).1 == *old(self).1,
            old(self).list().len() == 0 ==> final(self).list() == seq![w@],
            old(self).list().len() > 0 ==> final(self).list() == old(self).list().drop_last().push(w@).push(old(self).list().last()),
//@sub /add_before_last<'b: 'a>/ => add_before_last ## lifetime
//@sub /impl Into<Arg<'b>>/ => Arg<'a> ## the conversion at the call is the caller's
//@sub /w\.into\(\)/ => w ## identity conversion
//@sub /self\.0\.last_mut\(\)/ => last_mut(self.0) ## slice::last_mut
//@post
        proof {
            let o = old(self).list();
            let x = o.drop_last().push(w@).push(o.last());
            if o.len() > 0 { assert(self.list() =~= x); } else { assert(self.list() =~= seq![w@]); }
        }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> ArgsEditGuard<'a, '_> :: add
//@ret r
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), r == *old(self).1,
            (final(self).w(), final(self).l()) == added(old(self).w(), s@),
//@sub /add<'b: 'a>/ => add ## lifetime
//@sub /impl Into<Line<'b>>/ => Line<'a> ## the conversion at the call is the caller's
//@sub /s\.into\(\)/ => s ## identity conversion
//@end
//@fn src/ircmsg/args.rs :: impl<'a> ArgsEditGuard<'a, '_> :: add_literal
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)),
            (final(self).w(), final(self).l()) == added(old(self).w(), text(s)),
//@end
//@fn src/ircmsg/args.rs :: impl<'a> ArgsEditGuard<'a, '_> :: clear
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).same(*old(self)), final(self).list().len() == 0,
//@end
}
impl<'a> Args<'a> {
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: empty
//@ret r
//@spec
        ensures r.inv(), r.list().len() == 0,
//@sub /Cow::Owned\(/ => Words::owned( ## Cow by its contract
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: new
//@ret r
//@spec
        ensures r.inv(), last is None ==> r.list() == views(words@), last matches Some(s) ==> (r.w(), r.l()) == added(views(words@), s@),
//@sub /impl Into<Cow<'a, \[Arg<'a>\]>>/ => Words<'a> ## the conversion at the call is the caller's
//@sub /words\.into\(\)/ => words ## identity conversion
//@end
/// The guard edits this list, and nothing else.
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: edit
//@ret r
//@spec
        requires old(self).inv(),
        ensures r.inv(), r.w() == old(self).w(), r.l() == old(self).l(),
            final(self).w() == views((*final(r.0))@), final(self).l() == oview(*final(r.1)),
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: owning
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r.w() == self.w(), r.l() == self.l(),
//@sub /self\.long\.map\(Line::owning\)/ => match self.long { Some(x) => Some(Line::owning(x)), None => None } ## Option::map
//@sub /self\.words\.into_owned\(\)\.into_iter\(\)\.map\(Arg::owning\)\.collect\(\)/ => map_collect(self.words.into_owned(), |x: Arg<'a>| -> (o: Arg<'static>) ensures o@ == x@ { Arg::owning(x) }) ## iterator; closure contract
//@sub /Cow::Owned\(/ => Words::owned( ## Cow by its contract
//@post
        proof { assert(r.w() =~= self.w()); }
//@end
/// An argument list follows the grammar, for every line; the loop ends.
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: parse
//@ret r
//@spec
        ensures r.inv(), (r.w(), r.l()) == parse_args(line@),
//@sub /line: impl Into<Line<'a>>/ => line: Line<'a> ## the conversion at the call is the caller's
//@sub /line\.into\(\)/ => line ## identity conversion
//@sub /Cow::Owned\(/ => Words::owned( ## Cow by its contract
//@sub /Vec::with_capacity\(2\)/ => Vec::<Arg<'a>>::with_capacity(2) ## type
//@head
        let ghost l0 = line;
//@loop 0
            invariant_except_break
                long is None,
                parse_args(l0@) == (views(words@) + parse_args(line.rem()).0, parse_args(line.rem()).1),
            invariant line.of() == l0,
            ensures long_ok(long), parse_args(l0@) == (views(words@), oview(long)),
            decreases line.rem().len(),
//@before /line\.consume_invalid/
            let ghost a = line.rem();
            proof { skip_of::<Arg>(a); }
//@before /match line\.string/
            let ghost b = line.rem();
            let ghost w0 = words@;
            proof { span_of::<Arg>(b); line.chars(); if b.len() > 0 { assert(b[0] == a[skip::<Arg>(a) as int]); } }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: is_empty
//@ret r
//@spec
        ensures r == (self.list().len() == 0),
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: len
//@ret r
//@spec
        ensures r == self.list().len(),
//@head
        broadcast use words_len;
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: clear
//@spec
        ensures final(self).inv(), final(self).list().len() == 0,
//@sub /Cow::Owned\(/ => Words::owned( ## Cow by its contract
//@end
/// Pessimistic: every argument counts with its separator; the colon is counted by the caller.
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: len_bytes
//@ret r
//@spec
        requires total(self.w()) + write_long(self.l()).len() < usize::MAX,
        ensures r == write_args(self.w(), self.l()).len() - (if self.l() is Some { 1int } else { 0 }),
//@sub /for arg in self\.words\.iter\(\)(?= )/ => for arg in it: self.words.as_ref() ## iteration over the slice
//@loop 0
            invariant count == total(views(self.words@.take(it.index@))), total(self.w()) + write_long(self.l()).len() < usize::MAX,
//@before /count \+= arg\.len/
            proof {
                total_take(self.w(), it.index@ + 1);
                assert(views(self.words@.take(it.index@ + 1)) =~= self.w().take(it.index@ + 1));
                let t = views(self.words@.take(it.index@ + 1));
                assert(t.drop_last() =~= views(self.words@.take(it.index@)));
                assert(t.last() == arg@);
            }
//@before /if let Some\(long\) = &self\.long/
        proof { assert(views(self.words@.take(self.words@.len() as int)) =~= self.w()); total_written(self.w()); }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: is_last_long
//@ret r
//@spec
        ensures r == (self.l() is Some),
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: words
//@ret r
//@spec
        ensures r@ == self.words@,
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: all
//@ret r
//@spec
        ensures (r is Some) == (self.l() is None), r matches Some(x) ==> views(x@) == self.list(),
//@sub /self\.long\.is_none\(\)\.then\(\|\| self\.words\.as_ref\(\)\)/ => if self.long.is_none() { Some(self.words.as_ref()) } else { None } ## bool::then
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: split_last
//@ret r
//@spec
        ensures self.list().len() == 0 ==> r.0@.len() == 0 && r.1 is None,
            self.list().len() > 0 ==> (r.1 matches Some(x) && x@ == self.list().last()) && views(r.0@) == self.list().drop_last(),
//@sub /self\.words\.split_last\(\)/ => split_last(self.words.as_ref()) ## slice::split_last
//@sub /\(rest, Some\(last\)\)/ => (rest, Some(as_line(last))) ## Deref
//@sub /\(&\[\], None\)/ => (no_words(), None) ## empty slice
//@post
        proof { if self.list().len() > 0 { assert(views(r.0@) =~= self.list().drop_last()); } }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> Args<'a> :: set
//@spec
        ensures final(self).inv(),
            last is None ==> final(self).list() == views(args@), last matches Some(s) ==> (final(self).w(), final(self).l()) == added(views(args@), s@),
//@sub /impl IntoIterator<Item = Arg<'a>>/ => Items<Arg<'a>> ## an iterator is the items it yields
//@sub /-> &mut Self/ => ## returns its receiver
//@sub /\bself\s*\}\s*$/ => } ## returns its receiver
//@sub /last\.clone\(\)\.try_into\(\)/ => Arg::try_from_Line(last.clone()) ## TryInto named
//@sub /vec\.extend\(iter\)/ => extend(&mut vec, iter) ## Extend
//@sub /words\.into\(\)/ => Words::owned(words) ## From<Vec>
//@post
        proof { if last is Some { assert(self.w() =~= added(views(args@), last->Some_0@).0); } }
//@end
//@fn src/ircmsg/args.rs :: impl<'a> From<Vec<Arg<'a>>> for Args<'a> :: from
//@ret r
//@spec
        ensures r.inv(), r.list() == views(value@),
//@sub /Cow::Owned\(/ => Words::owned( ## Cow by its contract
//@end
}
pub proof fn total_take(w: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= w.len(),
    ensures total(w.take(k)) <= total(w),
    decreases w.len(),
{
    if k < w.len() { assert(w.take(k) =~= w.drop_last().take(k)); total_take(w.drop_last(), k); } else { assert(w.take(k) =~= w); }
}
// ---- Linked contracts ----
//@link msgparts.inc :: impl<'a> Args<'a> :: inv Args :: head proof { total_written(self.w()); }
len_bytes
//@end
//@link msgparts.inc :: impl<'a> Args<'a> :: inv Args
empty parse is_empty is_last_long split_last owning
//@end
//@link message.rs :: impl<'a> Args<'a> :: inv Args
set new
//@end
//@link cmsg.inc :: impl<'a> Args<'a> :: inv Args
edit_add = let mut g = self.edit(); let _ = g.add(s);
edit_add_word = let mut g = self.edit(); g.add_word(s);
edit_add_literal = let mut g = self.edit(); g.add_literal(s);
//@end
//@link smsg.inc :: impl<'a> Args<'a> :: inv Args
all
//@end
}
fn main() {}
