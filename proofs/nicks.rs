//@meta property C19
//@meta assume dyn NickGen is a boxed object with a plan of what it yields
//@meta assume numbers drawn from the random generator are unspecified
//@meta assume format! writes what its stub states
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
//@include newtype.inc
//@include splitspec.inc
//@include types.inc
// ---- Builder<Nick>, by the contracts proved in builder.rs ----
#[verifier::external_body]
pub struct NickBuilder { x: u8 }
pub open spec fn clean(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !bad_Nick(#[trigger] s[i]) }
impl NickBuilder {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(init: Nick<'static>) -> (r: NickBuilder) ensures r@ == init@ { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, s: Nick<'static>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push(&mut self, b: u8) -> (r: Result<(), InvalidString>) ensures final(self)@ == (if bad_Nick(b) { old(self)@ } else { old(self)@ + seq![b] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push_char(&mut self, c: char) -> (r: Result<(), InvalidString>) ensures final(self)@ == (if clean(encode_utf8_spec(c)) { old(self)@ + encode_utf8_spec(c) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Nick<'static>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn encode_utf8_spec(c: char) -> Seq<u8> { encode_utf8(seq![c]) }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn max8(a: u8, b: u8) -> (r: u8) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn sat_add(a: u8, b: u8) -> (r: u8) ensures r == (if a + b > 255 { 255 } else { a + b }) { a.saturating_add(b) }
#[verifier::external_body]
pub fn suffixes_clone(s: &Suffix) -> (r: Suffix) ensures r == *s { unimplemented!() }
#[verifier::external_body]
pub fn choose_seed(n: &Nick<'static>) -> u32 { unimplemented!() }
#[verifier::external_body]
pub fn starts_with(s: &Nick<'static>, p: &Nick<'static>) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@) { unimplemented!() }
#[verifier::external_body]
pub fn nick_ne(s: &Nick<'static>, p: &Nick<'static>) -> (r: bool) ensures r == (s@ != p@) { unimplemented!() }
// ---- Specification ----
/// What one suffix adds for one choice.
pub open spec fn piece(t: SuffixType, num: u8) -> Seq<u8> {
    match t {
        SuffixType::Letter(uc) => seq![((if uc { 65int } else { 97int }) + num % 26) as u8],
        SuffixType::Base8 => seq![(48 + num % 8) as u8],
        SuffixType::Base10 => seq![(48 + num % 10) as u8],
        SuffixType::Base16(uc) => seq![hex(uc, (num % 16) as int)],
        SuffixType::NonZeroBase8 => seq![(49 + num % 7) as u8],
        SuffixType::NonZeroBase10 => seq![(49 + num % 9) as u8],
        SuffixType::NonZeroBase16(uc) => seq![hex(uc, num % 15 + 1)],
        SuffixType::Choice(o) => if o@.len() == 0 { Seq::empty() } else { o@[num as int % o@.len() as int]@ },
        SuffixType::Char(c) => if clean(encode_utf8_spec(c)) { encode_utf8_spec(c) } else { Seq::empty() },
    }
}
pub open spec fn hex(uc: bool, d: int) -> u8 { (if d < 10 { 48 + d } else if uc { 55 + d } else { 87 + d }) as u8 }
pub open spec fn ways(t: SuffixType) -> nat {
    match t {
        SuffixType::Letter(_) => 26,
        SuffixType::Base8 => 8,
        SuffixType::Base10 => 10,
        SuffixType::Base16(_) => 16,
        SuffixType::NonZeroBase8 => 7,
        SuffixType::NonZeroBase10 => 9,
        SuffixType::NonZeroBase16(_) => 15,
        SuffixType::Choice(o) => if o@.len() > 255 { 255 } else { o@.len() },
        SuffixType::Char(_) => 1,
    }
}
/// Which choices the sequential strategy makes for its n-th nick (from 1): all of the first suffix, then all of the first two, and so on.
pub open spec fn digits(ts: Seq<SuffixType>, n: nat) -> Seq<int> decreases ts.len() {
    if ts.len() == 0 || n == 0 { Seq::empty() }
    else if ways(ts[0]) == 0 { digits(ts.drop_first(), n) }
    else { seq![(n - 1) % ways(ts[0]) as int] + digits(ts.drop_first(), ((n - 1) / ways(ts[0]) as int) as nat) }
}
/// The suffix that choices spell (suffixes without choices are passed over).
pub open spec fn say(ts: Seq<SuffixType>, d: Seq<int>) -> Seq<u8> decreases ts.len() {
    if ts.len() == 0 || d.len() == 0 { Seq::empty() }
    else if ways(ts[0]) == 0 { say(ts.drop_first(), d) }
    else { piece(ts[0], d[0] as u8) + say(ts.drop_first(), d.drop_first()) }
}
pub open spec fn grown(t: SuffixType, a: Seq<u8>, b: Seq<u8>) -> bool { exists|num: u8| b == a + #[trigger] piece(t, num) }
/// One choice of each suffix.
pub open spec fn say_all(ts: Seq<SuffixType>, d: Seq<u8>) -> Seq<u8> decreases ts.len() { if ts.len() == 0 || d.len() == 0 { Seq::empty() } else { say_all(ts.drop_last(), d.drop_last()) + piece(ts.last(), d.last()) } }
/// `n` is `stem` and one choice of each suffix.
pub open spec fn spelled(ts: Seq<SuffixType>, stem: Seq<u8>, n: Seq<u8>) -> bool { exists|d: Seq<u8>| d.len() == ts.len() && n == stem + #[trigger] say_all(ts, d) }
proof fn spelled_none(ts: Seq<SuffixType>, stem: Seq<u8>) requires ts.len() == 0 ensures spelled(ts, stem, stem) { let d = Seq::<u8>::empty(); assert(stem + say_all(ts, d) =~= stem); }
proof fn spelled_more(ts: Seq<SuffixType>, k: int, stem: Seq<u8>, m: Seq<u8>)
    requires 0 <= k < ts.len(), spelled(ts.subrange(0, k), stem, m),
    ensures forall|n: Seq<u8>| #[trigger] grown(ts[k], m, n) ==> spelled(ts.subrange(0, k + 1), stem, n),
{
    let d = choose|d: Seq<u8>| d.len() == k && m == stem + #[trigger] say_all(ts.subrange(0, k), d);
    assert forall|n: Seq<u8>| #[trigger] grown(ts[k], m, n) implies spelled(ts.subrange(0, k + 1), stem, n) by {
        let num = choose|num: u8| n == m + #[trigger] piece(ts[k], num);
        let e = d.push(num);
        let u = ts.subrange(0, k + 1);
        assert(u.drop_last() =~= ts.subrange(0, k));
        assert(e.drop_last() =~= d);
        assert(n =~= stem + say_all(u, e));
    }
}
pub open spec fn total(ts: Seq<SuffixType>) -> nat decreases ts.len() { if ts.len() == 0 { 0 } else { total(ts.drop_last()) + ways(ts.last()) } }
/// How many suffixes there are.
pub open spec fn many(ts: Seq<SuffixType>) -> nat decreases ts.len() { if ts.len() == 0 { 0 } else if ways(ts[0]) == 0 { many(ts.drop_first()) } else { ways(ts[0]) * (1 + many(ts.drop_first())) } }
/// What is left to append after the first i suffixes, with the counter at c.
pub open spec fn tail(ts: Seq<SuffixType>, i: int, c: nat) -> Seq<u8> { say(ts.subrange(i, ts.len() as int), digits(ts.subrange(i, ts.len() as int), c)) }
proof fn total_first(ts: Seq<SuffixType>)
    requires ts.len() > 0,
    ensures total(ts) == ways(ts[0]) + total(ts.drop_first()),
    decreases ts.len(),
{
    if ts.len() > 1 {
        total_first(ts.drop_last());
        assert(ts.drop_last().drop_first() =~= ts.drop_first().drop_last());
    } else { assert(ts.drop_last() =~= Seq::empty()); assert(ts.drop_first() =~= Seq::empty()); assert(total(ts.drop_last()) == 0); }
}
/// At least as many suffixes as the sum of the choices, which bounds how many nicks are generated.
proof fn enough(ts: Seq<SuffixType>) ensures total(ts) <= many(ts), decreases ts.len() {
    if ts.len() > 0 {
        total_first(ts); enough(ts.drop_first());
        let (w, c) = (ways(ts[0]) as int, many(ts.drop_first()) as int);
        if w > 0 { assert(w + c <= w * (1 + c)) by(nonlinear_arith) requires w >= 1, c >= 0; }
    }
}
/// C19: the sequential generator never makes the same choices twice.
proof fn differ(ts: Seq<SuffixType>, n: nat, m: nat)
    requires n <= many(ts), m <= many(ts), digits(ts, n) == digits(ts, m),
    ensures n == m,
    decreases ts.len(),
{
    if ts.len() > 0 {
        let r = ts.drop_first();
        let w = ways(ts[0]) as int;
        if w == 0 { if n == 0 { some(r, m); } else if m == 0 { some(r, n); } else { differ(r, n, m); } }
        else if n == 0 || m == 0 { }
        else {
            let (a, b) = (n - 1, m - 1);
            let c = many(r) as int;
            assert(a / w <= c && b / w <= c) by(nonlinear_arith) requires 0 <= a < w * (1 + c), 0 <= b < w * (1 + c), w > 0;
            assert(a / w >= 0 && b / w >= 0) by(nonlinear_arith) requires 0 <= a, 0 <= b, w > 0;
            assert(digits(ts, n)[0] == a % w && digits(ts, m)[0] == b % w);
            assert(digits(ts, n).drop_first() =~= digits(r, (a / w) as nat));
            assert(digits(ts, m).drop_first() =~= digits(r, (b / w) as nat));
            differ(r, (a / w) as nat, (b / w) as nat);
            assert(a == w * (a / w) + a % w && b == w * (b / w) + b % w) by(nonlinear_arith) requires w > 0;
        }
    }
}
proof fn some(ts: Seq<SuffixType>, n: nat) requires n <= many(ts), digits(ts, n).len() == 0 ensures n == 0 decreases ts.len() {
    if ts.len() > 0 && n > 0 { if ways(ts[0]) == 0 { some(ts.drop_first(), n); } }
}
/// Whether the options describe distinct suffixes.
pub open spec fn distinct(ts: Seq<SuffixType>) -> bool { forall|n: nat, m: nat| n <= many(ts) && m <= many(ts) && #[trigger] say(ts, digits(ts, n)) == #[trigger] say(ts, digits(ts, m)) ==> digits(ts, n) == digits(ts, m) }
/// C19: if the options describe distinct suffixes, the nicks of a sequential generator are pairwise distinct.
proof fn nicks_differ(ts: Seq<SuffixType>, stem: Seq<u8>, n: nat, m: nat)
    requires distinct(ts), n <= total(ts), m <= total(ts), n != m,
    ensures stem + say(ts, digits(ts, n)) != stem + say(ts, digits(ts, m)),
{
    enough(ts);
    let (a, b) = (say(ts, digits(ts, n)), say(ts, digits(ts, m)));
    if stem + a == stem + b {
        assert(a =~= (stem + a).subrange(stem.len() as int, (stem + a).len() as int));
        assert(b =~= (stem + b).subrange(stem.len() as int, (stem + b).len() as int));
        differ(ts, n, m);
    }
}
/// Options without a choice of strings, whose characters may stand in a nick, describe distinct suffixes.
pub open spec fn plain(ts: Seq<SuffixType>) -> bool { forall|i: int| 0 <= i < ts.len() ==> plain1(#[trigger] ts[i]) }
proof fn plain_distinct(ts: Seq<SuffixType>) requires plain(ts) ensures distinct(ts) {
    assert forall|n: nat, m: nat| n <= many(ts) && m <= many(ts) && #[trigger] say(ts, digits(ts, n)) == #[trigger] say(ts, digits(ts, m)) implies digits(ts, n) == digits(ts, m) by { plain_say(ts, n, m); }
}
pub open spec fn plain1(t: SuffixType) -> bool { match t { SuffixType::Choice(_) => false, SuffixType::Char(c) => clean(encode_utf8_spec(c)) && encode_utf8_spec(c).len() > 0, _ => true } }
proof fn plain_ways(t: SuffixType) requires plain1(t) ensures ways(t) > 0 { }
proof fn piece_inj(t: SuffixType, a: int, b: int)
    requires plain1(t), 0 <= a < ways(t), 0 <= b < ways(t),
    ensures piece(t, a as u8).len() == piece(t, b as u8).len() > 0, a == b || piece(t, a as u8)[0] != piece(t, b as u8)[0],
{
    let (x, y) = (a as u8 as int, b as u8 as int);
    assert(x == a && y == b);
    match t {
        SuffixType::Letter(_) => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 26); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 26); }
        SuffixType::Base8 => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 8); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 8); }
        SuffixType::Base10 => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 10); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 10); }
        SuffixType::Base16(uc) => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 16); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 16); assert(piece(t, a as u8) == seq![hex(uc, a)]); assert(piece(t, b as u8) == seq![hex(uc, b)]); }
        SuffixType::NonZeroBase8 => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 7); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 7); }
        SuffixType::NonZeroBase10 => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 9); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 9); }
        SuffixType::NonZeroBase16(uc) => { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, 15); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, 15); assert(piece(t, a as u8) == seq![hex(uc, a + 1)]); assert(piece(t, b as u8) == seq![hex(uc, b + 1)]); }
        _ => { }
    }
}
proof fn plain_say(ts: Seq<SuffixType>, n: nat, m: nat)
    requires plain(ts), say(ts, digits(ts, n)) == say(ts, digits(ts, m)),
    ensures digits(ts, n) == digits(ts, m),
    decreases ts.len(),
{
    hide(piece); hide(ways); hide(encode_utf8_spec); hide(clean);
    if ts.len() > 0 {
        let r = ts.drop_first();
        let w = ways(ts[0]) as int;
        assert(plain(r)) by { assert forall|i: int| 0 <= i < r.len() implies plain1(#[trigger] r[i]) by { assert(r[i] == ts[i + 1]); } }
        assert(plain1(ts[0])); plain_ways(ts[0]);
        let (dn, dm) = (digits(ts, n), digits(ts, m));
        if n > 0 { assert(0 <= dn[0] < w) by { assert(dn[0] == (n - 1) % w); assert(0 <= (n - 1) % w < w) by(nonlinear_arith) requires w > 0; } piece_inj(ts[0], dn[0], dn[0]); assert(say(ts, dn).len() > 0); }
        if m > 0 { assert(0 <= dm[0] < w) by { assert(dm[0] == (m - 1) % w); assert(0 <= (m - 1) % w < w) by(nonlinear_arith) requires w > 0; } piece_inj(ts[0], dm[0], dm[0]); assert(say(ts, dm).len() > 0); }
        if n > 0 && m > 0 {
            let (a, b) = (n - 1, m - 1);
            let (rn, rm) = (digits(r, (a / w) as nat), digits(r, (b / w) as nat));
            assert(dn.drop_first() =~= rn && dm.drop_first() =~= rm);
            piece_inj(ts[0], dn[0], dm[0]);
            let (p, q) = (piece(ts[0], dn[0] as u8), piece(ts[0], dm[0] as u8));
            assert(p.len() == q.len());
            assert(p =~= say(ts, dn).subrange(0, p.len() as int));
            assert(q =~= say(ts, dm).subrange(0, q.len() as int));
            assert(say(r, rn) =~= say(ts, dn).subrange(p.len() as int, say(ts, dn).len() as int));
            assert(say(r, rm) =~= say(ts, dm).subrange(q.len() as int, say(ts, dm).len() as int));
            assert(p[0] == q[0]);
            assert(dn[0] == dm[0]);
            plain_say(r, (a / w) as nat, (b / w) as nat);
        }
    }
}
// ---- The code: suffixes ----
//@item src/client/nick/suffix.rs :: pub enum SuffixType
//@end
//@item src/client/nick/suffix.rs :: pub struct Suffix
//@sub /Cow<'static, \[SuffixType\]>/ => Vec<SuffixType> ## owned or borrowed alike
//@end
//@item src/client/nick/suffix.rs :: pub enum SuffixStrategy
//@end
//@item src/client/nick/suffix.rs :: pub struct SuffixGen
//@end
impl SuffixType {
//@fn src/client/nick/suffix.rs :: impl SuffixType :: append
//@spec
        ensures final(nick)@ == old(nick)@ + piece(*self, num), grown(*self, old(nick)@, final(nick)@),
//@head
        proof {
            assert(forall|x: u8| (#[trigger] (x & 7u8)) == x % 8u8) by(bit_vector);
            assert(forall|x: u8| (#[trigger] (x & 15u8)) == x % 16u8) by(bit_vector);
        }
//@post
        proof { assert(nick@ =~= old(nick)@ + piece(*self, num)); }
//@end
//@fn src/client/nick/suffix.rs :: impl SuffixType :: variance
//@ret r
//@spec
        ensures r == ways(*self),
//@sub /std::cmp::min/ => umin ## by its contract
//@end
}
impl SuffixGen {
    /// Nicks are left, and the sequential strategy's counter stays within a byte.
    pub closed spec fn inv(&self) -> bool { self.limit >= 1 && (self.cfg.strategy is Seq ==> self.state + self.limit <= 255) && (self.cfg.strategy is Rng || self.cfg.strategy is Seq) }
    pub closed spec fn stem(&self) -> Seq<u8> { self.prefix@ }
    pub closed spec fn ts(&self) -> Seq<SuffixType> { self.cfg.suffixes@ }
    pub closed spec fn seq(&self) -> bool { self.cfg.strategy is Seq }
    pub closed spec fn done(&self) -> nat { self.state as nat }
    pub closed spec fn left(&self) -> nat { self.limit as nat }
    /// C19: what may come next.
    pub open spec fn next(&self, n: Seq<u8>) -> bool {
        if self.seq() { n == self.stem() + say(self.ts(), digits(self.ts(), self.done() + 1)) }
        else { spelled(self.ts(), self.stem(), n) }
    }
//@fn src/client/nick/suffix.rs :: impl SuffixGen :: calc_next
//@ret r
//@spec
        requires self.inv(),
        ensures self.next(r.0@), self.seq() ==> r.1 == self.done() + 1,
//@sub /for suffix in self\.cfg\.suffixes\.iter\(\)/ => let mut i: usize = 0; while i < self.cfg.suffixes.len() ## iteration by index
//@sub /if cycle \{/ => let suffix = &self.cfg.suffixes[i]; i += 1; if cycle { ## iteration by index
//@sub /let variance/ => let suffix = &self.cfg.suffixes[i]; i += 1; let variance ## iteration by index
//@sub /state\.wrapping_mul\((\d+)\)\.wrapping_add\((\d+)\)/ => wrap_step(state, \1, \2) ## wrapping arithmetic
//@sub /std::cmp::min/ => umin ## by its contract
//@head
        let ghost ts = self.cfg.suffixes@;
        proof { spelled_none(ts.subrange(0, 0), self.prefix@); assert(ts.subrange(0, ts.len() as int) =~= ts); assert(self.prefix@ + Seq::<u8>::empty() =~= self.prefix@); }
//@loop 0
                    invariant
                        ts == self.cfg.suffixes@, 0 <= i <= ts.len(), spelled(ts.subrange(0, i as int), self.prefix@, nick@),
                    decreases ts.len() - i,
//@before /if cycle \{/
                    proof { spelled_more(ts, i as int, self.prefix@, nick@); }
//@before /let variance/
                    proof { let u = ts.subrange(i as int, ts.len() as int); assert(u.drop_first() =~= ts.subrange(i + 1, ts.len() as int)); assert(u[0] == ts[i as int]); }
                    let ghost (c0, n0) = (count, nick@);
//@before /count \/= variance/
                    proof {
                        let u = ts.subrange(i - 1, ts.len() as int); let w = ways(u[0]) as int;
                        let d = digits(u, c0 as nat); let rest = digits(u.drop_first(), ((c0 - 1) / w) as nat);
                        assert(d[0] == (c0 - 1) % w); assert(d.drop_first() =~= rest);
                        assert(0 <= (c0 - 1) / w <= c0 - 1) by(nonlinear_arith) requires c0 >= 1, w >= 1;
                        assert(n0 + say(u, d) =~= (n0 + piece(u[0], d[0] as u8)) + say(u.drop_first(), rest));
                        assert(nick@ =~= n0 + piece(u[0], d[0] as u8));
                    }
//@loop 1
                    invariant_except_break
                        count >= 1, nick@ + tail(ts, i as int, count as nat) == self.prefix@ + say(ts, digits(ts, (self.state + 1) as nat)),
                    invariant
                        ts == self.cfg.suffixes@, 0 <= i <= ts.len(), count <= 255,
                    ensures
                        nick@ == self.prefix@ + say(ts, digits(ts, (self.state + 1) as nat)),
                    decreases ts.len() - i,
//@end
//@fn src/client/nick/suffix.rs :: impl NickGen for SuffixGen :: next_nick
//@ret r
//@spec
        requires this.inv(),
        ensures
            this.next(r.0@), (r.1 is Some) == (this.left() > 1),
            r.1 matches Some(g) ==> g.inv() && g.stem() == this.stem() && g.ts() == this.ts() && g.seq() == this.seq() && g.left() == this.left() - 1 && (g.seq() ==> g.done() == this.done() + 1),
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /mut this: Box<Self>\) -> \(Nick<'static>, Option<Box<dyn NickGen>>\)/ => mut this: Box<SuffixGen>) -> (Nick<'static>, Option<Box<SuffixGen>>) ## dyn
//@sub /not_done\.then_some\(this\)/ => if not_done { Some(this) } else { None } ## by its contract
//@end
//@fn src/client/nick/suffix.rs :: impl NickGen for SuffixGen :: peek
//@ret r
//@spec
        requires self.inv(),
        ensures self.next(r@),
//@end
//@fn src/client/nick/suffix.rs :: impl NickGen for SuffixGen :: handle_invalid
//@ret r
//@spec
        ensures r matches Some(g) ==> *g == *this,
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /this: Box<Self>, nick: &Nick<'static>\) -> Option<Box<dyn NickGen>>/ => this: Box<SuffixGen>, nick: &Nick<'static>) -> Option<Box<SuffixGen>> ## dyn
//@sub /nick\.starts_with\(&this\.prefix\)/ => starts_with(nick, &this.prefix) ## by its contract
//@end
//@fn src/client/nick/suffix.rs :: impl NickTransformer for Suffix :: transform
//@name transform
//@ret r
//@spec
        requires this.strategy is Rng || this.strategy is Seq,
        ensures
            r.inv(), r.stem() == prefix@, r.left() >= 1,
            this.suffixes@.len() > 0 ==> r.ts() == this.suffixes@ && r.seq() == (this.strategy is Seq) && (r.seq() ==> r.done() == 0 && r.left() <= (if total(r.ts()) < 1 { 1 } else { total(r.ts()) })),
            this.suffixes@.len() == 0 ==> r.ts().len() == 0 && r.left() == 1,
//@sub /&self, prefix: Nick<'static>\) -> Box<dyn NickGen>/ => this: &Suffix, prefix: Nick<'static>) -> SuffixGen ## the generator itself
//@sub /\bself\b/ => this ## free function
//@sub /Box::new\(SuffixGen (\{[^}]*\})\)/ => SuffixGen \1 ## the generator itself
//@sub /use std::time::\{SystemTime, UNIX_EPOCH\};/ => ## the seed is any number
//@sub /let mut seed = crate::util::mangle\(&prefix\);/ => let seed = choose_seed(&prefix); ## the seed is any number
//@sub /if let Ok\(dur\) = SystemTime::now\(\)\.duration_since\(UNIX_EPOCH\) \{[^}]*\}/ => ## the seed is any number
//@sub /this\s*\.suffixes\s*\.iter\(\)\s*\.fold\((\du8), \|count, suffix\| count\.saturating_add\(([^;]*)\)\);/ => { let mut count = \1; let ghost start = count as int; let mut i: usize = 0; while i < this.suffixes.len() invariant i <= this.suffixes.len(), count >= start, start == 0 ==> count <= total(this.suffixes@.subrange(0, i as int)) && (i > 0 || count == 0) decreases this.suffixes.len() - i { let suffix = &this.suffixes[i]; proof { let u = this.suffixes@.subrange(0, i + 1); assert(u.drop_last() =~= this.suffixes@.subrange(0, i as int)); assert(u.last() == *suffix); } count = sat_add(count, \2); i += 1; } proof { assert(this.suffixes@.subrange(0, i as int) =~= this.suffixes@); } count }; ## fold as a loop
//@sub /std::cmp::max/ => max8 ## by its contract
//@sub /Suffix::default\(\)/ => suffix_default() ## by its contract
//@sub /this\.clone\(\)/ => suffixes_clone(this) ## by its contract
//@end
}
/// derive(Default)
#[verifier::external_body]
pub fn suffix_default() -> (r: Suffix) ensures r.suffixes@.len() == 0, r.strategy is Rng { unimplemented!() }
#[verifier::external_body]
pub fn wrap_step(x: u32, a: u32, b: u32) -> u32 { x.wrapping_mul(a).wrapping_add(b) }

// ---- Generators in general ----
/// What a generator will yield: one nick, one generator's nicks after another's, or what another implementation yields.
pub ghost enum Plan { Is(Seq<u8>), Then(Box<Plan>, Box<Plan>), Other(int) }
pub uninterp spec fn other_first(x: int) -> Seq<u8>;
pub uninterp spec fn other_rest(x: int) -> Option<Plan>;
pub open spec fn first(p: Plan) -> Seq<u8> decreases p { match p { Plan::Is(n) => n, Plan::Then(a, b) => first(*a), Plan::Other(x) => other_first(x) } }
pub open spec fn rest(p: Plan) -> Option<Plan> decreases p {
    match p {
        Plan::Is(n) => None,
        Plan::Then(a, b) => match rest(*a) { Some(c) => Some(Plan::Then(Box::new(c), b)), None => Some(*b) },
        Plan::Other(x) => other_rest(x),
    }
}
/// Yields the same nicks.
pub open spec fn alike(p: Plan, q: Plan) -> bool { first(p) == first(q) && rest(p) == rest(q) }
/// Box<dyn NickGen>
#[verifier::external_body]
pub struct BoxGen { x: u8 }
impl BoxGen {
    pub uninterp spec fn plan(&self) -> Plan;
    pub uninterp spec fn after_invalid(&self, n: Seq<u8>) -> Option<Plan>;
    #[verifier::external_body]
    pub fn next_nick(self) -> (r: (Nick<'static>, Option<BoxGen>)) ensures r.0@ == first(self.plan()), match rest(self.plan()) { Some(p) => r.1 matches Some(g) && g.plan() == p, None => r.1 is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Nick<'static>) ensures r@ == first(self.plan()) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_invalid(self, n: &Nick<'static>) -> (r: Option<BoxGen>) ensures match self.after_invalid(n@) { Some(p) => r matches Some(g) && g.plan() == p, None => r is None } { unimplemented!() }
    // Coercions to dyn NickGen.
    #[verifier::external_body]
    pub fn of_chain(c: Chain) -> (r: BoxGen) requires c.inv() ensures r.plan() == c.plan() { unimplemented!() }
    #[verifier::external_body]
    pub fn of_iter<I: NickIter>(c: FromIter<I>) -> (r: BoxGen) ensures r.plan() == c.plan() { unimplemented!() }
    #[verifier::external_body]
    pub fn of_nick(c: Nick<'static>) -> (r: BoxGen) ensures r.plan() == Plan::Is(c@) { unimplemented!() }
    #[verifier::external_body]
    pub fn of_suffix(c: SuffixGen) -> (r: BoxGen) requires c.inv() ensures c.next(first(r.plan())) { unimplemented!() }
}
/// impl Iterator<Item = Nick<'static>>
pub trait NickIter: Sized {
    spec fn coming(&self) -> Option<Plan>;
    spec fn bounded(&self) -> bool;
    fn next(&mut self) -> (r: Option<Nick<'static>>) ensures match old(self).coming() { Some(p) => r matches Some(n) && n@ == first(p) && final(self).coming() == rest(p), None => r is None && final(self).coming() is None };
    fn has_bound(&self) -> (r: bool) ensures r == self.bounded();
}
impl Nick<'static> {
//@fn src/client/nick.rs :: impl NickGen for Nick<'static> :: next_nick
//@ret r
//@spec
        ensures r.0@ == this@, r.1 is None,
//@sub /\bself: Box<Self>\) -> \(Nick<'static>, Option<Box<dyn NickGen>>\)/ => this: Box<Nick<'static>>) -> (Nick<'static>, Option<BoxGen>) ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@end
//@fn src/client/nick.rs :: impl NickGen for Nick<'static> :: peek
//@ret r
//@spec
        ensures r@ == self@,
//@end
//@fn src/client/nick.rs :: impl NickGen for Nick<'static> :: handle_invalid
//@ret r
//@spec
        ensures match r { Some(g) => nick@ != this@ && g.plan() == Plan::Is(this@), None => nick@ == this@ },
//@sub /\bself: Box<Self>, nick: &Nick<'static>\) -> Option<Box<dyn NickGen>>/ => this: Box<Nick<'static>>, nick: &Nick<'static>) -> Option<BoxGen> ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /\*nick != \*this/ => nick_ne(nick, &*this) ## by its contract
//@sub /ne\.then_some\(this\)/ => if ne { Some(BoxGen::of_nick(*this)) } else { None } ## by its contract
//@end
}
//@item src/client/nick.rs :: pub struct FromIter<I>
//@end
impl<I: NickIter> FromIter<I> {
    pub closed spec fn plan(&self) -> Plan { match self.iter.coming() { Some(p) => Plan::Then(Box::new(Plan::Is(self.nick@)), Box::new(p)), None => Plan::Is(self.nick@) } }
//@fn src/client/nick.rs :: impl<I: Iterator<Item = Nick<'static>> + 'static + Send> NickGen for FromIter<I> :: next_nick
//@ret r
//@spec
        ensures r.0@ == first(this.plan()), match rest(this.plan()) { Some(p) => r.1 matches Some(g) && alike(g.plan(), p), None => r.1 is None },
//@sub /mut self: Box<Self>\) -> \(Nick<'static>, Option<Box<dyn NickGen>>\)/ => mut this: Box<FromIter<I>>) -> (Nick<'static>, Option<BoxGen>) ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /Some\(this\)/ => Some(BoxGen::of_iter(*this)) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: impl<I: Iterator<Item = Nick<'static>> + 'static + Send> NickGen for FromIter<I> :: peek
//@ret r
//@spec
        ensures r@ == first(self.plan()),
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: impl<I: Iterator<Item = Nick<'static>> + 'static + Send> NickGen for FromIter<I> :: handle_invalid
//@ret r
//@spec
        ensures match r { Some(g) => this.iter.bounded() && g.plan() == this.plan(), None => !this.iter.bounded() },
//@sub /\bself: Box<Self>, _nick: &Nick<'static>\) -> Option<Box<dyn NickGen>>/ => this: Box<FromIter<I>>, _nick: &Nick<'static>) -> Option<BoxGen> ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /this\.iter\.size_hint\(\)\.1\.is_some\(\)/ => this.iter.has_bound() ## by its contract
//@sub /is_finite\.then_some\(this\)/ => if is_finite { Some(BoxGen::of_iter(*this)) } else { None } ## by its contract
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
}
//@fn src/client/nick.rs :: from_iter
//@ret r
//@spec
    ensures match iter.coming() { Some(p) => r matches Some(f) && alike(f.plan(), p), None => r is None },
//@sub /from_iter<I: IntoIterator<Item = Nick<'static>>>\(iter: I\) -> Option<FromIter<I::IntoIter>>/ => from_iter<I: NickIter>(iter: I) -> Option<FromIter<I>> ## already an iterator
//@sub /iter\.into_iter\(\)/ => iter ## already an iterator
//@sub /iter\.next\(\)\?/ => match iter.next() { Some(n) => n, None => return None } ## no conversion
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: from_iter_or
//@ret r
//@spec
    ensures match iter.coming() { Some(p) => alike(r.plan(), p), None => r.plan() == Plan::Is(default@) },
//@sub /from_iter_or<It: FusedIterator<Item = Nick<'static>>, I: IntoIterator<IntoIter = It>>/ => from_iter_or<I: NickIter> ## already an iterator
//@sub /FromIter<It>/ => FromIter<I> ## already an iterator
//@sub /iter\.into_iter\(\)/ => iter ## already an iterator
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@item src/client/nick.rs :: pub struct Chain
//@sub /Box<dyn NickGen>/ => BoxGen ## dyn
//@sub /pub\(self\) / => ## visibility
//@end
impl Chain {
    pub closed spec fn inv(&self) -> bool { self.b is Some }
    pub closed spec fn plan(&self) -> Plan { match self.a { Some(a) => Plan::Then(Box::new(a.plan()), Box::new(self.b->Some_0.plan())), None => self.b->Some_0.plan() } }
    pub closed spec fn after_invalid(&self, n: Seq<u8>) -> Option<Plan> {
        let b = self.b->Some_0.after_invalid(n);
        match self.a {
            Some(a) => match a.after_invalid(n) { Some(p) => match b { Some(q) => Some(Plan::Then(Box::new(p), Box::new(q))), None => Some(p) }, None => b },
            None => b,
        }
    }
//@fn src/client/nick.rs :: impl NickGen for Chain :: next_nick
//@ret r
//@spec
        requires this.inv(),
        ensures r.0@ == first(this.plan()), match rest(this.plan()) { Some(p) => r.1 matches Some(g) && g.plan() == p, None => r.1 is None },
//@sub /mut self: Box<Self>\) -> \(Nick<'static>, Option<Box<dyn NickGen>>\)/ => mut this: Box<Chain>) -> (Nick<'static>, Option<BoxGen>) ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /Some\(this\)/ => Some(BoxGen::of_chain(*this)) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: impl NickGen for Chain :: peek
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == first(self.plan()),
//@sub /as_deref/ => as_ref ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: impl NickGen for Chain :: handle_invalid
//@ret r
//@spec
        requires this.inv(),
        ensures match this.after_invalid(nick@) { Some(p) => r matches Some(g) && g.plan() == p, None => r is None },
//@sub /mut self: Box<Self>, nick: &Nick<'static>\) -> Option<Box<dyn NickGen>>/ => mut this: Box<Chain>, nick: &Nick<'static>) -> Option<BoxGen> ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /this\.a\.take\(\)\.and_then\(\|a\| a\.handle_invalid\(nick\)\)/ => (match this.a.take() { Some(a) => a.handle_invalid(nick), None => None }) ## closure
//@sub /Some\(this\)/ => Some(BoxGen::of_chain(*this)) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: trait NickGenExt: NickGen + Sized :: chain
//@ret r
//@spec
        ensures r.inv(), r.plan() == Plan::Then(Box::new(this.plan()), Box::new(ng.plan())),
//@sub /fn chain\(self: Box<Self>, ng: Box<dyn NickGen>\)/ => fn chain(this: BoxGen, ng: BoxGen) ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/nick.rs :: trait NickGenExt: NickGen + Sized :: chain_using
//@ret r
//@spec
        requires nt.strategy is Rng || nt.strategy is Seq,
        ensures r.inv(), (r.plan() matches Plan::Then(a, b) && *a == this.plan()),
//@sub /fn chain_using\(self: Box<Self>, nt: &impl NickTransformer\)/ => fn chain_using(this: BoxGen, nt: &Suffix) ## dyn
//@sub /\bself\b/ => this ## Box<Self> receiver
//@sub /nt\.transform\(this\.peek\(\)\)/ => BoxGen::of_suffix(SuffixGen::transform(nt, this.peek())) ## dyn
//@sub /this\.chain\(b\)/ => Self::chain(this, b) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
}
// ---- The defaults ----
pub uninterp spec fn guest() -> Plan;
/// The statics of register/defaults.rs; their strategy is as written there.
#[verifier::external_body]
pub fn nt_static(s: Strategies) -> (r: &'static Suffix) ensures r.strategy is Rng || r.strategy is Seq { unimplemented!() }
pub enum Strategies { Fallback, Guest, Bot }
#[verifier::external_body]
pub fn nick_lit(s: &'static str) -> (r: Nick<'static>) ensures r@ == text(s) { unimplemented!() }
#[verifier::external_body]
pub fn user_lit(s: &'static str) -> (r: User<'static>) ensures r@ == text(s) { unimplemented!() }
//@fn src/client/register/defaults.rs :: default_client_nicks
//@ret r
//@spec
    ensures match nicks.coming() { Some(p) => first(r.plan()) == first(p) && (r.plan() matches Plan::Then(q, b) && alike(*q, p)), None => first(r.plan()) == text("Guest") },
//@sub /default_client_nicks<I>\(nicks: I\) -> Box<dyn NickGen>/ => default_client_nicks<I: NickIter>(nicks: I) -> BoxGen ## already an iterator
//@sub /where\s*I: IntoIterator<Item = Nick<'static>>,\s*I::IntoIter: 'static \+ Send,/ => ## already an iterator
//@sub /use crate::client::nick::[^;]*;/ => ## path
//@sub /Box::new\(nicks\)\.chain_using\(&NT_FALLBACK\)/ => BoxGen::of_chain(*Chain::chain_using(BoxGen::of_iter(nicks), nt_static(Strategies::Fallback))) ## dyn
//@sub /Box::new\(Nick::from_str\("Guest"\)\)\.chain_using\(&NT_GUEST\)/ => BoxGen::of_chain(*Chain::chain_using(BoxGen::of_nick(nick_lit("Guest")), nt_static(Strategies::Guest))) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
//@fn src/client/register/defaults.rs :: default_bot_nicks
//@ret r
//@spec
    ensures nicks.coming() matches Some(p) ==> first(r.plan()) == first(p) && (r.plan() matches Plan::Then(q, b) && alike(*q, p)),
//@sub /default_bot_nicks<I>\(nicks: I\) -> Box<dyn NickGen>/ => default_bot_nicks<I: NickIter>(nicks: I) -> BoxGen ## already an iterator
//@sub /where\s*I: IntoIterator<Item = Nick<'static>>,\s*I::IntoIter: 'static \+ Send,/ => ## already an iterator
//@sub /use crate::client::nick::[^;]*;/ => ## path
//@sub /NT_BOT\.transform\(Nick::from_str\("VNZB"\)\)/ => BoxGen::of_suffix(SuffixGen::transform(nt_static(Strategies::Bot), nick_lit("VNZB"))) ## dyn
//@sub /Box::new\(usernicks\)\.chain\(vzbnicks\)/ => BoxGen::of_chain(*Chain::chain(BoxGen::of_iter(usernicks), vzbnicks)) ## dyn
//@head
        proof { reveal_with_fuel(first, 3); reveal_with_fuel(rest, 3); }
//@end
// ---- User names from numbers ----
/// format!("i{id:08x}") and format!("i{id:05}"): the digits, most significant first.
pub open spec fn hexdigits(id: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { hexdigits(id / 16, (n - 1) as nat).push(hex(false, (id % 16) as int)) } }
pub open spec fn decdigits(id: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { decdigits(id / 10, (n - 1) as nat).push((48 + id % 10) as u8) } }
#[verifier::external_body]
pub fn format_i08x(id: u32) -> (r: String) ensures otext(&r) == seq![105u8] + hexdigits(id as nat, 8) { format!("i{id:08x}") }
#[verifier::external_body]
pub fn format_i05(id: u16) -> (r: String) ensures otext(&r) == seq![105u8] + decdigits(id as nat, 5) { format!("i{id:05}") }
proof fn hex_ok(id: nat, n: nat) ensures hexdigits(id, n).len() == n, forall|i: int| 0 <= i < n ==> !bad_User(#[trigger] hexdigits(id, n)[i]) decreases n { if n > 0 { hex_ok(id / 16, (n - 1) as nat); } }
proof fn dec_ok(id: nat, n: nat) ensures decdigits(id, n).len() == n, forall|i: int| 0 <= i < n ==> !bad_User(#[trigger] decdigits(id, n)[i]) decreases n { if n > 0 { dec_ok(id / 10, (n - 1) as nat); } }
impl User<'static> {
//@fn src/string/subtypes/impls.rs :: impl User<'static> :: from_id
//@ret r
//@spec
        ensures r@ == seq![105u8] + hexdigits(id as nat, 8),
//@sub /format!\("i\{id:08x\}"\)/ => format_i08x(id) ## by its contract
//@sub /User::from_bytes\(retval\)/ => User::from_bytes(Bytes::from_string(retval)) ## Into
//@head
        proof { hex_ok(id as nat, 8); let s = seq![105u8] + hexdigits(id as nat, 8); assert forall|i: int| 0 <= i < s.len() implies !bad_User(#[trigger] s[i]) by { if i > 0 { assert(s[i] == hexdigits(id as nat, 8)[i - 1]); } } assert(ok_User(s)); }
//@end
//@fn src/string/subtypes/impls.rs :: impl User<'static> :: from_id_short
//@ret r
//@spec
        ensures r@ == seq![105u8] + decdigits(id as nat, 5),
//@sub /format!\("i\{id:05\}"\)/ => format_i05(id) ## by its contract
//@sub /User::from_bytes\(retval\)/ => User::from_bytes(Bytes::from_string(retval)) ## Into
//@head
        proof { dec_ok(id as nat, 5); let s = seq![105u8] + decdigits(id as nat, 5); assert forall|i: int| 0 <= i < s.len() implies !bad_User(#[trigger] s[i]) by { if i > 0 { assert(s[i] == decdigits(id as nat, 5)[i - 1]); } } assert(ok_User(s)); }
//@end
}
/// Different numbers give different names.
proof fn hex_differ(a: nat, b: nat, n: nat) requires a < pow16(n), b < pow16(n), hexdigits(a, n) == hexdigits(b, n) ensures a == b decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        let (x, y) = (hexdigits(a, n), hexdigits(b, n));
        assert(x.drop_last() =~= hexdigits(a / 16, m) && y.drop_last() =~= hexdigits(b / 16, m));
        assert(x.last() == hex(false, (a % 16) as int) && y.last() == hex(false, (b % 16) as int));
        hex_differ(a / 16, b / 16, m);
    }
}
pub open spec fn pow16(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
fn main() {}
}
