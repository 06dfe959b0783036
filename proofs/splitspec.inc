// ---- What the splitter's operations do to the remaining bytes: proved in splitter.rs, relied on by its callers ----
/// The number of leading bytes that U allows / forbids; that are not `b`; that are ASCII whitespace.
pub open spec fn span<U: Charset>(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || U::bad(s[0]) { 0 } else { 1 + span::<U>(s.drop_first()) } }
pub open spec fn skip<U: Charset>(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !U::bad(s[0]) { 0 } else { 1 + skip::<U>(s.drop_first()) } }
pub open spec fn until(s: Seq<u8>, b: u8) -> nat decreases s.len() { if s.len() == 0 || s[0] == b { 0 } else { 1 + until(s.drop_first(), b) } }
pub open spec fn blanks(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || !ascii_ws(s[0]) { 0 } else { 1 + blanks(s.drop_first()) } }
pub proof fn span_is<U: Charset>(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !U::bad(#[trigger] s[i]), k < s.len() ==> U::bad(s[k]),
    ensures span::<U>(s) == k,
    decreases s.len(),
{ if k > 0 { let t = s.drop_first(); assert(!U::bad(s[0])); assert forall|i: int| 0 <= i < k - 1 implies !U::bad(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } span_is::<U>(t, k - 1); } }
pub proof fn span_of<U: Charset>(s: Seq<u8>)
    ensures span::<U>(s) <= s.len(), forall|i: int| 0 <= i < span::<U>(s) ==> !U::bad(#[trigger] s[i]), span::<U>(s) < s.len() ==> U::bad(s[span::<U>(s) as int]),
    decreases s.len(),
{ if s.len() > 0 && !U::bad(s[0]) { let t = s.drop_first(); span_of::<U>(t); assert forall|i: int| 0 <= i < span::<U>(s) implies !U::bad(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn skip_is<U: Charset>(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> U::bad(#[trigger] s[i]), k < s.len() ==> !U::bad(s[k]),
    ensures skip::<U>(s) == k,
    decreases s.len(),
{ if k > 0 { let t = s.drop_first(); assert(U::bad(s[0])); assert forall|i: int| 0 <= i < k - 1 implies U::bad(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } skip_is::<U>(t, k - 1); } }
pub proof fn skip_of<U: Charset>(s: Seq<u8>)
    ensures skip::<U>(s) <= s.len(), forall|i: int| 0 <= i < skip::<U>(s) ==> U::bad(#[trigger] s[i]), skip::<U>(s) < s.len() ==> !U::bad(s[skip::<U>(s) as int]),
    decreases s.len(),
{ if s.len() > 0 && U::bad(s[0]) { let t = s.drop_first(); skip_of::<U>(t); assert forall|i: int| 0 <= i < skip::<U>(s) implies U::bad(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn until_is(s: Seq<u8>, b: u8, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] != b, k < s.len() ==> s[k] == b,
    ensures until(s, b) == k,
    decreases s.len(),
{ if k > 0 { let t = s.drop_first(); assert(s[0] != b); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] != b by { assert(t[i] == s[i + 1]); } until_is(t, b, k - 1); } }
pub proof fn until_of(s: Seq<u8>, b: u8)
    ensures until(s, b) <= s.len(), forall|i: int| 0 <= i < until(s, b) ==> #[trigger] s[i] != b, until(s, b) < s.len() ==> s[until(s, b) as int] == b,
    decreases s.len(),
{ if s.len() > 0 && s[0] != b { let t = s.drop_first(); until_of(t, b); assert forall|i: int| 0 <= i < until(s, b) implies #[trigger] s[i] != b by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
pub proof fn blanks_is(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> ascii_ws(#[trigger] s[i]), k < s.len() ==> !ascii_ws(s[k]),
    ensures blanks(s) == k,
    decreases s.len(),
{ if k > 0 { let t = s.drop_first(); assert(ascii_ws(s[0])); assert forall|i: int| 0 <= i < k - 1 implies ascii_ws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } blanks_is(t, k - 1); } }
pub proof fn blanks_of(s: Seq<u8>)
    ensures blanks(s) <= s.len(), forall|i: int| 0 <= i < blanks(s) ==> ascii_ws(#[trigger] s[i]), blanks(s) < s.len() ==> !ascii_ws(s[blanks(s) as int]),
    decreases s.len(),
{ if s.len() > 0 && ascii_ws(s[0]) { let t = s.drop_first(); blanks_of(t); assert forall|i: int| 0 <= i < blanks(s) implies ascii_ws(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } } }
/// The first k bytes; what follows them.
/// Where cutting at one byte and then at another cuts.
pub open spec fn until2(a: Seq<u8>, b: u8, c: u8) -> nat { until(pre(a, until(a, b)), c) }
pub open spec fn pre(s: Seq<u8>, k: nat) -> Seq<u8> { s.subrange(0, k as int) }
pub open spec fn suf(s: Seq<u8>, k: nat) -> Seq<u8> { s.subrange(k as int, s.len() as int) }
/// Whether `string::<U>(all)` finds something in `a`.
pub open spec fn found<U: Charset>(a: Seq<u8>, all: bool) -> bool { (all ==> span::<U>(a) == a.len()) && U::lead(pre(a, span::<U>(a))) }
/// string: from the remaining bytes `a` of a string of secrecy `sec` to the remaining bytes `b`.
pub open spec fn does_string<'a, U: BytesNewtype<'a>>(a: Seq<u8>, all: bool, r: Result<U, InvalidString>, b: Seq<u8>, sec: bool) -> bool {
    let k = span::<U>(a);
    match r {
        Ok(u) => found::<U>(a, all) && u.v() == pre(a, k) && b == suf(a, k) && (u.sec() == sec || u.v().len() == 0),
        Err(e) => !found::<U>(a, all) && b == a && match e {
            InvalidString::Byte(x) => all && k < a.len() && x == a[k as int],
            InvalidString::Empty => k == 0 && (all ==> a.len() == 0),
            InvalidString::Colon => k > 0 && a[0] == 58 && (all ==> k == a.len()),
        },
    }
}
pub open spec fn does_string_or_default<'a, U: BytesNewtype<'a>>(a: Seq<u8>, all: bool, u: U, b: Seq<u8>, sec: bool) -> bool {
    let k = span::<U>(a);
    if found::<U>(a, all) { u.v() == pre(a, k) && b == suf(a, k) && (u.sec() == sec || u.v().len() == 0) } else { u.v().len() == 0 && b == a }
}
pub open spec fn does_rest<'a, U: BytesNewtype<'a>>(a: Seq<u8>, r: Result<U, InvalidString>, b: Seq<u8>, sec: bool) -> bool {
    match r {
        Ok(u) => U::lead(a) && u.v() == a && b.len() == 0 && (u.sec() == sec || u.v().len() == 0),
        Err(e) => !U::lead(a) && b == a && !(e is Byte),
    }
}
pub open spec fn does_rest_or_default<'a, U: BytesNewtype<'a>>(a: Seq<u8>, u: U, b: Seq<u8>, sec: bool) -> bool {
    if U::lead(a) { u.v() == a && b.len() == 0 && (u.sec() == sec || u.v().len() == 0) } else { u.v().len() == 0 && b == a }
}
pub open spec fn does_next_byte(a: Seq<u8>, r: Option<u8>, b: Seq<u8>) -> bool {
    match r { Some(x) => a.len() > 0 && x == a[0] && b == a.drop_first(), None => a.len() == 0 && b == a }
}
/// Where `until_count(len)` cuts.
pub open spec fn count(a: Seq<u8>, len: usize) -> nat { if len <= a.len() { len as nat } else { a.len() } }
/// An operation below a save_end guard that was cut to the first n bytes: what it took is gone, the rest is back.
pub open spec fn chain_string<'a, U: BytesNewtype<'a>>(a: Seq<u8>, n: nat, all: bool, r: Result<U, InvalidString>, c: Seq<u8>, sec: bool) -> bool {
    let used = match r { Ok(u) => u.v().len(), Err(_) => 0 };
    n <= a.len() && does_string(pre(a, n), all, r, suf(pre(a, n), used), sec) && c == suf(a, used)
}
pub open spec fn chain_rest<'a, U: BytesNewtype<'a>>(a: Seq<u8>, n: nat, r: Result<U, InvalidString>, c: Seq<u8>, sec: bool) -> bool {
    let used = match r { Ok(u) => u.v().len(), Err(_) => 0 };
    n <= a.len() && does_rest(pre(a, n), r, suf(pre(a, n), used), sec) && c == suf(a, used)
}
pub open spec fn chain_rest_or_default<'a, U: BytesNewtype<'a>>(a: Seq<u8>, n: nat, u: U, c: Seq<u8>, sec: bool) -> bool {
    n <= a.len() && does_rest_or_default(pre(a, n), u, suf(pre(a, n), u.v().len()), sec) && c == suf(a, u.v().len())
}
/// Default among the string types: the empty string (proved in C03_types.rs).
pub trait Empty<'a>: BytesNewtype<'a> { fn default() -> (r: Self) ensures r.v().len() == 0, !r.sec(); }
