//! C03, C04, C06, C07, C11, C12, C13, C14, C16, C25: strings.
use crate::alloc::*;
use crate::common::*;
use crate::msg::{mk_args, mk_client, mk_server, mk_src, mk_tags, ref_unescape, utf8_consistent, view_args, view_server, view_src, gen_msg, gen_src, view_m};
use crate::{ck, ckeq};
use std::borrow::Cow;
use vinezombie::error::InvalidString;
use vinezombie::ircmsg::*;
use vinezombie::owning::MakeOwning;
use vinezombie::string::tf::*;
use vinezombie::string::*;

// ---- C03 --------------------------------------------------------------------------------------

fn real_offence(t: T, s: &[u8], e: InvalidString) -> bool {
    match e {
        InvalidString::Empty => s.is_empty() && arg_like(t),
        InvalidString::Colon => s.first() == Some(&b':') && arg_like(t),
        InvalidString::Byte(x) => !byte_ok(t, x) && s.contains(&x),
    }
}
fn judge<X: AsRef<[u8]>>(t: T, how: &str, s: &[u8], r: Result<X, InvalidString>) -> Result<(), String> {
    match r {
        Ok(x) => {
            ck!(valid(t, s), "{t:?} {how} accepted {:?}", b(s));
            ckeq!(b(x.as_ref()), b(s), "{t:?} {how} changed the bytes");
        }
        Err(e) => {
            ck!(!valid(t, s), "{t:?} {how} rejected {:?} with {e:?}", b(s));
            ck!(real_offence(t, s, e), "{t:?} {how} rejected {:?} with the wrong error {e:?}", b(s));
        }
    }
    Ok(())
}
macro_rules! basic {
    ($fn:ident, $X:ident, $par:ident, [$($anc:ident)*]) => {
        fn $fn(s: &[u8]) -> Result<(), String> {
            let t = T::$X;
            match $X::find_invalid(s) {
                None => ck!(valid(t, s), "{t:?}::find_invalid accepted {:?}", b(s)),
                Some(e) => ck!(!valid(t, s) && real_offence(t, s, e), "{t:?}::find_invalid({:?}) is {e:?}", b(s)),
            }
            judge(t, "from_bytes(borrowed)", s, $X::from_bytes(Bytes::from_bytes(s)))?;
            judge(t, "from_bytes(owned)", s, $X::from_bytes(s.to_vec()))?;
            judge(t, "from_bytes(cow)", s, $X::from_bytes(Cow::Borrowed(s)))?;
            judge(t, "from_secret", s, $X::from_secret(s.to_vec()))?;
            judge(t, "TryFrom<Bytes>", s, $X::try_from(Bytes::from_bytes(s)))?;
            judge(t, "TryFrom<&[u8]>", s, $X::try_from(s))?;
            judge(t, "TryFrom<Vec>", s, $X::try_from(s.to_vec()))?;
            judge(t, "Splitter::string(true)", s, Splitter::new(Bytes::from_bytes(s)).string::<$X>(true))?;
            let de = serde::de::value::BytesDeserializer::<serde::de::value::Error>::new(s);
            let d = <$X as serde::Deserialize>::deserialize(de);
            ck!(d.is_ok() == valid(t, s), "{t:?} deserialized from {:?}: {d:?}", b(s));
            if let Ok(d) = d { ckeq!(b(d.as_ref() as &[u8]), b(s), "{t:?} deserialized"); utf8_consistent(&Bytes::from(d))?; }
            if let Ok(st) = std::str::from_utf8(s) {
                judge(t, "TryFrom<&str>", s, $X::try_from(st))?;
                judge(t, "TryFrom<String>", s, $X::try_from(st.to_owned()))?;
                let r = std::panic::catch_unwind(|| $X::from_str(st));
                ck!(r.is_ok() == valid(t, s), "{t:?}::from_str({st:?}) panicked: {}", r.is_err());
                if let Ok(x) = r { ckeq!(b(x.as_ref() as &[u8]), b(s), "{t:?}::from_str"); utf8_consistent(&x.into_bytes())?; }
                if s.len() < 64 {
                    let j = serde_json::to_string(st).unwrap();
                    let d = serde_json::from_str::<$X>(&j);
                    ck!(d.is_ok() == valid(t, s), "{t:?} deserialized from {j}: {d:?}");
                    if let Ok(d) = d { let k = serde_json::to_string(&d).unwrap(); ck!(k == j, "{t:?} serialized as {k}, expected {j}"); }
                }
            }
            if s.is_empty() {
                let d: Result<$X, serde::de::value::Error> = serde::Deserialize::deserialize(serde::de::value::UnitDeserializer::new());
                ck!(d.is_ok() == valid(t, b""), "{t:?} deserialized from a unit");
            }
            if let Ok(p) = $par::try_from(Bytes::from_bytes(s)) { let p: $par = p; judge(t, "from_super", s, $X::from_super(p))?; }
            $( if let Ok(p) = $anc::try_from(Bytes::from_bytes(s)) { let p: $anc = p; judge(t, concat!("TryFrom<", stringify!($anc), ">"), s, $X::try_from(p))?; } )*
            // Values, once made, keep their bytes through every widening conversion and view.
            if let Ok(x) = $X::from_bytes(Bytes::from_bytes(s)) {
                $( let y: $anc = x.clone().into(); ckeq!(b(y.as_ref() as &[u8]), b(s), "{t:?} as {}", stringify!($anc)); )*
                ckeq!(b(x.clone().into_cstring().as_bytes()), b(s), "into_cstring");
                ckeq!(x.as_bytes_nonzero().iter().map(|n| n.get()).collect::<Vec<_>>(), s.to_vec(), "as_bytes_nonzero");
                ck!(x.len() == s.len() && x.is_empty() == s.is_empty(), "len/is_empty of {:?}", b(s));
                ck!(x == *s && x.as_bytes() == s && &x[..] == s, "comparison with bytes");
                ckeq!(b(Vec::<u8>::from(x.clone())), b(s), "into Vec");
                ckeq!(b(x.clone().owning().as_ref() as &[u8]), b(s), "owning");
                ckeq!(b(x.clone().secret().as_ref() as &[u8]), b(s), "secret");
            }
            Ok(())
        }
    };
}
macro_rules! root { ($fn:ident, $X:ident) => {
    fn $fn(s: &[u8]) -> Result<(), String> {
        let t = T::$X;
        judge(t, "from_bytes", s, $X::from_bytes(Bytes::from_bytes(s)))?;
        judge(t, "from_secret", s, $X::from_secret(s.to_vec()))?;
        judge(t, "TryFrom<&[u8]>", s, $X::try_from(s))?;
        judge(t, "TryFrom<Vec>", s, $X::try_from(s.to_vec()))?;
        judge(t, "Splitter::string(true)", s, Splitter::new(Bytes::from_bytes(s)).string::<$X>(true))?;
        match $X::find_invalid(s) {
            None => ck!(valid(t, s), "{t:?}::find_invalid accepted {:?}", b(s)),
            Some(e) => ck!(!valid(t, s) && real_offence(t, s, e), "{t:?}::find_invalid({:?}) is {e:?}", b(s)),
        }
        let de = serde::de::value::BytesDeserializer::<serde::de::value::Error>::new(s);
        let d = <$X as serde::Deserialize>::deserialize(de);
        ck!(d.is_ok() == valid(t, s), "{t:?} deserialized from {:?}: {d:?}", b(s));
        Ok(())
    }
} }
root!(k_nonul, NoNul);
basic!(k_line, Line, NoNul, [NoNul]);
basic!(k_word, Word, Line, [NoNul Line]);
basic!(k_arg, Arg, Word, [NoNul Line Word]);
basic!(k_key, Key, Arg, [NoNul Line Word Arg]);
basic!(k_target, Target, Arg, [NoNul Line Word Arg]);
basic!(k_nick, Nick, Target, [NoNul Line Word Arg Target]);
basic!(k_user, User, Arg, [NoNul Line Word Arg]);
basic!(k_cmd, Cmd, Arg, [NoNul Line Word Arg]);

fn all_types(s: &B) -> R {
    k_nonul(s)?; k_line(s)?; k_word(s)?; k_arg(s)?; k_key(s)?; k_target(s)?; k_nick(s)?; k_user(s)?; k_cmd(s)?;
    if let Ok(w) = Word::from_bytes(Bytes::from_bytes(s)) {
        for w in [w.clone(), w.clone().owning(), w.secret()] {
            let sec = w.is_secret();
            let r = Cmd::from_word(w);
            let ok = !s.is_empty() && s.iter().all(u8::is_ascii_alphabetic);
            ck!(r.is_ok() == ok, "Cmd::from_word({s:?}) is {r:?}");
            match r {
                Ok(c) => {
                    ckeq!(b(&c), B(s.to_ascii_uppercase()), "Cmd::from_word");
                    ck!(valid(T::Cmd, &c), "Cmd::from_word made {c:?}");
                    ck!(c.as_str().as_bytes() == &c[..] as &[u8], "as_str");
                    utf8_consistent(&c)?;
                    let _ = sec;
                }
                Err(InvalidString::Byte(x)) => ck!(s.iter().find(|c| !c.is_ascii_alphabetic()) == Some(&x), "Cmd::from_word({s:?}) blames {x}"),
                Err(InvalidString::Empty) => ck!(s.is_empty(), "Cmd::from_word({s:?}) says empty"),
                Err(e) => ck!(s.first() == Some(&b':'), "Cmd::from_word({s:?}) says {e:?}"),
            }
        }
    }
    if let Ok(a) = Arg::from_bytes(Bytes::from_bytes(s)) {
        judge(T::Nick, "from_arg", s, Nick::from_arg(a))?;
    }
    if let Ok(k) = Key::from_bytes(Bytes::from_bytes(s)) {
        ck!(k.is_client_tag() == (s[0] == b'+'), "is_client_tag");
    }
    if let Ok(u) = User::from_bytes(Bytes::from_bytes(s)) {
        ck!(u.no_tilde() == (s[0] != b'~'), "no_tilde");
        ck!(u.len_with_tilde() == s.len() + (s[0] != b'~') as usize, "len_with_tilde");
    }
    Ok(!s.is_empty())
}

#[derive(Clone, Debug, Hash)]
enum BOp { Append(B), Try(B), TryStr(String), Push(u8), Char(char), Check, Reserve(u16), Shrink }

macro_rules! builder_run {
    ($fn:ident, $X:ident) => {
        fn $fn(init: &B, utf: bool, ops: &[BOp]) -> R {
            let t = T::$X;
            let mk = |s: &B| -> $X<'static> { match (utf, std::str::from_utf8(s)) { (true, Ok(x)) => $X::from_bytes(x.to_owned()).unwrap(), _ => $X::from_bytes(s.0.clone()).unwrap() } };
            let mut bd = Builder::<$X<'static>>::new(mk(init));
            let mut m = init.0.clone();
            for op in ops {
                let (r, add): (Result<(), InvalidString>, Vec<u8>) = match op {
                    BOp::Append(s) => { if !valid(t, s) { continue; } bd.append(mk(s)); (Ok(()), s.0.clone()) }
                    BOp::Try(s) => (bd.try_append(&s.0), s.0.clone()),
                    BOp::TryStr(s) => (bd.try_append_str(s), s.as_bytes().to_vec()),
                    BOp::Push(c) => (bd.try_push(*c), vec![*c]),
                    BOp::Char(c) => (bd.try_push_char(*c), c.to_string().into_bytes()),
                    BOp::Check => { let r = bd.check_utf8(); ck!(r.is_ok() == std::str::from_utf8(&m).is_ok(), "check_utf8 of {:?} is {r:?}", b(&m)); continue }
                    BOp::Reserve(n) => { if n % 2 == 0 { bd.reserve(*n as usize) } else { bd.reserve_exact(*n as usize) } continue }
                    BOp::Shrink => { bd.shrink_to_fit(); continue }
                };
                let ok = add.iter().all(|c| byte_ok(t, *c));
                match r {
                    Ok(()) => { ck!(ok, "{t:?} builder accepted {op:?}"); m.extend_from_slice(&add); }
                    Err(e) => ck!(!ok && InvalidString::Byte(*add.iter().find(|c| !byte_ok(t, **c)).unwrap()) == e, "{t:?} builder rejected {op:?} with {e:?}"),
                }
                ckeq!(b(&bd[..]), b(&m), "{t:?} builder contents after {op:?}");
            }
            let x = bd.build();
            ckeq!(b(x.as_ref() as &[u8]), b(&m), "{t:?} built");
            ck!(valid(t, &m), "built an invalid {t:?}: {:?}", b(&m));
            utf8_consistent(&x)?;
            let y: Bytes = x.into();
            ck!(y.to_utf8().is_some() == std::str::from_utf8(&m).is_ok(), "to_utf8 of built {:?} is {:?}", b(&m), y.to_utf8());
            Ok(true)
        }
    };
}
builder_run!(b_nonul, NoNul);
builder_run!(b_line, Line);
builder_run!(b_word, Word);
builder_run!(b_arg, Arg);
builder_run!(b_key, Key);
builder_run!(b_target, Target);
builder_run!(b_nick, Nick);
builder_run!(b_user, User);
builder_run!(b_cmd, Cmd);

fn run_builder(x: &(T, B, bool, Vec<BOp>)) -> R {
    let (t, i, u, o) = x;
    match t {
        T::NoNul => b_nonul(i, *u, o), T::Line => b_line(i, *u, o), T::Word => b_word(i, *u, o), T::Arg => b_arg(i, *u, o),
        T::Key => b_key(i, *u, o), T::Target => b_target(i, *u, o), T::Nick => b_nick(i, *u, o), T::User => b_user(i, *u, o), T::Cmd => b_cmd(i, *u, o),
    }
}
fn gen_builder(r: &mut Rng) -> (T, B, bool, Vec<BOp>) {
    let t = *r.pick(&TYPES);
    let i = B(if arg_like(t) || r.chance(1, 2) { gen(r, t) } else { vec![] });
    let n = r.below(8);
    let ops = (0..n).map(|_| match r.below(10) {
        0..=1 => BOp::Append(B(gen(r, t))),
        2..=3 => BOp::Try(B(r.bytes(b" :;=,!@%\xc3\xa9\0\r\na", |c| r_keep(c, t)))),
        4..=5 => BOp::TryStr(String::from_utf8_lossy(&r.bytes(b" :;=,!@%a\0\n", |c| r_keep(c, t))).into_owned()),
        6 => BOp::Push(*r.pick(b"a:;= ,!@%\xc3\xa9\xe6\xbc\xa2\0\r\n\xffZ")),
        7 => BOp::Char(*r.pick(&['a', 'é', '漢', '🙂', ' ', '=', ';', '\0', '\r', '\n', '@', '!', ',', '%', 'Z'])),
        8 => BOp::Check,
        _ => if r.chance(1, 2) { BOp::Reserve(r.below(300) as u16) } else { BOp::Shrink },
    }).collect();
    (t, i, r.chance(1, 2), ops)
}
fn r_keep(c: u8, t: T) -> bool { byte_ok(t, c) || c % 3 == 0 }

fn transform_keeps_type(x: &(T, B, u8)) -> R {
    let (t, s, k) = x;
    macro_rules! tf { ($X:ident, $tf:expr) => {{ let mut v = $X::from_bytes(s.0.clone()).unwrap(); v.transform($tf); ck!(valid(T::$X, &v), "{:?} became invalid: {:?}", T::$X, b(&v)); utf8_consistent(&v)?; }}; }
    macro_rules! cm { ($X:ident) => { match k { 0 => tf!($X, IrcCasemap::Ascii), 1 => tf!($X, IrcCasemap::Rfc1459), _ => tf!($X, IrcCasemap::Rfc1459Strict) } }; }
    macro_rules! ac { ($X:ident) => { match k { 3 => tf!($X, AsciiCasemap::<true>), 4 => tf!($X, AsciiCasemap::<false>), _ => cm!($X) } }; }
    let side = |k: u8| TrimAscii(match k { 5 => StringSide::Start, 6 => StringSide::End, 7 => StringSide::StartFirst, _ => StringSide::EndFirst });
    match t {
        T::NoNul => if *k > 4 { tf!(NoNul, side(*k)) } else { ac!(NoNul) },
        T::Line => if *k > 4 { tf!(Line, side(*k)) } else { ac!(Line) },
        T::Word => ac!(Word), T::Arg => ac!(Arg), T::Key => ac!(Key),
        T::Target => cm!(Target), T::Nick => cm!(Nick), T::User => cm!(User),
        T::Cmd => tf!(Cmd, AsciiCasemap::<true>),
    }
    Ok(true)
}

/// What a splitter over a string of one type hands out as that type or another.
fn pieces(x: &(T, B, usize, usize)) -> R {
    let (t, s, i, j) = x;
    macro_rules! one { ($S:ident: $($U:ident)*) => {{
        let mut sp = Splitter::new($S::from_bytes(s.0.clone()).unwrap());
        sp.until_count(*j); for _ in 0..*i { sp.next_byte(); }
        let left = b(&s[*i..*j]);
        for peek in [true, false] { $( {
            let mut sp = sp.clone();
            match if peek { sp.peek_rest::<$U>() } else { sp.rest::<$U>() } {
                Ok(u) => ck!(valid(T::$U, &left) && *u == left[..], "rest as {:?}: {:?}", T::$U, b(&u)),
                Err(e) => ck!(!valid(T::$U, &left), "rest as {:?}: {e}", T::$U),
            }
        } )* }
        macro_rules! all { ($V:ident) => {{ let mut sp = sp.clone(); if let Ok(v) = sp.string::<$V>(false) { ck!(valid(T::$V, &v) && left.starts_with(&v), "piece as {:?}: {:?}", T::$V, b(&v)); }
            let mut sp = sp.clone(); if let Ok(v) = sp.string::<$V>(true) { ck!(valid(T::$V, &v), "whole as {:?}: {:?}", T::$V, b(&v)); } }}; }
        all!(NoNul); all!(Line); all!(Word); all!(Arg); all!(Key); all!(Target); all!(Nick); all!(User); all!(Cmd);
    }}; }
    match t {
        T::NoNul => one!(NoNul: NoNul), T::Line => one!(Line: Line NoNul), T::Word => one!(Word: Word Line NoNul), T::Arg => one!(Arg: Arg Word Line NoNul),
        T::Key => one!(Key: Key Arg Word), T::Target => one!(Target: Target Arg Word), T::Nick => one!(Nick: Nick Target Arg), T::User => one!(User: User Arg Word), T::Cmd => one!(Cmd: Cmd Arg Word),
    }
    Ok(true)
}

pub fn c03(c: &mut Ctx) {
    for x in 0..=255u8 {
        let got = [NoNul::is_invalid(&x), Line::is_invalid(&x), Word::is_invalid(&x), Arg::is_invalid(&x), Key::is_invalid(&x), Target::is_invalid(&x), Nick::is_invalid(&x), User::is_invalid(&x), Cmd::is_invalid(&x)];
        c.run("byte predicates", x, |x| { for (g, t) in got.iter().zip(TYPES) { ck!(*g != byte_ok(t, *x), "{t:?}::is_invalid({x}) is {g}"); } Ok(true) });
        for p in [vec![x], vec![x, b'A'], vec![b'A', x], vec![b'A', x, b'A'], vec![b':', x], vec![x, x]] { c.run("byte sweep", B(p), all_types); }
        let mut long = vec![b'A'; 300]; long[299] = x; c.run("byte sweep, long", B(long.clone()), all_types); long[299] = b'A'; long[150] = x; c.run("byte sweep, long", B(long), all_types);
    }
    exhaustive(b":a A\0\r,=", 4, |s| { c.run("string, exhaustive", b(s), all_types); !c.failed() });
    for x in 0..=65535u32 { if x % 257 == 0 || x < 300 { c.run("user ids", x, |x| {
        let u = User::from_id(x.wrapping_mul(65537)); ck!(valid(T::User, &u), "from_id: {u:?}");
        let u = User::from_id_short(*x as u16); ck!(valid(T::User, &u), "from_id_short: {u:?}"); Ok(true) }); } }
    for _ in 0..c.iters(15_000) {
        let t = *c.rng.pick(&TYPES);
        let mut s = gen(&mut c.rng, t);
        if c.rng.chance(1, 2) { let p = c.rng.below(s.len() + 1); s.insert(p, *c.rng.pick(b"\0\r\n :=;,!@%a\xff")); }
        c.run("random string", B(s), all_types);
        let x = gen_builder(&mut c.rng);
        c.run("random builder program", x, run_builder);
        let x = (t, B(gen(&mut c.rng, t)), c.rng.below(9) as u8);
        c.run("random transform", x, transform_keeps_type);
        let mut s = gen(&mut c.rng, t); if byte_ok(t, b':') && !s.is_empty() && c.rng.chance(1, 2) { let p = c.rng.range(1, s.len()); s.insert(p, b':'); }
        let j = c.rng.below(s.len() + 1); let i = c.rng.below(j + 1);
        c.run("pieces of a splitter", (t, B(s), i, j), pieces);
        if c.over() || c.failed() { break; }
    }
}

// ---- C04 --------------------------------------------------------------------------------------

pub fn ref_escape(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in v {
        match c { b';' => o.extend(b"\\:"), b' ' => o.extend(b"\\s"), 13 => o.extend(b"\\r"), 10 => o.extend(b"\\n"), b'\\' => o.extend(b"\\\\"), x => o.push(*x) }
    }
    o
}
fn check_escape(s: &B) -> R {
    let mut forms = vec![NoNul::from_bytes(Bytes::from_bytes(s)).unwrap(), NoNul::from_bytes(s.0.clone()).unwrap(), NoNul::from_secret(s.0.clone()).unwrap()];
    if let Ok(x) = std::str::from_utf8(s) { forms.push(NoNul::from_str(x)); forms.push(NoNul::from_bytes(x.to_owned()).unwrap()); }
    for n in forms {
        let e = escape(n.clone());
        ckeq!(b(&e), B(ref_escape(s)), "escaped");
        ck!(!e.iter().any(|c| matches!(c, 0 | 10 | 13 | b' ' | b';')), "escaped form {:?} contains a forbidden byte", b(&e));
        utf8_consistent(&e)?;
        let u = unescape(e);
        ckeq!(b(&u), *s, "unescape(escape(x))");
        utf8_consistent(&u)?;
        let u = unescape(n);
        ckeq!(b(&u), B(ref_unescape(s)), "unescaped");
        utf8_consistent(&u)?;
        ck!(valid(T::NoNul, &u), "unescaped form contains NUL");
    }
    Ok(!s.is_empty())
}
pub fn c04(c: &mut Ctx) {
    for x in 0..=255u8 {
        c.run("byte functions", x, |x| {
            let e = escape_byte(x).map(|n| n.get());
            let want = match x { b';' => Some(b':'), b' ' => Some(b's'), 13 => Some(b'r'), 10 => Some(b'n'), b'\\' => Some(b'\\'), _ => None };
            ckeq!(e, want, "escape_byte({x})");
            let u = match x { b':' => b';', b's' => b' ', b'r' => 13, b'n' => 10, y => *y };
            ckeq!(unescape_byte(x), u, "unescape_byte({x})");
            Ok(true)
        });
        if x != 0 { for s in [vec![x], vec![x, x], vec![b'\\', x], vec![x, b'\\'], vec![b'a', x, b'b'], vec![b'\\', b'\\', x], vec![b'a', b'\\', x, b';']] { c.run("byte sweep", B(s), check_escape); } }
    }
    exhaustive(b"; \\\r\na:srn", if c.thorough { 6 } else { 5 }, |s| { c.run("value, exhaustive", b(s), check_escape); !c.failed() && !c.over() });
    for _ in 0..c.iters(40_000) {
        let s = c.rng.bytes(b"; \\\r\n:srna", |x| x != 0);
        c.run("random value", B(s), check_escape);
        let n = c.rng.below(3000);
        if c.rng.chance(1, 40) { let s = c.rng.bytes_n(n, b"; \\\r\n:srna", |x| x != 0); c.run("long random value", B(s), check_escape); }
        if c.over() || c.failed() { break; }
    }
}

// ---- C06 / C07: the splitter --------------------------------------------------------------------

#[derive(Clone, Debug, Hash)]
pub enum SOp {
    Str(T, bool), Peek(T, bool), OrDefault(T, bool), Rest(u8), PeekRest(u8), RestOrDefault, Next, RNext, PeekB, RPeekB, Iter,
    ConsumeInv(T), ConsumeWs, Until(u8), UntilEq(u8), UntilCount(u16), Check, Save(bool, bool, Vec<SOp>), SaveEnd(Vec<SOp>),
}
#[derive(Clone, Debug)]
struct SM<'a> { s: &'a [u8], a: usize, z: usize, secret: bool, flagged: bool, nt: bool }

fn chk_piece(m: &SM, what: &dyn std::fmt::Debug, got: &Bytes, want: &[u8]) -> Result<(), String> {
    ckeq!(b(got.as_bytes()), b(want), "{what:?} of {:?}[{}..{}]", b(m.s), m.a, m.z);
    utf8_consistent(got).map_err(|e| format!("{what:?} of {:?}[{}..{}]: {e}", b(m.s), m.a, m.z))?;
    ck!(got.is_secret() == m.secret || got.is_empty(), "{what:?}: piece {:?} has secret={}", b(got.as_bytes()), got.is_secret());
    ck!(got.to_utf8().is_some() == std::str::from_utf8(want).is_ok(), "{what:?}: to_utf8 of {:?} is {:?}", b(want), got.to_utf8());
    Ok(())
}
macro_rules! by_type {
    ($t:expr, $U:ident => $e:expr) => { match $t {
        T::NoNul => { type $U<'x> = NoNul<'x>; $e } T::Line => { type $U<'x> = Line<'x>; $e } T::Word => { type $U<'x> = Word<'x>; $e }
        T::Arg => { type $U<'x> = Arg<'x>; $e } T::Key => { type $U<'x> = Key<'x>; $e } T::Target => { type $U<'x> = Target<'x>; $e }
        T::Nick => { type $U<'x> = Nick<'x>; $e } T::User => { type $U<'x> = User<'x>; $e } T::Cmd => { type $U<'x> = Cmd<'x>; $e }
    } };
}
fn prefix(t: T, r: &[u8]) -> &[u8] {
    &r[..r.iter().position(|c| !byte_ok(t, *c)).unwrap_or(r.len())]
}
macro_rules! splitter_run {
    ($fn:ident, $S:ident, [$($k:literal $R:ident $tr:expr),*]) => {
        fn $fn<'a>(sp: &mut Splitter<$S<'a>>, m: &mut SM<'a>, ops: &[SOp]) -> Result<(), String> {
            for op in ops {
                let r = &m.s[m.a..m.z];
                match op {
                    SOp::Str(t, all) | SOp::Peek(t, all) => {
                        let peek = matches!(op, SOp::Peek(..));
                        let got: Result<Bytes, InvalidString> = by_type!(t, U => if peek { sp.peek_string::<U>(*all).map(|x| x.into_bytes()) } else { sp.string::<U>(*all).map(|x| x.into_bytes()) });
                        let p = prefix(*t, r);
                        let want = if *all && p.len() < r.len() { Err(()) } else if valid(*t, p) { Ok(p) } else { Err(()) };
                        match (got, want) {
                            (Ok(g), Ok(w)) => { chk_piece(m, op, &g, w)?; if !peek { m.a += w.len(); m.nt |= !w.is_empty(); } }
                            (Err(e), Err(())) => {
                                let ok = match e { InvalidString::Empty => p.is_empty() && arg_like(*t), InvalidString::Colon => p.first() == Some(&b':') && arg_like(*t), InvalidString::Byte(x) => *all && r.get(p.len()) == Some(&x) };
                                ck!(ok, "{op:?} of {:?} failed with {e:?}", b(r));
                            }
                            (g, w) => return Err(format!("{op:?} of {:?} is {g:?}, expected {w:?}", b(r))),
                        }
                    }
                    SOp::OrDefault(t, all) => {
                        let got: Bytes = match t { T::NoNul => sp.string_or_default::<NoNul>(*all).into(), T::Word => sp.string_or_default::<Word>(*all).into(), _ => sp.string_or_default::<Line>(*all).into() };
                        let t = match t { T::NoNul | T::Word => *t, _ => T::Line };
                        let p = prefix(t, r);
                        let w: &[u8] = if *all && p.len() < r.len() { &[] } else { p };
                        chk_piece(m, op, &got, w)?;
                        m.a += w.len();
                    }
                    SOp::Rest(k) | SOp::PeekRest(k) => {
                        let peek = matches!(op, SOp::PeekRest(..));
                        let n = [$($k),*].len() as u8;
                        match k % n { $( $k => {
                            let got = if peek { sp.peek_rest::<$R>() } else { sp.rest::<$R>() };
                            let tr: Option<T> = $tr;
                            let al = tr.map(arg_like).unwrap_or(false);
                            let want = if al && (r.is_empty() || r[0] == b':') { Err(()) } else { Ok(r) };
                            match (got, want) {
                                (Ok(g), Ok(w)) => { chk_piece(m, op, &Bytes::from(g), w)?; if !peek { m.a = m.z; } }
                                (Err(e), Err(())) => ck!(e == if r.is_empty() { InvalidString::Empty } else { InvalidString::Colon }, "{op:?} failed with {e:?}"),
                                (g, w) => return Err(format!("{op:?} of {:?} is {g:?}, expected {w:?}", b(r))),
                            }
                        } )* _ => unreachable!() }
                    }
                    SOp::RestOrDefault => splitter_run!(@rod $S, sp, m, op, r),
                    SOp::Next | SOp::Iter => {
                        let g = if matches!(op, SOp::Next) { sp.next_byte() } else { sp.next() };
                        ckeq!(g, r.first().copied(), "{op:?}");
                        m.a += g.is_some() as usize;
                    }
                    SOp::RNext => { let g = sp.rnext_byte(); ckeq!(g, r.last().copied(), "{op:?}"); m.z -= g.is_some() as usize; }
                    SOp::PeekB => ckeq!(sp.peek_byte(), r.first().copied(), "{op:?}"),
                    SOp::RPeekB => ckeq!(sp.rpeek_byte(), r.last().copied(), "{op:?}"),
                    SOp::ConsumeInv(t) => { by_type!(t, U => sp.consume_invalid::<U>()); m.a += r.iter().take_while(|c| !byte_ok(*t, **c)).count(); }
                    SOp::ConsumeWs => { sp.consume_whitespace(); m.a += r.iter().take_while(|c| matches!(c, b' ' | 9 | 10 | 12 | 13)).count(); }
                    SOp::Until(x) => { sp.until_byte(|c| *c > *x); m.z = m.a + r.iter().take_while(|c| **c <= *x).count(); }
                    SOp::UntilEq(x) => { sp.until_byte_eq(*x); m.z = m.a + r.iter().take_while(|c| **c != *x).count(); }
                    SOp::UntilCount(n) => { sp.until_count(*n as usize); m.z = m.a + r.len().min(*n as usize); }
                    SOp::Check => {
                        let g = sp.check_encoding();
                        let ok = std::str::from_utf8(r).is_ok();
                        ck!(g.is_ok() == ok, "check_encoding of {:?} is {g:?}", b(r));
                        ck!(!ok || r.is_empty() || sp.is_utf8_lazy(), "is_utf8_lazy false after a successful check of {:?}", b(r));
                    }
                    SOp::Save(s, e, inner) => {
                        let (a, z) = (m.a, m.z);
                        { let mut g = sp.save(*s, *e); $fn(&mut g, m, inner)?; ckeq!(g.next(), m.s[m.a..m.z].first().copied(), "guard next()"); m.a += (m.a < m.z) as usize; }
                        if *s { m.a = a; }
                        if *e { m.z = z; }
                    }
                    SOp::SaveEnd(inner) => { let z = m.z; { let mut g = sp.save_end(); $fn(&mut g, m, inner)?; } m.z = z; }
                }
                let r = &m.s[m.a..m.z];
                ckeq!(b(sp.as_slice()), b(r), "remaining bytes after {op:?}");
                ck!(sp.len() == r.len() && sp.is_empty() == r.is_empty(), "len() {} is_empty() {} after {op:?}, remaining {:?}", sp.len(), sp.is_empty(), b(r));
                ck!(!sp.is_utf8_lazy() || std::str::from_utf8(r).is_ok(), "{:?} reported as UTF-8 after {op:?}", b(r));
                ckeq!(b(sp.as_ref() as &[u8]), b(m.s), "as_ref()");
                ck!(sp.is_secret() == m.secret, "is_secret()");
            }
            Ok(())
        }
    };
    (@rod Bytes, $sp:ident, $m:ident, $op:ident, $r:ident) => {{ let g: Bytes = $sp.rest_or_default(); chk_piece($m, $op, &g, $r)?; $m.a = $m.z; }};
    (@rod Arg, $sp:ident, $m:ident, $op:ident, $r:ident) => {{ let g: Word = $sp.rest_or_default(); chk_piece($m, $op, &g, $r)?; $m.a = $m.z; }};
    (@rod $S:ident, $sp:ident, $m:ident, $op:ident, $r:ident) => {{ let g: Line = $sp.rest_or_default(); chk_piece($m, $op, &g, $r)?; $m.a = $m.z; }};
}
splitter_run!(sp_bytes, Bytes, [0 Bytes None]);
splitter_run!(sp_line, Line, [0 Line Some(T::Line), 1 NoNul Some(T::NoNul), 2 Bytes None]);
splitter_run!(sp_word, Word, [0 Word Some(T::Word), 1 Line Some(T::Line), 2 NoNul Some(T::NoNul), 3 Bytes None]);
splitter_run!(sp_arg, Arg, [0 Arg Some(T::Arg), 1 Word Some(T::Word), 2 Line Some(T::Line)]);

fn run_splitter(x: &(u8, u8, B, Vec<SOp>)) -> R {
    let (ty, how, s, ops) = x;
    let mk = |v: &'_ [u8]| -> Bytes<'static> {
        match (how % 4, std::str::from_utf8(v)) {
            (0, _) => Bytes::from(v.to_vec()),
            (1, Ok(u)) => Bytes::from(u.to_owned()),
            (2, _) => Bytes::from_secret(v.to_vec()),
            (3, _) => { let x = Bytes::from(v.to_vec()); x.to_utf8(); x }
            _ => Bytes::from(v.to_vec()),
        }
    };
    let st = mk(s);
    let keep = st.clone();
    let mut m = SM { s, a: 0, z: s.len(), secret: st.is_secret(), flagged: false, nt: false };
    match ty % 4 {
        0 => sp_bytes(&mut Splitter::new(st), &mut m, ops)?,
        1 if valid(T::Line, s) => sp_line(&mut Splitter::new(Line::from_bytes(st).unwrap()), &mut m, ops)?,
        2 if valid(T::Word, s) => sp_word(&mut Splitter::new(Word::from_bytes(st).unwrap()), &mut m, ops)?,
        3 if valid(T::Arg, s) => sp_arg(&mut Splitter::new(Arg::from_bytes(st).unwrap()), &mut m, ops)?,
        _ => return Ok(false),
    }
    ckeq!(b(keep.as_bytes()), *s, "original string");
    let _ = m.flagged;
    Ok(!s.is_empty() && !ops.is_empty())
}
fn gen_sop(r: &mut Rng, s: &[u8], d: usize) -> SOp {
    let x = if s.is_empty() || r.chance(1, 4) { *r.pick(b" :,=;!@a\xc3\xa9") } else { *r.pick(s) };
    let t = *r.pick(&TYPES);
    match r.below(if d > 0 { 24 } else { 20 }) {
        0..=1 => SOp::Str(t, r.chance(1, 4)), 2 => SOp::Peek(t, r.chance(1, 4)), 3 => SOp::OrDefault(*r.pick(&[T::NoNul, T::Word, T::Line]), r.chance(1, 4)),
        4 => SOp::Rest(r.below(12) as u8), 5 => SOp::PeekRest(r.below(12) as u8), 6 => SOp::RestOrDefault,
        7..=8 => SOp::Next, 9 => SOp::RNext, 10 => SOp::PeekB, 11 => SOp::RPeekB, 12 => SOp::Iter,
        13 => SOp::ConsumeInv(t), 14 => SOp::ConsumeWs, 15 => SOp::Until(x), 16 => SOp::UntilEq(x),
        17 => SOp::UntilCount(r.below(s.len() + 3) as u16), 18..=19 => SOp::Check,
        20..=22 => { let n = r.below(5); SOp::Save(r.chance(1, 2), r.chance(1, 2), (0..n).map(|_| gen_sop(r, s, d - 1)).collect()) }
        _ => { let n = r.below(5); SOp::SaveEnd((0..n).map(|_| gen_sop(r, s, d - 1)).collect()) }
    }
}
fn gen_split(r: &mut Rng) -> (u8, u8, B, Vec<SOp>) {
    let ty = r.below(4) as u8;
    let t = match ty { 1 => T::Line, 2 => T::Word, 3 => T::Arg, _ => T::NoNul };
    let mut s = gen(r, t);
    if ty == 0 && r.chance(1, 4) { let p = r.below(s.len() + 1); s.insert(p, 0); }
    let n = r.range(1, 9);
    let ops = (0..n).map(|_| gen_sop(r, &s, 2)).collect();
    (ty, r.below(4) as u8, B(s), ops)
}
fn split_programs(c: &mut Ctx, n: u64) {
    // Every single operation on every short string, alone and in a guard, with and without a known encoding.
    let mut ops: Vec<SOp> = vec![SOp::Next, SOp::RNext, SOp::PeekB, SOp::RPeekB, SOp::ConsumeWs, SOp::Rest(0), SOp::Rest(1), SOp::RestOrDefault, SOp::Until(b':'), SOp::UntilEq(b' '), SOp::UntilEq(0xa9), SOp::UntilCount(0), SOp::UntilCount(1), SOp::UntilCount(3), SOp::Check];
    for t in TYPES { for a in [false, true] { ops.push(SOp::Str(t, a)); } ops.push(SOp::ConsumeInv(t)); }
    let mut strs = vec![];
    exhaustive(b" :A\xc3\xa9", 3, |s| { strs.push(b(s)); true });
    strs.push(b("aé bé:c")); strs.push(b("é漢 🙂x"));
    for s in &strs { for how in [0u8, 1, 3] { for o in &ops {
        c.run("operation, exhaustive", (0u8, how, s.clone(), vec![o.clone(), SOp::Check, SOp::Rest(0)]), run_splitter);
        c.run("guarded operation, exhaustive", (1u8, how, s.clone(), vec![SOp::UntilCount(3), SOp::SaveEnd(vec![o.clone(), SOp::Check]), SOp::Next, SOp::Rest(0)]), run_splitter);
        c.run("guarded operation, exhaustive", (1u8, how, s.clone(), vec![SOp::Save(true, false, vec![SOp::Check, o.clone(), SOp::Check]), SOp::PeekRest(0), SOp::Rest(0)]), run_splitter);
    } } if c.failed() { return; } }
    for _ in 0..n {
        let x = gen_split(&mut c.rng);
        c.run("random program", x, run_splitter);
        if c.over() || c.failed() { break; }
    }
}
pub fn c06(c: &mut Ctx) {
    let n = c.iters(120_000);
    split_programs(c, n);
}

// ---- C07 --------------------------------------------------------------------------------------

fn check_utf8(x: &(B, u8)) -> R {
    let (s, how) = x;
    let truth = std::str::from_utf8(s).is_ok();
    let lossy = String::from_utf8_lossy(s).into_owned();
    let mk = || -> Bytes<'static> {
        match (how, std::str::from_utf8(s)) {
            (0, _) => Bytes::from(s.0.clone()),
            (1, Ok(u)) => Bytes::from(u.to_owned()),
            (2, _) => Bytes::from_secret(s.0.clone()),
            (3, Ok(u)) => Bytes::from(Cow::Borrowed(u)).owning(),
            (4, _) => Bytes::from_bytes(s).owning(),
            (5, Ok(u)) => Bytes::from_str(u).owning(),
            (6, _) => { let x = Bytes::from_bytes(s); let _ = x.to_utf8(); x.owning() }
            (7, _) => { let x = Bytes::from(s.0.clone()); let _ = x.to_utf8_lossy(); x.clone() }
            (8, _) => { let x = Bytes::from(s.0.clone()); let _ = x.to_utf8(); x.secret() }
            (9, _) => { let mut x = Bytes::from_bytes(s); x.make_owning(); x.owning() }
            _ => Bytes::from(&s[..]).owning(),
        }
    };
    let full = |y: &Bytes<'static>, what: &str| -> Result<(), String> {
        utf8_consistent(y).map_err(|e| format!("{what}: {e}"))?;
        let t = std::str::from_utf8(y).is_ok();
        ck!(y.to_utf8().is_some() == t, "{what}: to_utf8 of {:?} is {:?}", b(y.as_bytes()), y.to_utf8());
        if let Some(u) = y.to_utf8() { ck!(u.as_bytes() == y.as_bytes(), "{what}: to_utf8 bytes differ"); }
        ck!(y.is_utf8_lazy() == Some(t), "{what}: is_utf8_lazy after a check is {:?}", y.is_utf8_lazy());
        ckeq!(y.to_utf8_lossy().into_owned(), String::from_utf8_lossy(y).into_owned(), "{what}: to_utf8_lossy");
        ckeq!(y.to_utf8_lossy_static().into_owned(), String::from_utf8_lossy(y).into_owned(), "{what}: to_utf8_lossy_static");
        Ok(())
    };
    full(&mk(), "as made")?;
    let y = mk();
    ckeq!(y.to_utf8_lossy().into_owned(), lossy, "to_utf8_lossy first");
    full(&y, "after to_utf8_lossy")?;
    full(&y.clone(), "clone")?;
    full(&y.clone().secret(), "secret")?;
    full(&y.owning(), "owning")?;
    let y = mk().into_utf8_lossy();
    ckeq!(b(y.as_bytes()), b(&lossy), "into_utf8_lossy");
    ck!(!truth || b(y.as_bytes()) == *s, "into_utf8_lossy changed valid UTF-8");
    full(&y, "into_utf8_lossy")?;
    for pre in [false, true] {
        macro_rules! t { ($tf:expr) => {{ let mut y = mk(); if pre { y.to_utf8(); } y.transform($tf); full(&y, concat!("after ", stringify!($tf)))?; }}; }
        t!(AsciiCasemap::<true>); t!(AsciiCasemap::<false>); t!(IrcCasemap::Rfc1459); t!(IrcCasemap::Rfc1459Strict); t!(IrcCasemap::Ascii);
        t!(TrimAscii(StringSide::Start)); t!(TrimAscii(StringSide::End)); t!(TrimAscii(StringSide::StartFirst)); t!(TrimAscii(StringSide::EndFirst));
        t!(FlipHigh(Utf8Policy::Recheck)); t!(Half(Utf8Policy::Recheck)); t!(Half(Utf8Policy::Recheck));
    }
    if valid(T::NoNul, s) {
        let n = NoNul::from_bytes(mk()).unwrap();
        for pre in [false, true] {
            if pre { n.to_utf8(); }
            full(&Bytes::from(escape(n.clone())).owning(), "escape")?;
            full(&Bytes::from(unescape(n.clone())).owning(), "unescape")?;
        }
    }
    if let Ok(u) = std::str::from_utf8(s) { ck!(mk() == *u, "not equal to its own text"); }
    if mk() == *lossy { ck!(truth, "equal to different text"); }
    Ok(!s.is_ascii())
}
/// Test transforms with honest policies.
struct FlipHigh(Utf8Policy);
unsafe impl Transform for FlipHigh {
    type Value = ();
    fn transform<'a>(self, x: &Bytes<'a>) -> Transformation<'a, ()> {
        Transformation { value: (), transformed: Cow::Owned(x.iter().map(|c| c ^ 0x80).collect()), utf8: self.0 }
    }
}
struct Half(Utf8Policy);
unsafe impl Transform for Half {
    type Value = ();
    fn transform<'a>(self, x: &Bytes<'a>) -> Transformation<'a, ()> {
        let s = unsafe { x.as_bytes_unsafe() };
        Transformation { value: (), transformed: Cow::Borrowed(&s[s.len() / 2..]), utf8: self.0 }
    }
}
pub fn c07(c: &mut Ctx) {
    exhaustive(b"a\xc3\xa9\xe6\xbc\xa2\xff \\", 4, |s| { for how in [0, 1, 2, 6] { c.run("bytes, exhaustive", (b(s), how), check_utf8); } !c.failed() });
    let n = c.iters(20_000);
    for _ in 0..n {
        let mut s = c.rng.bytes(b"a \xc3\xa9\xe6\xbc\xa2\xff\\;sA", |_| true);
        if c.rng.chance(1, 2) { let p = c.rng.below(s.len() + 1); s.truncate(p); }
        let how = c.rng.below(11) as u8;
        c.run("random bytes", (B(s), how), check_utf8);
        let x = gen_builder(&mut c.rng);
        c.run("random builder program", x, run_builder);
        if c.over() || c.failed() { break; }
    }
    let n = c.iters(10_000);
    bytes_programs(c, n);
    let n = c.iters(60_000);
    split_programs(c, n);
}

// ---- C11 --------------------------------------------------------------------------------------

const SHH: &str = "hUnTeRtWoSeCrEt";
fn reveals(text: &str, s: &[u8]) -> bool {
    if s.len() < 6 { return false; } // too short to tell from the surrounding text
    let dbg = format!("{s:?}");
    let dec = dbg.trim_matches(|c| c == '[' || c == ']').to_string();
    let hex: String = s.iter().map(|c| format!("{c:02x}")).collect();
    text.contains(&*String::from_utf8_lossy(s)) || text.contains(&dec) || text.to_lowercase().contains(&hex) || text.contains(&s.escape_ascii().to_string())
        || text.contains(&String::from_utf8_lossy(s).to_uppercase()) || text.contains(&String::from_utf8_lossy(s).to_lowercase())
}
fn hush(what: &str, s: &[u8], x: &(impl std::fmt::Debug + ?Sized)) -> Result<(), String> {
    for t in [format!("{x:?}"), format!("{x:#?}")] { ck!(!reveals(&t, s), "Debug of {what} reveals {:?}: {t}", b(s)); }
    Ok(())
}
fn hush_d(what: &str, s: &[u8], x: &(impl std::fmt::Debug + std::fmt::Display)) -> Result<(), String> {
    hush(what, s, x)?;
    for t in [format!("{x}"), format!("{x:>40}")] { ck!(!reveals(&t, s), "Display of {what} reveals {:?}: {t}", b(s)); }
    Ok(())
}
fn check_secret(x: &(B, u8)) -> R {
    let (s, how) = x;
    let sec: Bytes<'static> = match how % 5 {
        0 => Bytes::from_secret(s.0.clone()),
        1 => Bytes::from(s.0.clone()).secret(),
        2 => Bytes::from_bytes(s).secret().owning(),
        3 => { let mut x = Bytes::from_bytes(s).secret(); x.make_owning(); x.owning() }
        _ => { let x = Bytes::from(s.0.clone()).secret(); let _ = x.to_utf8(); x }
    };
    let shy = |what: &str, y: &Bytes, want: &[u8]| -> Result<(), String> {
        ckeq!(b(y.as_bytes()), b(want), "{what}: bytes");
        ck!(y.is_empty() || y.is_secret(), "{what} is not secret");
        if !want.is_empty() && want.len() >= 4 { hush_d(what, want, y)?; }
        Ok(())
    };
    shy("the string", &sec, s)?;
    shy("clone", &sec.clone(), s)?;
    shy("clone of clone", &sec.clone().clone(), s)?;
    shy("owning", &sec.clone().owning(), s)?;
    shy("secret", &sec.clone().secret(), s)?;
    let bo = Bytes::from_bytes(s).secret();
    shy("borrowed secret", &bo, s)?;
    shy("clone of borrowed secret", &bo.clone(), s)?;
    let mut mo = bo.clone(); mo.make_owning();
    shy("make_owning", &mo, s)?;
    shy("borrowed secret, owning", &bo.owning(), s)?;
    shy("into_utf8_lossy", &sec.clone().into_utf8_lossy(), String::from_utf8_lossy(s).as_bytes())?;
    shy("to_base64", &sec.to_base64(), ref_b64(s).as_bytes())?;
    let p = sec.to_base64_plus();
    ck!(p.is_secret(), "to_base64_plus is not secret");
    ckeq!(b(&p), b(if s.is_empty() { "+".into() } else { ref_b64(s) }), "to_base64_plus");
    macro_rules! t { ($tf:expr, $w:expr) => {{ let mut y = sec.clone(); y.transform($tf); shy(concat!("transform ", stringify!($tf)), &y, &$w)?; }}; }
    t!(AsciiCasemap::<true>, s.to_ascii_uppercase());
    t!(AsciiCasemap::<false>, s.to_ascii_lowercase());
    t!(IrcCasemap::Ascii, s.to_ascii_lowercase());
    t!(TrimAscii(StringSide::StartFirst), s.trim_ascii());
    t!(TrimAscii(StringSide::End), s.trim_ascii_end());
    t!(FlipHigh(Utf8Policy::Recheck), s.iter().map(|c| c ^ 0x80).collect::<Vec<u8>>());
    // Conversions between the string types.
    macro_rules! ty { ($($X:ident)*) => { $( if valid(T::$X, s) {
        let x = $X::from_bytes(sec.clone()).unwrap();
        ck!(x.is_secret() || s.is_empty(), "{} lost secrecy", stringify!($X));
        shy(concat!(stringify!($X), " into Bytes"), &x.clone().into_bytes(), s)?;
        if s.len() >= 4 { hush_d(stringify!($X), s, &x)?; }
        let o = x.clone().owning(); shy(concat!(stringify!($X), "::owning"), &o.into_bytes(), s)?;
        let o = $X::from_secret(s.0.clone()).unwrap(); ck!(o.is_secret() || s.is_empty(), "from_secret"); shy(concat!(stringify!($X), "::from_secret"), &o.into_bytes(), s)?;
        let o = $X::from_bytes(s.0.clone()).unwrap().secret(); ck!(o.is_secret() || s.is_empty(), "secret()"); shy(concat!(stringify!($X), "::secret"), &o.into_bytes(), s)?;
        let o = $X::try_from(sec.clone()).unwrap(); shy(concat!(stringify!($X), " TryFrom<Bytes>"), &o.into_bytes(), s)?;
    } )* } }
    ty!(NoNul Line Word Arg Key Target Nick User Cmd);
    if valid(T::Nick, s) {
        let n = Nick::from_arg(Arg::from_bytes(sec.clone()).unwrap()).unwrap();
        ck!(n.is_secret(), "Nick::from_arg lost secrecy");
        let a: Arg = n.clone().into(); ck!(a.is_secret(), "Nick into Arg lost secrecy");
        let a: Target = n.into_super(); ck!(a.is_secret(), "into_super lost secrecy");
        let a = Nick::from_super(a).unwrap(); ck!(a.is_secret(), "from_super lost secrecy");
        hush_d("source", s, &Source::new_server(a.clone()))?;
        hush("shared source", s, &SharedSource::new(Source::new_server(a)))?;
    }
    if valid(T::Word, s) && !s.is_empty() && s.iter().all(u8::is_ascii_alphabetic) {
        ck!(Cmd::from_word(Word::from_bytes(sec.clone()).unwrap()).unwrap().is_secret(), "Cmd::from_word lost secrecy");
    }
    // Splitting.
    let mut sp = Splitter::new(sec.clone());
    hush("splitter", s, &sp)?;
    ck!(sp.is_secret(), "splitter");
    let half = s.len() / 2;
    let x: Bytes = sp.save_end().until_count(half).rest().unwrap(); shy("first half", &x, &s[..half])?;
    let x: Bytes = sp.peek_rest().unwrap(); shy("peeked second half", &x, &s[half..])?;
    let x: Bytes = sp.rest_or_default(); shy("second half", &x, &s[half..])?;
    let mut sp = Splitter::new(sec.clone());
    let x: Word = sp.string_or_default(false); shy("first word", &x, prefix(T::Word, s))?;
    let x = Splitter::new(sec.clone()).string::<NoNul>(false).unwrap(); shy("NoNul prefix", &x, prefix(T::NoNul, s))?;
    // Escaping.
    if valid(T::NoNul, s) {
        let n = NoNul::from_bytes(sec.clone()).unwrap();
        shy("escape", &escape(n.clone()), &ref_escape(s))?;
        shy("unescape", &unescape(n.clone()), &ref_unescape(s))?;
        let mut tags = Tags::new();
        tags.edit().insert_pair(Key::from_str("k"), n.clone());
        if s.len() >= 4 { hush_d("tags", s, &tags)?; }
        let mut m = ClientMsg::new_cmd(Cmd::from_str("X"));
        m.tags = tags;
        if valid(T::Line, s) {
            let l = Line::from_bytes(sec.clone()).unwrap();
            m.args.edit().add(l.clone());
            let (_, last) = m.args.split_last();
            ck!(last.unwrap().is_secret() || s.is_empty(), "argument lost secrecy");
            if s.len() >= 4 {
                hush_d("args", s, &m.args)?;
                hush("ctcp", s, &MaybeCtcp::parse(l.clone()))?;
                let a = Args::parse(l); for w in a.words() { ck!(w.is_secret(), "parsed argument lost secrecy"); }
            }
        }
        if s.len() >= 4 { hush_d("client message", s, &m)?; hush_d("owned client message", s, &m.clone().owning())?; }
        let mut line = b"@k=".to_vec(); line.extend_from_slice(&ref_escape(s)); line.extend_from_slice(b" NOTICE x :hello there");
        let l = Line::from_secret(line).unwrap();
        let m = ServerMsg::parse(l).unwrap();
        if let Some(v) = m.tags.get(Key::from_str("k")) { ckeq!(b(v), *s, "tag value"); ck!(v.is_secret() || v.is_empty(), "tag value of a secret line is not secret"); }
        for w in m.args.words() { ck!(w.is_secret(), "argument of a secret line is not secret"); }
        if s.len() >= 4 { hush_d("server message", s, &m)?; }
        if valid(T::Line, s) {
            let mut line = b":a!b@c PRIVMSG #c :".to_vec(); line.extend_from_slice(s);
            let m = ServerMsg::parse(Line::from_secret(line).unwrap()).unwrap();
            ck!(m.args.split_last().1.unwrap().is_secret() || s.is_empty(), "last argument of a secret line is not secret");
            ck!(m.source.as_ref().unwrap().nick.is_secret(), "source of a secret line is not secret");
            if s.len() >= 4 { hush_d("server message", s, &m)?; hush_d("owned server message", s, &m.clone().owning())?; }
        }
    }
    // Chunked base64.
    for ch in vinezombie::string::base64::ChunkEncoder::new(&s.0, 8, true) { ck!(ch.is_secret(), "base64 chunk {:?} is not secret", b(&ch)); }
    ck!(!SecretBuf::from(s.0.clone()).as_bytes().is_empty() == !s.is_empty(), "SecretBuf");
    let sb = SecretBuf::from(s.0.clone());
    ck!(s.is_empty() || sb.as_bytes().is_secret(), "SecretBuf::as_bytes is not secret");
    shy("SecretBuf::as_bytes", &sb.as_bytes(), s)?;
    shy("SecretBuf::into_bytes", &sb.into_bytes(), s)?;
    Ok(s.len() >= 4)
}
/// Owning buffers of secret strings are wiped when the last reference goes away.
fn check_wipe(x: &(B, u8)) -> R {
    let r = check_wipe_(x)?;
    let base = live();
    check_wipe_(x)?;
    ckeq!(live() - base, 0, "blocks never released");
    Ok(r)
}
fn check_wipe_(x: &(B, u8)) -> R {
    let (s, how) = x;
    let src = s.0.clone();
    let keep = Bytes::from_secret(s.0.clone());
    let w = |l: u64, what: &str| -> Result<(), String> { ck!(l == 0, "{what}: {l} freed block(s) still hold secret bytes"); Ok(()) };
    match how {
        0 => { let v = src; let (_, l) = track(|| { let y = Bytes::from_secret(v); let z = y.clone(); drop(y); drop(z); }); w(l, "from_secret, clone, drop")? }
        1 => { let (_, l) = track(|| { let y = Bytes::from_bytes(&src).secret().owning(); drop(y); }); w(l, "borrowed secret, owning, drop")? }
        2 => { let y = Bytes::from_secret(src); let (_, l) = track(|| { let mut sp = Splitter::new(y); let a: Bytes = sp.save_end().until_count(3).rest().unwrap(); let z: Bytes = sp.rest_or_default(); drop(sp); drop(z); drop(a); }); w(l, "splitting")? }
        3 => { let y = Bytes::from_secret(src); let (_, l) = track(|| { let mut y = y; y.transform(AsciiCasemap::<true>); y.transform(TrimAscii::default()); drop(y); }); w(l, "transforms")? }
        4 => { let y = NoNul::from_bytes(keep).unwrap(); let (_, l) = track(|| { let e = escape(y.clone()); let u = unescape(e); drop(y); drop(u); }); w(l, "escape and unescape")? }
        5 => { let sb = SecretBuf::from(src); let (_, l) = track(|| { let x = sb.as_bytes(); drop(x); drop(sb); }); w(l, "SecretBuf::as_bytes")? }
        6 => { let y = keep; let (_, l) = track(|| { let z = y.into_utf8_lossy(); drop(z); }); w(l, "into_utf8_lossy")? }
        7 => { let v = src; let mut n = s.0.clone(); n.push(0); let (_, l) = track(|| { let r = NoNul::from_secret(n); drop(r); let r = NoNul::from_secret(v); drop(r); }); w(l, "NoNul::from_secret, accepted and rejected")? }
        8 => { let y = keep; let (_, l) = track(|| { let mut sp = Splitter::new(y); sp.next_byte(); let z: Bytes = sp.rest_or_default(); drop(sp); z.into_vec() }); w(l, "into_vec of a tail")? }
        _ => { let m = ClientMsg::new_cmd(Cmd::from_str("X")); let y = Line::from_bytes(keep).unwrap(); let (_, l) = track(|| { let mut m = m; m.args.edit().add(y); let n = m.clone().owning(); drop(m); drop(n); }); w(l, "message argument")? }
    }
    Ok(true)
}
pub fn c11(c: &mut Ctx) {
    for how in 0..5 {
        for s in [SHH, "", "hUnTeR", "hUnTeR tWo;\\", "sEcReT\\s\\:x", " sPaCeD ", ":cOlOn", "hÜnTeRé漢", "AAAABBBB", "nIcK-nAmE_1"] { c.run("secret", (b(s), how), check_secret); }
        c.run("secret", (b(b"sEcR\xff\xfeEt\xc3"), how), check_secret);
        c.run("secret", (b(b"sEcR\0eT\r\nx"), how), check_secret);
    }
    let n = c.iters(1_500);
    for _ in 0..n {
        let mut s = c.rng.bytes(b"; \\:sqwXYZ\xc3", |_| true);
        if c.rng.chance(1, 2) { s.splice(0..0, SHH.bytes()); }
        if s.len() < 8 && s.len() > 3 { s.extend_from_slice(SHH.as_bytes()); }
        let how = c.rng.below(5) as u8;
        c.run("random secret", (B(s), how), check_secret);
        let n = c.rng.range(8, 200);
        let s: Vec<u8> = (0..n).map(|_| 0xB1 + c.rng.below(14) as u8).collect();
        let how = c.rng.below(10) as u8;
        c.run("wiping of secret strings", (B(s), how), check_wipe);
        if c.over() || c.failed() { break; }
    }
    let n = c.iters(10_000);
    bytes_programs(c, n);
    c.run("no memory corruption", 0u8, |_| { ck!(corrupt() == 0, "{} heap blocks were written out of bounds", corrupt()); Ok(true) });
}


// ---- histories of one string (C07, C11, C25) ----------------------------------------------------

#[derive(Clone, Debug, Hash)]
enum YOp { Warm, WarmLossy, Clone, Owning, MakeOwning, Secret, Lossy, Upper, Fold, TrimStart, TrimEnd, Head(u8), Tail(u8), TailOwned(u8), IntoVec, Cow, ViaLine, ViaNoNul, Escape, Unescape, Splitter, Take }
/// A string through a history of operations; after each one its bytes, secrecy and UTF-8 answers are those of the model.
fn run_bytes(x: &(B, u8, Vec<YOp>)) -> R {
    let r = run_bytes_(x)?;
    let base = live();
    run_bytes_(x)?;
    ckeq!(live() - base, 0, "blocks never released");
    Ok(r)
}
fn run_bytes_(x: &(B, u8, Vec<YOp>)) -> R {
    let (s, how, ops) = x;
    let mut model = s.0.clone();
    let mut secret = false;
    let mut y: Bytes = match (how, std::str::from_utf8(s)) {
        (0, _) => Bytes::from_bytes(s),
        (1, Ok(u)) => Bytes::from_str(u),
        (2, Ok(u)) => Bytes::from(u.to_owned()),
        (3, _) => { secret = true; Bytes::from_secret(s.0.clone()) }
        (4, _) => { let mut v = Vec::with_capacity(s.len() + 9); v.extend_from_slice(s); Bytes::from(v) }
        (5, _) => { secret = true; Bytes::from_bytes(s).secret() }
        _ => Bytes::from(s.0.clone()),
    };
    for (i, op) in ops.iter().enumerate() {
        match op {
            YOp::Warm => { let _ = y.to_utf8(); }
            YOp::WarmLossy => { let _ = y.to_utf8_lossy(); }
            YOp::Clone => { let z = y.clone(); y = z; }
            YOp::Owning => { y = y.owning(); ck!(model.is_empty() || y.is_owning(), "not owning after owning()"); }
            YOp::MakeOwning => { y.make_owning(); ck!(model.is_empty() || y.is_owning(), "not owning after make_owning()"); }
            YOp::Secret => { y = y.secret(); secret = true; }
            YOp::Lossy => { y = y.into_utf8_lossy(); model = String::from_utf8_lossy(&model).into_owned().into_bytes(); }
            YOp::Upper => { y.transform(AsciiCasemap::<true>); model.make_ascii_uppercase(); }
            YOp::Fold => { y.transform(IrcCasemap::Ascii); model.make_ascii_lowercase(); }
            YOp::TrimStart => { y.transform(TrimAscii(StringSide::Start)); model = model.trim_ascii_start().to_vec(); }
            YOp::TrimEnd => { y.transform(TrimAscii(StringSide::End)); model = model.trim_ascii_end().to_vec(); }
            YOp::Head(k) => { let k = (*k as usize).min(model.len()); y = { let mut sp = Splitter::new(y); sp.until_count(k); sp.rest_or_default() }; model.truncate(k); }
            YOp::Tail(k) => { let k = (*k as usize).min(model.len()); y = { let mut sp = Splitter::new(y); for _ in 0..k { sp.next_byte(); } sp.rest_or_default() }; model.drain(..k); }
            YOp::TailOwned(k) => { let k = (*k as usize).min(model.len()); let z: Bytes = { let mut sp = Splitter::new(y.clone()); for _ in 0..k { sp.next_byte(); } sp.rest_or_default() }; drop(y); y = z.owning(); model.drain(..k); }
            YOp::IntoVec => { let v = y.into_vec(); ckeq!(b(&v), b(&model), "step {i}: into_vec"); y = Bytes::from(v); secret = false; }
            YOp::Cow => { if !secret { let c: Cow<'_, [u8]> = y.into(); ckeq!(b(&c), b(&model), "step {i}: into Cow"); y = Bytes::from(c); } }
            YOp::ViaLine => if valid(T::Line, &model) { let l = Line::from_bytes(y).unwrap(); let l = l.clone(); y = l.into_bytes(); },
            YOp::ViaNoNul => if valid(T::NoNul, &model) { y = NoNul::from_bytes(y).unwrap().into_bytes(); },
            YOp::Escape => if valid(T::NoNul, &model) { y = escape(NoNul::from_bytes(y).unwrap()).into(); model = ref_escape(&model); },
            YOp::Unescape => if valid(T::NoNul, &model) { y = unescape(NoNul::from_bytes(y).unwrap()).into(); model = ref_unescape(&model); },
            YOp::Splitter => { let mut sp = Splitter::new(y); let a: Bytes = sp.save_end().until_count(model.len() / 2).rest().unwrap(); ckeq!(b(a.as_bytes()), b(&model[..model.len() / 2]), "step {i}: first half"); utf8_consistent(&a).map_err(|e| format!("step {i}, first half: {e}"))?; ck!(a.is_empty() || a.is_secret() == secret, "step {i}: first half has secrecy {}", a.is_secret()); y = sp.rest_or_default(); model.drain(..model.len() / 2); }
            YOp::Take => { let z = std::mem::take(&mut y); ck!(y.is_empty(), "step {i}: taken string is not empty"); y = z; }
        }
        ckeq!(b(y.as_bytes()), b(&model), "step {i} ({op:?}): bytes");
        if model.is_empty() { secret = y.is_secret(); }
        ck!(y.is_secret() == secret, "step {i} ({op:?}): secrecy is {}", y.is_secret());
        utf8_consistent(&y).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
        let z = y.clone();
        ck!(z.to_utf8() == std::str::from_utf8(&model).ok(), "step {i} ({op:?}): to_utf8 of {:?} is {:?}", b(&model), z.to_utf8());
        let f = Bytes::from(model.clone());
        ck!(y == f && y.cmp(&f).is_eq() && hash_of(&y) == hash_of(&f), "step {i} ({op:?}): not equal to a fresh string of the same bytes");
        if secret && model.len() >= 6 && i + 1 == ops.len() { hush_d("a secret string", &model, &y)?; }
    }
    Ok(!s.is_empty() && !ops.is_empty())
}
fn hash_of<X: std::hash::Hash>(x: &X) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn bytes_programs(c: &mut Ctx, n: u64) {
    use YOp::*;
    let all = [Warm, WarmLossy, Clone, Owning, MakeOwning, Secret, Lossy, Upper, Fold, TrimStart, TrimEnd, Head(3), Tail(1), TailOwned(2), IntoVec, Cow, ViaLine, Escape, Unescape, Splitter, Take];
    for s in [&b" h\xc3\xa9"[..], b"p\xffw", b"a\xc3", b"abc"] {
        for how in 0..6u8 { for a in &all { for d in &all { for e in [Owning, Clone, Warm, TailOwned(1), Lossy] { c.run("history of a string, exhaustive", (b(s), how, vec![a.clone(), d.clone(), e]), run_bytes); } } } if c.failed() { return; } }
    }
    for _ in 0..n {
        let r = &mut c.rng;
        let s = r.bytes(b"aZ \xc3\xa9\xe6\xbc\xa2\xff\\;s\0", |_| true);
        let how = r.below(7) as u8;
        let k = r.range(1, 9);
        let ops: Vec<YOp> = (0..k).map(|_| match r.below(24) { 0 => Head(r.below(9) as u8), 1 => Tail(r.below(5) as u8), 2 => TailOwned(r.below(5) as u8), 3 => ViaNoNul, i => all[i % all.len()].clone() }).collect();
        c.run("random history of a string", (B(s), how, ops), run_bytes);
        if c.over() || c.failed() { break; }
    }
}

// ---- C12 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash)]
enum QOp { Push(u8, u16), Cstr(B), Slice(B), Read(u16, Vec<u16>, bool), Reserve(u16), Clear, AsBytes, Clone, IntoBack, Take, New(u16), FromVec(B, u16), FromIter(B) }
struct Drip<'a>(&'a [u8], &'a [u16], usize, bool, usize);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.1.is_empty() { buf.len() } else { self.1[self.2 % self.1.len()] as usize };
        self.2 += 1;
        if self.3 && self.2 > 2 { return Err(std::io::ErrorKind::Other.into()); }
        let n = n.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.4 += n;
        Ok(n)
    }
}
fn run_secretbuf(ops: &Vec<QOp>) -> R {
    let before = corrupt();
    let supply: Vec<u8> = (0..4000).map(|i| 0xB1 + (i * 7 % 14) as u8).collect();
    let mut model: Vec<u8> = vec![];
    let mut leaks = 0;
    let mut sb = SecretBuf::with_capacity(0);
    for op in ops {
        let (r, l) = track(|| -> Result<(), String> {
            match op {
                QOp::Push(c, e) => sb.push(*c, *e as usize),
                QOp::Cstr(s) => sb.push_cstr(s),
                QOp::Slice(s) => sb.push_slice(s),
                QOp::Reserve(n) => sb.reserve(*n as usize),
                QOp::Clear => sb.clear(),
                QOp::AsBytes => drop(sb.as_bytes()),
                QOp::Clone => { let x = sb.clone(); drop(std::mem::replace(&mut sb, x)); }
                QOp::Take => drop(std::mem::take(&mut sb)),
                QOp::New(n) => drop(std::mem::replace(&mut sb, SecretBuf::with_capacity(*n as usize))),
                _ => (),
            }
            Ok(())
        });
        r?;
        leaks += l;
        match op {
            QOp::Push(c, _) => model.push(*c),
            QOp::Cstr(s) => { model.extend_from_slice(s); model.push(0); }
            QOp::Slice(s) => model.extend_from_slice(s),
            QOp::Clear | QOp::Take | QOp::New(_) => model.clear(),
            QOp::Read(n, sizes, fail) => {
                let mut d = Drip(&supply, sizes, 0, *fail, 0);
                let (r, l) = track(|| sb.read_from(*n as usize, &mut d));
                leaks += l;
                match r {
                    Ok(k) => {
                        ck!(k <= *n as usize, "read {k} bytes when asked for {n}");
                        ck!(d.4 == k, "took {} bytes from the reader but reports {k}", d.4);
                        ck!(k == *n as usize || sizes.contains(&0) || k == supply.len(), "stopped after {k} of {n} bytes");
                        model.extend_from_slice(&supply[..k]);
                    }
                    Err(_) => ck!(*fail, "read_from failed"),
                }
            }
            QOp::IntoBack => {
                let y = std::mem::take(&mut sb).into_bytes();
                ck!(y.is_secret() || model.is_empty(), "into_bytes is not secret");
                ckeq!(b(y.as_bytes()), b(&model), "into_bytes");
                sb = SecretBuf::from(y.into_vec());
            }
            QOp::FromVec(s, extra) => { let mut v = Vec::with_capacity(s.len() + *extra as usize); v.extend_from_slice(s); let (_, l) = track(|| drop(std::mem::replace(&mut sb, SecretBuf::from(v)))); leaks += l; model = s.0.clone(); }
            QOp::FromIter(s) => { let (_, l) = track(|| drop(std::mem::replace(&mut sb, s.iter().copied().filter(|c| *c != 0xB2).collect()))); leaks += l; model = s.iter().copied().filter(|c| *c != 0xB2).collect(); }
            _ => (),
        }
        ckeq!(b(sb.as_ref()), b(&model), "contents after {op:?}");
        ck!(sb.is_empty() == model.is_empty(), "is_empty after {op:?}");
        if !model.is_empty() { let y = sb.as_bytes(); ck!(y.is_secret(), "as_bytes is not secret"); ckeq!(b(y.as_bytes()), b(&model), "as_bytes after {op:?}"); }
    }
    let (_, l) = track(|| drop(sb));
    leaks += l;
    ck!(leaks == 0, "{leaks} freed block(s) still held secret bytes");
    ck!(corrupt() == before, "heap block written out of bounds");
    Ok(!ops.is_empty())
}
pub fn c12(c: &mut Ctx) {
    let sec = |r: &mut Rng| { let n = r.len(); B((0..n).map(|_| 0xB1 + r.below(14) as u8).collect()) };
    let base = [QOp::Push(0xB3, 0), QOp::Cstr(b(b"\xb1\xb2\xb3\xb4")), QOp::Slice(b(b"\xb5\xb6\xb7\xb8\xb9")), QOp::Slice(b("")), QOp::Read(5, vec![2], false), QOp::Read(6, vec![], false), QOp::Read(4, vec![1, 0], false), QOp::Reserve(1), QOp::Reserve(9), QOp::IntoBack, QOp::Clear];
    let idx: Vec<u8> = (0..base.len() as u8).collect();
    exhaustive(&idx, 4, |p| { let prog: Vec<QOp> = p.iter().map(|i| base[*i as usize].clone()).collect(); c.run("program, exhaustive", prog, run_secretbuf); !c.failed() });
    for n in 0..70u16 { for m in 0..12u16 {
        c.run("sizes", vec![QOp::New(n), QOp::Read(m, vec![], false), QOp::Read(n, vec![3], false), QOp::Push(0xB9, m), QOp::Push(0xB9, 0), QOp::Cstr(B(vec![0xB5; n as usize])), QOp::Slice(B(vec![0xB6; m as usize]))], run_secretbuf);
        c.run("sizes, from vec", vec![QOp::FromVec(B(vec![0xB4; n as usize]), m), QOp::Push(0xB1, 0), QOp::Slice(B(vec![0xB6; m as usize])), QOp::Reserve(n)], run_secretbuf);
    } }
    for _ in 0..c.iters(30_000) {
        let r = &mut c.rng;
        let n = r.range(1, 14);
        let prog: Vec<QOp> = (0..n).map(|_| match r.below(16) {
            0..=2 => QOp::Push(0xB1 + r.below(14) as u8, r.below(20) as u16), 3..=4 => QOp::Cstr(sec(r)), 5..=6 => QOp::Slice(sec(r)),
            7..=8 => { let k = r.below(4); let w = [9, 9, 80, 300][r.below(4)]; let m = [200, 900][r.below(2)]; QOp::Read(r.below(m) as u16, (0..k).map(|_| r.below(w) as u16).collect(), r.chance(1, 8)) }
            9 => QOp::Reserve(r.below(300) as u16), 10 => if r.chance(1, 3) { QOp::Clear } else { QOp::AsBytes }, 11 => QOp::Clone, 12 => QOp::IntoBack,
            13 => if r.chance(1, 2) { QOp::Take } else { QOp::New(r.below(40) as u16) }, 14 => QOp::FromVec(sec(r), r.below(30) as u16), _ => QOp::FromIter(sec(r)),
        }).collect();
        c.run("random program", prog, run_secretbuf);
        if c.over() || c.failed() { break; }
    }
}

// ---- C13 --------------------------------------------------------------------------------------

pub fn ref_b64(s: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for ch in s.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() { o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') }
        }
    }
    o
}
fn ref_unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let v = |c: u8| match c { b'A'..=b'Z' => Some(c - 65), b'a'..=b'z' => Some(c - 71), b'0'..=b'9' => Some(c + 4), b'+' => Some(62), b'/' => Some(63), _ => None };
    let mut o = vec![];
    for (k, q) in s.chunks(4).enumerate() {
        let pad = q.iter().rev().take_while(|c| **c == b'=').count();
        if pad > 2 || (pad > 0 && (k + 1) * 4 != s.len()) { return None; }
        let mut n = 0u32;
        for c in &q[..4 - pad] { n = n << 6 | v(*c)? as u32; }
        n <<= 6 * pad as u32;
        let by = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        o.extend_from_slice(&by[..3 - pad]);
    }
    (ref_b64(&o).as_bytes() == s).then_some(o)
}
fn check_chunks(x: &(B, u32, bool)) -> R {
    use vinezombie::string::base64::*;
    let (s, max, sec) = x;
    let max = *max as usize;
    let enc = ref_b64(s);
    let mut e = ChunkEncoder::new(&s.0, max, *sec);
    ck!(e.is_empty() == (max == 0), "is_empty of a new encoder");
    let mut want: Vec<B> = if max == 0 { vec![] } else { enc.as_bytes().chunks(max).map(b).collect() };
    if max > 0 && enc.len() % max == 0 { want.push(b("+")); }
    let mut got = vec![];
    loop {
        ck!(e.len() == want.len() - got.len(), "len() is {} with {} chunks left", e.len(), want.len() - got.len());
        ck!(e.size_hint() == (want.len() - got.len(), Some(want.len() - got.len())), "size_hint {:?}", e.size_hint());
        let Some(ch) = e.next() else { break };
        ck!(valid(T::Arg, &ch), "chunk {:?} is not a word", b(&ch));
        ck!(ch.is_secret() == *sec, "chunk secrecy {}", ch.is_secret());
        utf8_consistent(&ch)?;
        ck!(ch.len() <= max, "chunk longer than {max}");
        got.push(b(&ch));
        ck!(got.len() <= want.len(), "too many chunks: {got:?}");
    }
    ckeq!(got, want, "chunks");
    ck!(e.next().is_none() && e.is_empty(), "not fused");
    if max > 0 && max % 4 == 0 {
        let mut d = ChunkDecoder::new(max);
        for round in 0..2 {
            for (i, ch) in want.iter().enumerate() {
                let r = d.add(&ch.0);
                if i + 1 < want.len() { ck!(r.is_none(), "decoder finished early on chunk {i} (round {round})"); }
                else { match r { Some(Ok(y)) => ckeq!(b(y.as_bytes()), *s, "decoded payload (round {round})"), _ => return Err(format!("decoder did not yield the payload on the last chunk (round {round})")) } }
            }
        }
    }
    let mut d = ChunkDecoder::new(usize::MAX);
    match d.add(&enc) { Some(Ok(y)) => ckeq!(b(y.as_bytes()), *s, "decoded in one piece"), _ => return Err("one-piece decode failed".into()) }
    let by = Bytes::from_bytes(s);
    ckeq!(b(&by.to_base64()), b(&enc), "to_base64");
    ckeq!(b(&by.to_base64_plus()), b(if s.is_empty() { "+" } else { &enc }), "to_base64_plus");
    Ok(!s.is_empty() && max > 0)
}
fn check_decode(x: &(B, u32)) -> R {
    use vinezombie::string::base64::*;
    let (s, max) = x;
    let mut d = ChunkDecoder::new(*max as usize);
    let mut acc = vec![];
    let mut nt = false;
    for ch in s.split(|c| *c == b'|') {
        let r = d.add(ch);
        let last = ch.len() < *max as usize;
        if !(last && ch == b"+") { acc.extend_from_slice(ch); }
        if last {
            let want = ref_unb64(&acc);
            match (r, want) {
                (Some(Ok(y)), Some(w)) => { ckeq!(b(y.as_bytes()), b(&w), "decoded {:?}", b(&acc)); nt = true; }
                (Some(Err(_)), None) => nt = true,
                (Some(Ok(y)), None) => return Err(format!("invalid base64 {:?} decoded as {:?}", b(&acc), b(y.as_bytes()))),
                (Some(Err(e)), Some(_)) => return Err(format!("valid base64 {:?} rejected: {e}", b(&acc))),
                (None, _) => return Err(format!("short chunk {:?} did not end the payload", b(ch))),
            }
            acc.clear();
        } else {
            ck!(r.is_none(), "full chunk {:?} ended the payload", b(ch));
        }
    }
    let r = d.decode();
    match (r, ref_unb64(&acc)) { (Ok(y), Some(w)) => ckeq!(b(y.as_bytes()), b(&w), "decode()"), (Err(_), None) => (), (r, w) => return Err(format!("decode() of {:?} is {r:?}, expected {w:?}", b(&acc))) }
    match d.decode() { Ok(y) => ck!(y.is_empty(), "decoder kept data after decode()"), Err(_) => return Err("empty decode failed".into()) }
    Ok(nt)
}
pub fn c13(c: &mut Ctx) {
    for n in 0..90usize { for max in 0..45u32 {
        let s = B((0..n).map(|i| (i * 37 + max as usize) as u8).collect());
        for sec in [false, true] { c.run("payload length by chunk size, exhaustive", (s.clone(), max, sec), check_chunks); }
    } }
    for n in (280..320).chain(580..620).chain(890..910) { let s = B((0..n).map(|i| (i * 37) as u8).collect()); c.run("around 400-byte chunks", (s, 400, true), check_chunks); }
    exhaustive(b"A+/=w|", 5, |s| { for m in [2, 3, 4, 100] { c.run("decoding, exhaustive", (b(s), m), check_decode); } !c.failed() });
    for _ in 0..c.iters(20_000) {
        let s = B(c.rng.bytes(b"\0\xffa", |_| true));
        let max = *c.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 12, 16, 64, 100, 399, 400, 401]);
        c.run("random payload", (s, max, true), check_chunks);
        let n = c.rng.below(30);
        let mut t: Vec<u8> = ref_b64(&(0..n).map(|_| c.rng.next() as u8).collect::<Vec<_>>()).into_bytes();
        for _ in 0..c.rng.below(3) { let p = c.rng.below(t.len() + 1); match c.rng.below(3) { 0 => t.insert(p, *c.rng.pick(b"=+|A.-_ \0\xff")), 1 => { if p < t.len() { t.remove(p); } } _ => { if p < t.len() { t[p] = *c.rng.pick(b"=+/|zB.") } } } }
        let m = *c.rng.pick(&[1, 4, 8, 20, 1000]);
        c.run("random decoding", (B(t), m), check_decode);
        if c.over() || c.failed() { break; }
    }
}

// ---- C14 --------------------------------------------------------------------------------------

fn doc_is_error(n: u16) -> Option<bool> {
    match n {
        0..=399 => Some(false),
        400..=568 => Some(true),
        670 | 671 | 704..=706 | 740 | 741 | 900 | 901 | 903 | 908 => Some(false),
        691 | 696 | 723 | 902 | 904..=907 => Some(true),
        _ => None,
    }
}
pub fn c14(c: &mut Ctx) {
    for n in 0..=u16::MAX {
        c.run("every u16", n, |n| {
            let n = *n;
            let r = Numeric::from_int(n);
            ck!(r.is_some() == (n < 1000), "from_int({n}) is {r:?}");
            ck!(Numeric::try_from(n).is_ok() == (n < 1000), "try_from({n})");
            let j = n.to_string();
            ck!(serde_json::from_str::<Numeric>(&j).is_ok() == (n < 1000), "deserialized {n}");
            let Some(x) = r else { return Ok(false) };
            let text = format!("{n:03}");
            ckeq!(Numeric::try_from(n).unwrap(), x, "try_from");
            ck!(x.into_int() == n && u16::from(x) == n, "into_int of {n} is {}", x.into_int());
            ckeq!(x.as_str(), text, "as_str");
            ckeq!(x.as_bytes().as_slice(), text.as_bytes(), "as_bytes");
            ckeq!(x.to_string(), text, "Display");
            let mut o = vec![]; x.write_to(&mut o).unwrap(); ckeq!(o, text.as_bytes().to_vec(), "write_to");
            ckeq!(Numeric::from_bytes(text.as_bytes()), Some(x), "from_bytes");
            ckeq!(serde_json::to_string(&x).unwrap(), n.to_string(), "serialized");
            ckeq!(serde_json::from_str::<Numeric>(&j).unwrap(), x, "serialize/deserialize");
            ckeq!(x.is_error(), doc_is_error(n), "is_error({n})");
            ck!(h64(&x) == h64(&text.as_bytes()), "hash differs from that of its digits");
            let k: ServerMsgKindRaw = x.into();
            ckeq!(k.is_error(), doc_is_error(n), "kind is_error({n})");
            ck!(k == x && k == *text && k.len() == 3, "kind comparisons");
            let kj = serde_json::to_string(&k).unwrap();
            ckeq!(serde_json::from_str::<ServerMsgKindRaw>(&kj).unwrap(), k, "kind serialize/deserialize");
            Ok(true)
        });
    }
    c.run("ordering of all pairs", 1000u16, |_| {
        let all: Vec<Numeric> = (0..1000).map(|n| Numeric::from_int(n).unwrap()).collect();
        for (i, x) in all.iter().enumerate() { for (j, y) in all.iter().enumerate() { ck!(x.cmp(y) == i.cmp(&j) && (x == y) == (i == j), "ordering of {i} and {j}"); } }
        Ok(true)
    });
    for h in 0..=255u8 {
        c.run("every three-byte string", h, |h| {
            for t in 0..=255u8 { for o in 0..=255u8 {
                let s = [*h, t, o];
                let r = Numeric::from_bytes(&s);
                ck!(r.is_some() == s.iter().all(u8::is_ascii_digit), "from_bytes({:?}) is {r:?}", b(s));
                if let Some(x) = r { ck!(x.as_bytes() == &s && x.into_int() == (h - 48) as u16 * 100 + (t - 48) as u16 * 10 + (o - 48) as u16, "from_bytes({:?})", b(s)); }
            } }
            Ok(true)
        });
    }
    for s in ["", "0", "00", "0000", "001 ", " 001", "-01", "+01", "1000", "99", "12a"] { c.run("other strings", b(s), |s| { ck!(Numeric::from_bytes(s).is_none(), "accepted"); Ok(true) }); }
    for j in ["-1", "1000", "65536", "1.5", "\"001\"", "null", "[1]"] { c.run("other JSON", j.to_string(), |j| { ck!(serde_json::from_str::<Numeric>(j).is_err(), "deserialized {j}"); Ok(true) }); }
}

// ---- C16 --------------------------------------------------------------------------------------

fn ref_map(k: u8, c: u8) -> u8 {
    match k {
        0 => if c.is_ascii_uppercase() { c + 32 } else { c },
        1 => match c { b'[' => b'{', b'\\' => b'|', b']' => b'}', _ => ref_map(0, c) },
        2 => if c == b'~' { b'^' } else { ref_map(1, c) },
        3 => if c.is_ascii_lowercase() { c - 32 } else { c },
        _ => ref_map(0, c),
    }
}
fn check_casemap(x: &(B, u8)) -> R {
    let (s, how) = x;
    let mk = || -> Bytes<'_> { match (how % 5, std::str::from_utf8(s)) { (0, _) => Bytes::from_bytes(s), (1, Ok(u)) => Bytes::from_str(u), (2, _) => Bytes::from(s.0.clone()), (3, _) => { let x = Bytes::from(s.0.clone()); x.to_utf8(); x } _ => Bytes::from(s.0.clone()).secret() } };
    for k in 0..5u8 {
        let app = |y: &mut Bytes| match k { 0 => y.transform(IrcCasemap::Ascii), 1 => y.transform(IrcCasemap::Rfc1459Strict), 2 => y.transform(IrcCasemap::Rfc1459), 3 => y.transform(AsciiCasemap::<true>), _ => y.transform(AsciiCasemap::<false>) };
        let mut y = mk();
        app(&mut y);
        let want = B(s.iter().map(|c| ref_map(k, *c)).collect());
        ckeq!(b(y.as_bytes()), want, "casemap {k}");
        utf8_consistent(&y)?;
        let mut z = y.clone();
        app(&mut z);
        ckeq!(b(z.as_bytes()), want, "casemap {k} applied twice");
        for t in TYPES { if k != 3 && t == T::Cmd { continue; } if valid(t, s) { ck!(valid(t, &y), "casemap {k} turned the valid {t:?} {s:?} into {:?}", b(y.as_bytes())); } }
        if valid(T::Nick, s) && k < 3 {
            let mut n = Nick::from_bytes(mk()).unwrap();
            match k { 0 => n.transform(IrcCasemap::Ascii), 1 => n.transform(IrcCasemap::Rfc1459Strict), _ => n.transform(IrcCasemap::Rfc1459) };
            ckeq!(b(&n), want, "casemap {k} of a Nick");
        }
    }
    for (n, w) in [("ascii", Some(IrcCasemap::Ascii)), ("rfc1459", Some(IrcCasemap::Rfc1459)), ("rfc1459-strict", Some(IrcCasemap::Rfc1459Strict)), ("rfc7613", None), ("", None)] { ckeq!(IrcCasemap::from_name(n.as_bytes()), w, "from_name({n})"); }
    Ok(!s.is_empty())
}
pub fn c16(c: &mut Ctx) {
    for x in 0..=255u8 { for how in 0..5 {
        for s in [vec![x], vec![x, b'A'], vec![b'A', x], vec![b'a', x], vec![x, b'a'], vec![b'[', x, b'~'], vec![0xc3, 0xa9, x], vec![x, x, x, b'Z']] { c.run("byte sweep", (B(s), how), check_casemap); }
    } let s: Vec<u8> = (0..300).map(|i| if i == 299 { x } else { b'a' }).collect(); c.run("byte sweep, long", (B(s), 0), check_casemap); }
    exhaustive(b"aZ[\\]^~\xc3", 4, |s| { c.run("string, exhaustive", (b(s), 0), check_casemap); !c.failed() });
    for _ in 0..c.iters(30_000) {
        let s = c.rng.bytes(b"[]\\~^{|}AZaz@`\x80\xff", |_| true);
        let how = c.rng.below(5) as u8;
        c.run("random string", (B(s), how), check_casemap);
        if c.over() || c.failed() { break; }
    }
}

// ---- C25 --------------------------------------------------------------------------------------

fn same(what: &str, x: &Bytes, s: &[u8]) -> Result<(), String> {
    ckeq!(b(x.as_bytes()), b(s), "{what}");
    let r = Bytes::from_bytes(s);
    ck!(*x == r && r == *x && *x == *s, "{what}: not == to the original");
    ck!(x.cmp(&r) == std::cmp::Ordering::Equal && x.partial_cmp(&r) == Some(std::cmp::Ordering::Equal), "{what}: not ordered equal");
    ck!(h64(x) == h64(&s), "{what}: hash differs from that of the bytes");
    utf8_consistent(x)?;
    Ok(())
}
fn check_owning(x: &(B, usize, usize, u8)) -> R {
    let (s, i, j, how) = x;
    let before = corrupt();
    let t = &s[*i..*j];
    // A buffer that goes away; whatever is derived from it must survive.
    let derived: Vec<(&str, Bytes<'static>)> = {
        let tmp = s.0.clone();
        let slice = &tmp[*i..*j];
        let base: Bytes = match how % 4 {
            0 => Bytes::from_bytes(slice),
            1 => match std::str::from_utf8(slice) { Ok(u) => Bytes::from_str(u), Err(_) => Bytes::from_bytes(slice) },
            2 => { let o = Bytes::from(tmp.clone()); let mut sp = Splitter::new(o); sp.until_count(*j); for _ in 0..*i { sp.next_byte(); } sp.rest().unwrap() }
            _ => { let mut o = Bytes::from_secret(tmp.clone()); let mut sp = Splitter::new(o.clone()); sp.until_count(*j); sp.until_byte(|_| false); for _ in 0..*i { sp.next_byte(); } o = sp.rest().unwrap(); o }
        };
        same("as made", &base, t)?;
        let mut v = vec![];
        v.push(("owning", base.clone().owning()));
        v.push(("owning twice", base.clone().owning().owning()));
        v.push(("clone of owning", base.clone().owning().clone()));
        let mut m = base.clone(); m.make_owning(); ck!(m.is_owning() || m.is_empty(), "make_owning did not own"); v.push(("make_owning", m.owning()));
        v.push(("secret owning", base.clone().secret().owning()));
        v.push(("from into_vec", Bytes::from(base.clone().into_vec())));
        v.push(("from Vec::from", Bytes::from(Vec::<u8>::from(base.clone()))));
        let cow: Cow<[u8]> = base.clone().into(); ckeq!(b(&cow), b(t), "Cow"); v.push(("from Cow", Bytes::from(cow.into_owned())));
        // Sole ownership: into_vec may reuse the buffer.
        let o = base.clone().owning(); v.push(("into_vec of owning", Bytes::from(o.into_vec())));
        let o = base.owning(); let k = o.clone(); let a = o.into_vec(); ckeq!(b(k.as_bytes()), b(t), "clone after into_vec of the original"); let z = k.into_vec(); ckeq!(b(&a), b(t), "into_vec shared"); ckeq!(b(&z), b(t), "into_vec last");
        v
    };
    for (w, x) in &derived { same(w, x, t)?; ck!(x.is_owning() || x.is_empty(), "{w} is not owning"); }
    // Pieces sharing one buffer, dropped in different orders.
    let whole = Bytes::from(s.0.clone());
    let mut parts = vec![];
    let mut sp = Splitter::new(whole.clone());
    for n in [*i, *j - *i, s.len()] { let p: Bytes = sp.save_end().until_count(n).rest().unwrap(); parts.push(p); }
    drop(sp);
    if how % 2 == 0 { drop(whole); } else { ckeq!(b(whole.into_vec()), *s, "whole into_vec"); }
    let w = [&s[..*i], &s[*i..*j], &s[*j..]];
    for k in 0..3 { same("piece of a shared buffer", &parts[k], w[k])?; }
    let p2 = parts.pop().unwrap(); let p1 = parts.pop().unwrap(); let p0 = parts.pop().unwrap();
    drop(p0);
    let v2 = p2.into_vec(); ckeq!(b(&v2), b(w[2]), "piece into_vec");
    same("remaining piece", &p1, w[1])?;
    ckeq!(b(p1.into_vec()), b(w[1]), "last piece into_vec");
    ck!(corrupt() == before, "heap block written out of bounds");
    Ok(!t.is_empty())
}
fn cmp_pair(x: &(B, B)) -> R {
    let (s, t) = x;
    let forms = |v: &B| vec![Bytes::from(v.0.clone()), Bytes::from(v.0.clone()).secret(), Bytes::from_bytes(v).owning()];
    for a in forms(s) { for z in forms(t) {
        ck!((a == z) == (s == t), "==");
        ck!(a.cmp(&z) == s.0.cmp(&t.0), "cmp is {:?}", a.cmp(&z));
        ck!((h64(&a) == h64(&z)) == (h64(&s[..].as_ref()) == h64(&t[..].as_ref())), "hash");
    } }
    ck!(Bytes::from_bytes(s) == t[..] || s != t, "== slice");
    Ok(s != t)
}
fn owning_msg(m: &crate::msg::M) -> R {
    let want = view_m(m, true);
    let keys: Vec<B> = want.tags.keys().cloned().collect();
    let (own, cl, h0) = {
        let mut line = vec![];
        ServerCodec::write_to(&mk_server(m), &mut line).unwrap();
        let l = Line::from_bytes(Bytes::from_bytes(&line)).unwrap();
        let p = ServerMsg::parse(l).unwrap();
        (p.clone().owning(), p.clone().owning().clone(), h64(&p))
    };
    for x in [&own, &cl] { ckeq!(view_server(x, keys.iter().cloned())?, want, "owning message"); ck!(h64(x) == h0, "hash changed"); }
    ck!(own == cl && own == mk_server(m), "not ==");
    if let Some(s) = &m.src {
        let o = mk_src(s);
        let sh = SharedSource::new(o.clone());
        let keep = sh.clone();
        for (n, y) in [("owning", o.clone().owning()), ("owning_merged", o.clone().owning_merged()), ("shared owning", sh.clone().owning()), ("shared owning_merged", keep.clone().owning_merged()), ("sole shared owning", SharedSource::new(o.clone()).owning()), ("sole shared owning_merged", SharedSource::new(o.clone()).owning_merged()), ("from own", own.source.as_ref().unwrap().clone().owning_merged())] {
            ckeq!(view_src(&y), *s, "source {n}");
            ck!(y == o && h64(&y) == h64(&o) && y.cmp(&o) == std::cmp::Ordering::Equal, "source {n} differs");
            utf8_consistent(&y.nick)?;
            if let Some(uh) = &y.userhost { utf8_consistent(&uh.host)?; if let Some(u) = &uh.user { utf8_consistent(u)?; } let q = uh.clone().owning(); ck!(q == *uh, "userhost owning"); }
        }
    }
    let t = mk_tags(&m.tags); let o: Tags<'static> = t.clone().owning(); ck!(o == t && h64(&o) == h64(&t), "tags owning");
    let a = mk_args(&m.words, &m.last); let o = a.clone().owning(); ck!(o == a && h64(&o) == h64(&a) && view_args(&o) == view_args(&a), "args owning");
    if let crate::msg::Kind::Cmd(_) = m.kind { let c = mk_client(m); let o = c.clone().owning(); ck!(o == c && h64(&o) == h64(&c), "client message owning"); }
    let k = own.kind.clone().owning(); ck!(k == own.kind && h64(&k) == h64(&k.as_str().as_bytes()), "kind owning");
    Ok(true)
}
/// Equality, order and hash of sources, tags, kinds, arguments and messages are those of their contents.
fn cmp_msgs(x: &(crate::msg::M, crate::msg::M)) -> R {
    let (m, n) = x;
    let (vm, vn) = (view_m(m, true), view_m(n, true));
    let (p, q) = (mk_server(m), mk_server(n));
    ck!((p == q) == (vm == vn) && (vm != vn || h64(&p) == h64(&q)), "messages: == is {}", p == q);
    if let (Some(s), Some(t)) = (&p.source, &q.source) {
        let (a, z): (&Source, &Source) = (s, t);
        ck!((s == t) == (vm.src == vn.src) && (a == z) == (vm.src == vn.src), "sources: ==");
        ck!(a.cmp(z) == vm.src.cmp(&vn.src) && a.partial_cmp(z) == Some(a.cmp(z)), "sources: cmp is {:?}", a.cmp(z));
        ck!(vm.src != vn.src || h64(s) == h64(t), "sources: hash");
    }
    let (a, z) = (&p.tags, &q.tags);
    ck!((a == z) == (vm.tags == vn.tags), "tags: ==");
    ck!(a.cmp(z) == vm.tags.iter().cmp(vn.tags.iter()) && a.partial_cmp(z) == Some(a.cmp(z)), "tags: cmp is {:?}", a.cmp(z));
    ck!(vm.tags != vn.tags || h64(a) == h64(z), "tags: hash");
    let (a, z) = (&p.args, &q.args);
    ck!((a == z) == (vm.args == vn.args && vm.long == vn.long) && (a != z || h64(a) == h64(z)), "arguments: ==");
    let (a, z) = (&p.kind, &q.kind);
    ck!((a == z) == (vm.kind == vn.kind) && a.cmp(z) == vm.kind.cmp(&vn.kind) && a.partial_cmp(z) == Some(a.cmp(z)), "kinds: cmp is {:?}", a.cmp(z));
    ck!(*a == vm.kind[..] && *a == &vm.kind[..] && (*a == vn.kind[..]) == (vm.kind == vn.kind), "kinds: == bytes");
    for (k, o) in [(&m.kind, &vm.kind), (&n.kind, &vn.kind)] {
        let r = match k {
            crate::msg::Kind::Num(i) => *a == Numeric::from_int(*i).unwrap(),
            crate::msg::Kind::Cmd(c) => *a == Cmd::from_bytes(c.0.clone()).unwrap(),
        };
        ck!(r == (*o == vm.kind), "kinds: == a command or numeric is {}", r);
    }
    let b: &[u8] = std::borrow::Borrow::borrow(a); ck!(b == &vm.kind[..] && h64(a) == h64(&b), "kinds: lookup by bytes");
    if let (crate::msg::Kind::Cmd(_), crate::msg::Kind::Cmd(_)) = (&m.kind, &n.kind) {
        let (p, q) = (mk_client(m), mk_client(n));
        let eq = view_m(m, false) == view_m(n, false);
        ck!((p == q) == eq && (!eq || h64(&p) == h64(&q)), "client messages: == is {}", p == q);
    }
    Ok(vm != vn)
}
pub fn c25(c: &mut Ctx) {
    let n = c.iters(8_000);
    bytes_programs(c, n);
    for n in 0..7usize { for i in 0..=n { for j in i..=n { for how in 0..4 { c.run("slice positions, exhaustive", (B((0..n).map(|k| b'a' + k as u8).collect()), i, j, how), check_owning); } } } }
    let mut v = vec![]; exhaustive(b"a\xff", 4, |s| { v.push(b(s)); true });
    for s in &v { for t in &v { c.run("comparison, exhaustive", (s.clone(), t.clone()), cmp_pair); } }
    for _ in 0..c.iters(15_000) {
        let s = c.rng.bytes(b" a\xc3\xa9\0", |_| true);
        let j = c.rng.below(s.len() + 1); let i = c.rng.below(j + 1); let how = c.rng.below(4) as u8;
        c.run("random slice", (B(s.clone()), i, j, how), check_owning);
        let t = if c.rng.chance(1, 3) { s.clone() } else { c.rng.bytes(b" a\xc3\xa9\0", |_| true) };
        c.run("random comparison", (B(s), B(t)), cmp_pair);
        let m = { let mut m = gen_msg(&mut c.rng, true); if m.src.is_none() && c.rng.chance(1, 2) { m.src = Some(gen_src(&mut c.rng)); } m };
        c.run("random message", m.clone(), owning_msg);
        // Another message, or one that differs in a single part.
        let o = { let mut o = gen_msg(&mut c.rng, true); if c.rng.chance(2, 3) { let (k, f) = (c.rng.below(6), o.clone()); o = m.clone(); match k {
            0 => { o.tags.pop(); } 1 => o.src = f.src, 2 => o.kind = f.kind, 3 => { o.words.pop(); } 4 => o.last = f.last,
            _ => if let (Some(s), Some(t)) = (&mut o.src, f.src) { s.1 = t.1; } } } o };
        c.run("random pair of messages", (m, o), cmp_msgs);
        if c.over() || c.failed() { break; }
    }
}
