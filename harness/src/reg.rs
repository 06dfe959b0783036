//! C22: connection registration, and C27: tracking the client's own source.
use crate::caps::ref_cap;
use crate::client::*;
use crate::common::*;
use crate::msg::*;
use crate::nicks::{build, invalid, Part, G};
use crate::sasl::{gen_mech, queue, Mech, Out, Sm};
use crate::{ck, ckeq, with_client};
use std::collections::{BTreeMap, BTreeSet};
use vinezombie::client::cap::SubCmd;
use vinezombie::client::register::{common_caps, default_caps, register_as_custom, CapFn};
use vinezombie::client::state::{Account, Caps, ClientSource, ISupport, ServerSource, ServerVersion};
use vinezombie::string::{Key, Line, User};

#[derive(Clone, Debug, Hash)]
pub struct O { pass: Option<B>, user: B, real: B, nicks: G, caps: BTreeSet<B>, common: bool, require: bool, mechs: Vec<Mech>, needs_auth: bool }

fn key(x: &B) -> Key<'static> { Key::from_bytes(x.0.clone()).unwrap() }

#[derive(Debug)]
enum St { Req, Ack(BTreeSet<B>, Vec<Mech>), Sasl(Sm), CapEnd, AwaitWelcome, AwaitEnd }
struct Model {
    o: O,
    parts: Vec<Part>,
    st: St,
    needs_auth: bool,
    nick: B,
    userhost: Option<(Option<B>, B)>,
    account: Option<B>,
    source: Option<Src>,
    caps: BTreeMap<B, (B, bool)>,
    version: Option<B>,
    isupport: BTreeMap<B, B>,
    ends: u32,
}
type Msg = (B, Vec<B>);
fn m(k: &str, a: Vec<B>) -> Msg { (b(k), a) }
fn next(parts: &mut Vec<Part>) -> Option<B> {
    loop {
        match parts.first_mut()? {
            Part::One(n) => { let n = n.clone(); parts.remove(0); return Some(n); }
            Part::List(v, _) | Part::Seq(_, v) => if v.is_empty() { parts.remove(0); } else { return Some(v.remove(0)); },
            Part::Rng(..) => return None,
        }
    }
}
/// Generators drop a part as soon as its last nick is out.
fn trim(parts: &mut Vec<Part>) { parts.retain(|p| !matches!(p, Part::List(v, _) | Part::Seq(_, v) if v.is_empty())); }

enum Ev { More, Ok, Err }
impl Model {
    fn new(o: &O, out: &mut Vec<Msg>) -> Self {
        let (_, mut parts) = build(&o.nicks);
        if let Some(p) = &o.pass { out.push(m("PASS", vec![p.clone()])); }
        out.push(m("CAP", vec![b("LS"), b("302")]));
        out.push(m("USER", vec![o.user.clone(), b("8"), b("*"), o.real.clone()]));
        let nick = next(&mut parts).unwrap();
        trim(&mut parts);
        out.push(m("NICK", vec![nick.clone()]));
        let needs_auth = o.needs_auth && Sm::new(&o.mechs).is_some();
        Model { o: o.clone(), parts, st: St::Req, needs_auth, nick, userhost: None, account: None, source: None, caps: Default::default(), version: None, isupport: Default::default(), ends: 0 }
    }
    fn next_nick(&mut self, out: &mut Vec<Msg>) -> Ev {
        let Some(n) = next(&mut self.parts) else { return Ev::Err };
        trim(&mut self.parts);
        out.push(m("NICK", vec![n.clone()]));
        self.nick = n;
        Ev::More
    }
    fn ack(&mut self, ack: bool, caps: &BTreeMap<B, B>, out: &mut Vec<Msg>) -> Ev {
        let St::Ack(open, mechs) = &mut self.st else { return Ev::More };
        if ack { open.retain(|c| !caps.contains_key(c)); }
        else if open.iter().any(|c| caps.contains_key(c)) { return Ev::Err; }
        if open.is_empty() {
            self.st = match Sm::new(mechs) {
                Some(s) => { let v = ref_parse(&s.start(), false).unwrap(); out.push((v.kind, v.args)); St::Sasl(s) }
                None => St::CapEnd,
            };
        }
        Ev::More
    }
    fn step(&mut self, v: &V, out: &mut Vec<Msg>) -> Ev {
        if self.source.is_none() { self.source = v.src.clone(); }
        if v.kind.0 == b"PING" { out.push(m("PONG", v.args.last().cloned().into_iter().collect())); return Ev::More; }
        let mut in_sasl = false;
        if let St::Sasl(s) = &mut self.st {
            in_sasl = true;
            let mut lines = vec![];
            let o = s.step(v, &mut lines);
            for l in lines { let v = ref_parse(&l, false).unwrap(); out.push((v.kind, v.args)); }
            if !matches!(o, Out::More) { self.st = St::CapEnd; }
        }
        let words = if v.long { &v.args[..v.args.len() - 1] } else { &v.args[..] };
        let but_last = &v.args[..v.args.len().saturating_sub(1)];
        let welcomed = matches!(self.st, St::AwaitEnd);
        let no_login = self.needs_auth && self.account.is_none();
        let kind = std::str::from_utf8(&v.kind).unwrap();
        match kind {
            "001" | "002" | "003" | "004" | "376" | "422" if no_login => return Ev::Err,
            "001" => {
                if let Some(n) = words.first() { if n.0 != b"*" && valid(T::Nick, n) { self.nick = n.clone(); } }
                if v.src.is_some() { self.source = v.src.clone(); }
                self.st = St::AwaitEnd;
            }
            "004" if welcomed => if let Some(x) = words.get(2) { self.version = Some(x.clone()); },
            "005" if welcomed => for w in words.iter().skip(1) {
                let k = w.iter().position(|c| !byte_ok(T::Key, *c)).unwrap_or(w.len());
                let (key, rest) = w.split_at(k);
                if !valid(T::Key, key) { continue; }
                match rest.first() { None => { self.isupport.insert(b(key), b(b"")); } Some(b'=') => { self.isupport.insert(b(key), b(&rest[1..])); } _ => () }
            },
            "004" | "005" | "010" => return Ev::Err,
            "376" | "422" => return if welcomed { Ev::Ok } else { Ev::Err },
            "432" => {
                let n = self.nick.clone();
                invalid(&mut self.parts, &n);
                if let e @ Ev::Err = self.next_nick(out) { return e; }
            }
            "433" | "436" => if let e @ Ev::Err = self.next_nick(out) { return e; },
            "464" | "465" => return Ev::Err,
            "900" | "901" => {
                let mut a = but_last;
                if kind == "901" { self.account = None; } else if let Some((acc, rest)) = a.split_last() { self.account = Some(acc.clone()); a = rest; } else { a = &[]; }
                if let Some(w) = a.last() {
                    let Some((n, uh)) = ref_src(w) else { return Ev::Err };
                    self.nick = n;
                    self.userhost = uh;
                }
            }
            "902" | "904" | "905" | "906" | "907" if in_sasl => (),
            "CAP" => {
                let Some((_, sub, last, caps)) = ref_cap(&v.args) else { return Ev::Err };
                match sub {
                    SubCmd::Ls | SubCmd::New => {
                        for (k, v) in caps { self.caps.entry(k).or_insert((v, false)); }
                        if sub == SubCmd::Ls && last && matches!(self.st, St::Req) {
                            let avail: BTreeSet<B> = self.caps.keys().cloned().collect();
                            let mechs: Vec<Mech> = match self.caps.get(&b("sasl")) {
                                Some((v, _)) => {
                                    let offered: BTreeSet<Vec<u8>> = v.split(|c| *c == b',').map(|x| x.to_ascii_uppercase()).filter(|x| !x.is_empty()).collect();
                                    self.o.mechs.iter().filter(|m| **m != Mech::Denied && offered.contains(&m.name().0)).cloned().collect()
                                }
                                None => vec![],
                            };
                            let common: BTreeSet<B> = if self.o.common { common_caps().iter().map(b).collect() } else { Default::default() };
                            let mut want: BTreeSet<B> = if self.o.require { self.o.caps.clone() } else { self.o.caps.intersection(&avail).cloned().collect() };
                            want.extend(common.intersection(&avail).cloned());
                            if !mechs.is_empty() { want.insert(b("sasl")); } else if self.needs_auth { return Ev::Err; }
                            if !want.is_subset(&avail) { return Ev::Err; }
                            want.remove(&b("sts"));
                            if want.is_empty() { self.st = St::CapEnd; } else {
                                for w in &want { out.push(m("CAP REQ", vec![w.clone()])); }
                                self.st = St::Ack(want, mechs);
                            }
                        }
                    }
                    SubCmd::Ack => {
                        if let e @ Ev::Err = self.ack(true, &caps, out) { return e; }
                        for (k, v) in caps { self.caps.entry(k).or_insert((v, true)).1 = true; }
                    }
                    SubCmd::Nak => if let e @ Ev::Err = self.ack(false, &caps, out) { return e; },
                    SubCmd::Del => {
                        for k in caps.keys() { self.caps.remove(k); }
                        if let e @ Ev::Err = self.ack(false, &caps, out) { return e; }
                    }
                    SubCmd::List => return Ev::Err,
                }
            }
            "FAIL" | "ERROR" => return Ev::Err,
            k => if let Ok(n) = k.parse::<u16>() {
                if matches!(n, 400..=568 | 691 | 696 | 723 | 902 | 904..=907) { return Ev::Err; }
            },
        }
        if matches!(self.st, St::CapEnd) {
            if self.needs_auth && self.account.is_none() { return Ev::Err; }
            out.push(m("CAP", vec![b("END")]));
            self.ends += 1;
            self.st = St::AwaitWelcome;
        }
        Ev::More
    }
}
/// What was sent, with each requested capability on its own.
fn flatten(sent: &[B]) -> Result<Vec<Msg>, String> {
    let mut out = vec![];
    for l in sent {
        let v = ref_parse(l, false).ok_or_else(|| format!("sent {l:?}, which is malformed"))?;
        ck!(v.tags.is_empty(), "sent {l:?}");
        if v.kind.0 == b"CAP" && v.args.first().is_some_and(|a| a.0 == b"REQ") {
            ck!(v.args.len() == 2, "sent {l:?}");
            for c in v.args[1].split(|c| *c == b' ') { out.push(m("CAP REQ", vec![b(c)])); }
        } else {
            out.push((v.kind, v.args));
        }
    }
    Ok(out)
}

fn run(o: &O, lines: &[B], is_async: bool) -> R {
    let reg = register_as_custom::<O>(
        |o| o.pass.as_ref().map(|p| Line::from_bytes(p.0.clone()).unwrap().secret()),
        |o| User::from_bytes(o.user.0.clone()).unwrap(),
        |o| Line::from_bytes(o.real.0.clone()).unwrap(),
        |o| build(&o.nicks).0,
        |o| -> Box<dyn CapFn> { default_caps(o.caps.iter().map(key).collect(), o.common, o.require) },
        |o| (queue(&o.mechs), o.needs_auth),
    );
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let (id, recv) = with_client!(&mut cl, c, c.add(&reg, o)).unwrap();
    cl.run()?;
    let mut expect = vec![];
    let mut model = Model::new(o, &mut expect);
    ckeq!(flatten(&pipe.sent())?, expect, "initial messages");
    let mut nt = false;
    for l in lines {
        let Some(v) = ref_parse(l, true) else { continue };
        pipe.feed(l);
        let r = cl.run()?;
        let mut expect = vec![];
        let ev = model.step(&v, &mut expect);
        ck!(model.ends <= 1, "model ended negotiation twice");
        nt |= !expect.is_empty();
        ckeq!(flatten(&pipe.sent())?, expect, "sent after {l:?} in state {:?}", model.st);
        let done = !matches!(ev, Ev::More);
        ckeq!(r, done.then(|| (vec![id], vec![id])), "results after {l:?}");
        if !done { continue; }
        let res = recv.0.recv_now().ok_or("nothing reported")?;
        let ok = matches!(ev, Ev::Ok);
        ckeq!(res.is_ok(), ok, "outcome {:?} after {l:?}", res.as_ref().err());
        with_client!(&cl, c, {
            let s = c.state();
            if !ok {
                ck!(s.get::<ClientSource>().is_none() && s.get::<Account>().is_none(), "state was set by a failed registration");
            } else {
                let src = s.get::<ClientSource>().ok_or("no client source")?;
                ckeq!(view_src(src), (model.nick.clone(), model.userhost.clone()), "client source");
                ckeq!(s.get::<Account>().ok_or("no account state")?.as_ref().map(b), model.account, "account");
                ckeq!(s.get::<ServerSource>().map(view_src), model.source, "server source");
                ckeq!(s.get::<ServerVersion>().map(b), model.version, "server version");
                let caps = s.get::<Caps>().ok_or("no capabilities")?;
                let got: BTreeMap<B, bool> = caps.keys().map(|k| (b(k), *caps.get_extra_raw(k).unwrap())).collect();
                ckeq!(got, model.caps.iter().map(|(k, v)| (k.clone(), v.1)).collect(), "capabilities");
                let is = s.get::<ISupport>().ok_or("no isupport")?;
                ckeq!(is.keys().map(b).collect::<BTreeSet<_>>(), model.isupport.keys().cloned().collect(), "isupport tokens");
            }
        });
        return Ok(true);
    }
    Ok(nt)
}

const CAPS: [&str; 10] = ["sasl", "server-time", "sts", "batch", "account-tag", "message-tags", "x", "y", "echo-message", "msgid"];
fn gen_caps(r: &mut Rng, vals: bool) -> Vec<u8> {
    let n = r.below(6);
    let mut v: Vec<String> = (0..n).map(|_| {
        let c = *r.pick(&CAPS);
        if !vals { return c.to_string(); }
        match r.below(6) { 0 => format!("{c}=a"), 1 => format!("{c}=PLAIN,EXTERNAL"), _ => c.to_string() }
    }).collect();
    if vals && r.chance(3, 5) { v.push(format!("sasl{}", r.pick(&["=PLAIN", "=EXTERNAL", "=PLAIN,EXTERNAL", "=plain,external,ECHO", "", "=X-1,ECHO", "=PLAINX"]))); }
    v.join(" ").into_bytes()
}
fn gen_o(r: &mut Rng) -> O {
    let small = |r: &mut Rng| B(gen_small(r, T::Nick));
    let n = r.range(1, 4);
    let list: Vec<B> = (0..n).map(|_| small(r)).collect();
    let nicks = match r.below(5) {
        0 => G::One(small(r)),
        1..=2 => G::Iter(list),
        _ => G::ChainUsing(Box::new(G::Iter(list)), vec![crate::nicks::S::Char('`'), crate::nicks::S::B8]),
    };
    let k = *r.pick(&[0, 0, 1, 2, 4]);
    let j = *r.pick(&[0, 1, 1, 2]);
    O {
        pass: r.chance(1, 4).then(|| B(gen(r, T::Line))),
        user: B(gen_small(r, T::User)),
        real: B(gen(r, T::Line)),
        nicks,
        caps: (0..k).map(|_| b(r.pick(&CAPS))).collect(),
        common: r.chance(1, 3),
        require: r.chance(1, 3),
        mechs: (0..j).map(|_| gen_mech(r)).collect(),
        needs_auth: r.chance(1, 2),
    }
}
fn gen_line(r: &mut Rng) -> B {
    let pick = |r: &mut Rng, x: &[&str]| r.pick(x).as_bytes().to_vec();
    let mut l = match r.below(26) {
        0..=3 => { let c = gen_caps(r, true); [pick(r, &["CAP * LS :", "CAP * LS * :", "CAP * LS :", "CAP * NEW :"]), c].concat() }
        4..=7 => { let c = gen_caps(r, false); [pick(r, &["CAP * ACK :", "CAP n ACK :", "CAP * ACK * :"]), c].concat() }
        8 => { let c = gen_caps(r, false); [pick(r, &["CAP * NAK :", "CAP * DEL :", "CAP * LIST :", "CAP * FOO :", "CAP * LS x :"]), c].concat() }
        9..=11 => crate::sasl::gen_line(r).0,
        12 => pick(r, &["900 n n!u@h acc :in", "900 * a!~u@h acc :in", "900 n acc :in", "900 acc :in", "900 :x", "900", "900 n !bad acc :in", "901 n n!u@h :out", "901 n b :out"]),
        13..=15 => pick(r, &["001 a :Welcome", "001 b x", "001 :Welcome", "001 * :hi", "001 a!b :hi", "001", "001 zz :hi"]),
        16 => pick(r, &["002 a :host", "003 a :time", "004 a srv ver-1 i o", "004 a srv", "004 a srv v :x y"]),
        17 => pick(r, &["005 a NICKLEN=9 CHANTYPES=# :are", "005 a FOO -BAR X=1=2 :are", "005 a ;bad ok :x", "005 a :Try server irc.x, port 6667", "005", "005 :only"]),
        18..=19 => pick(r, &["376 a :End", "422 a :No MOTD", "422"]),
        20..=21 => pick(r, &["433 * a :in use", "432 * a :bad", "436 * a :clash", "432", "433 * b :in use"]),
        22 => pick(r, &["PING x", "PING :a b", "PING", "ping y"]),
        23 => pick(r, &["464 a :bad pass", "465 a :banned", "010 a srv 6667 :go", "ERROR :bye", "FAIL X Y :z", "451 a :not", "902 a :x", "907 a :x", "905 a :x", "723 a :x", "999 a :x", "372 a :- motd", "399 x", "400 x", "568 x", "569 x"]),
        24 => pick(r, &["NOTICE * :*** looking up", "NICK b", ":a!u@h NICK b", "MODE a +i", "375 a :-"]),
        _ => { let mut w = vec![]; mk_server(&gen_msg(r, true)).write_to(&mut w).unwrap(); w }
    };
    if r.chance(1, 4) && l[0] != b':' && l[0] != b'@' { l = [pick(r, &[":srv ", ":irc.example.org ", ":a!b@c "]), l].concat(); }
    B(l)
}
/// A server that behaves, with the occasional surprise.
fn gen_script(r: &mut Rng, o: &O) -> Vec<B> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut all: Vec<String> = o.caps.iter().map(|c| String::from_utf8_lossy(c).to_string()).collect();
    all.push("server-time".into());
    if !o.mechs.is_empty() { all.push("sasl=PLAIN,EXTERNAL,ECHO,X-1".into()); }
    for _ in 0..r.below(3) { v.push(b"433 * x :in use".to_vec()); }
    v.push(format!(":srv CAP * LS :{}", all.join(" ")).into_bytes());
    let names: Vec<String> = all.iter().map(|c| c.split('=').next().unwrap().to_string()).collect();
    if r.chance(1, 2) { for n in &names { v.push(format!("CAP * ACK :{n}").into_bytes()); } } else { v.push(format!("CAP * ACK :{}", names.join(" ")).into_bytes()); }
    if !o.mechs.is_empty() {
        for _ in 0..r.range(1, 2) {
            v.push(b"AUTHENTICATE +".to_vec());
            if r.chance(1, 3) { v.push(b"904 n :no".to_vec()); }
        }
        if r.chance(2, 3) { v.push(b"900 n n!u@h acc :in".to_vec()); }
        if r.chance(2, 3) { v.push(b"903 n :ok".to_vec()); }
    }
    for x in ["001 a :Welcome", "002 a :x", "003 a :x", "004 a srv v-1 i o", "005 a NICKLEN=9 :are", "375 a :-", "376 a :End"] { v.push(format!(":srv {x}").into_bytes()); }
    let mut v: Vec<B> = v.into_iter().map(B).collect();
    for _ in 0..r.below(4) {
        let at = r.below(v.len());
        match r.below(4) { 0 => { v.remove(at); } 1 => { let j = r.below(v.len()); v.swap(at, j); } _ => v.insert(at, gen_line(r)) }
    }
    v
}
pub fn c22(c: &mut Ctx) {
    // Every sequence of a few important replies.
    let base = O { pass: None, user: b("u"), real: b("r"), nicks: G::Iter(vec![b("a"), b("b")]), caps: [b("x")].into(), common: false, require: true, mechs: vec![Mech::External(b(b""))], needs_auth: true };
    let alpha = ["CAP * LS :x sasl=EXTERNAL", "CAP * ACK :x", "CAP * ACK :x sasl", "AUTHENTICATE +", "900 n n!u@h acc :in", "903 n :ok", "904 n :no", "001 z :hi", "376 z :end", "433 * a :used", "901 n n!u@h :out"].map(b);
    for (k, o) in [base.clone(), O { needs_auth: false, require: false, ..base.clone() }, O { mechs: vec![], ..base.clone() }].into_iter().enumerate() {
        let a: Vec<u8> = (0..alpha.len() as u8).collect();
        let depth = if c.thorough { 5 } else { 4 } - (k > 0) as usize;
        exhaustive(&a, depth, |s| {
            let l: Vec<B> = s.iter().map(|i| alpha[*i as usize].clone()).collect();
            c.run("reply-sequences", (o.clone(), l), |(o, l)| run(o, l, false));
            // The same after a completed negotiation and login.
            if s.len() < depth {
                let l: Vec<B> = [0u8, 2, 3, 4, 5].iter().chain(s).map(|i| alpha[*i as usize].clone()).collect();
                c.run("after-login", (o.clone(), l), |(o, l)| run(o, l, false));
            }
            !c.failed() && !c.over()
        });
    }
    for n in (0..1000u16).chain([65535]) {
        if n > 999 { continue; }
        for pre in [vec![], vec![b("001 a :hi")]] {
            let mut l: Vec<B> = pre;
            l.push(b(format!("{n:03} a b :c")));
            l.push(b("376 a :end"));
            c.run("numerics", (O { mechs: vec![], ..base.clone() }, l), |(o, l)| run(o, l, false));
        }
    }
    for i in 0..c.iters(8000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let o = gen_o(r);
        let l: Vec<B> = if i % 2 == 0 { gen_script(r, &o) } else { let k = r.range(1, 14); (0..k).map(|_| gen_line(r)).collect() };
        let a = i % 5 == 4;
        c.run(if i % 2 == 0 { "scripts" } else { "histories" }, (o, l, a), |(o, l, a)| run(o, l, *a));
    }
}

// ---- C27 ------------------------------------------------------------------------------------

fn source_len(s: &Src) -> Option<usize> {
    let (u, h) = s.1.as_ref()?;
    let u = u.as_ref()?;
    Some(s.0.len() + u.len() + (u.first() != Some(&b'~')) as usize + h.len() + 2)
}
fn ref_userhost(w: &[u8]) -> Option<(Option<B>, B)> {
    let at = w.iter().position(|c| *c == b'@').unwrap_or(w.len());
    let (u, h) = (&w[..at], w.get(at + 1..)?);
    (valid(T::User, u) && !h.is_empty()).then(|| (Some(b(u)), b(h)))
}
/// The items of a USERHOST reply: arguments of their own, and the words of the last one.
fn items(args: &[B]) -> Vec<Vec<u8>> {
    let Some((last, words)) = args.split_last() else { return vec![] };
    if words.is_empty() { return vec![]; }
    let mut out: Vec<Vec<u8>> = words[1..].iter().map(|w| w.0.clone()).collect();
    let mut rest = &last.0[..];
    loop {
        while rest.first().is_some_and(|c| c.is_ascii_whitespace()) { rest = &rest[1..]; }
        let k = rest.iter().position(|c| *c == b' ').unwrap_or(rest.len());
        if k == 0 || rest[0] == b':' { return out; }
        out.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
}
fn track(start: &Option<Src>, lines: &[B], late: usize, is_async: bool) -> R {
    use vinezombie::client::handlers::TrackClientSource;
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    // The source becomes known before the handler is added, or only before the message at `late`.
    if late == 0 { if let Some(s) = start { with_client!(&mut cl, c, { c.state_mut().insert::<ClientSource>(mk_src(s)); c.state_mut().update_source_len(); }); } }
    with_client!(&mut cl, c, c.add((), TrackClientSource::new())).unwrap();
    let mut model = if late == 0 { start.clone() } else { None };
    cl.run()?;
    let sent = flatten(&pipe.sent())?;
    ckeq!(sent, model.iter().map(|s| m("USERHOST", vec![s.0.clone()])).collect::<Vec<_>>(), "initial messages");
    let mut nt = false;
    let fresh = vinezombie::client::ClientLogic::new().state().source_len();
    for (at, l) in lines.iter().enumerate() {
        if l.0 == b"\0reset" {
            // A new connection: nothing of the old one's state is left.
            with_client!(&mut cl, c, {
                c.reset();
                ckeq!(c.state().get::<ClientSource>().map(view_src), None, "client source after a reset");
                ckeq!(c.state().source_len(), fresh, "assumed source length after a reset");
                c.add((), TrackClientSource::new()).unwrap();
            });
            cl.run()?;
            pipe.sent();
            model = None;
            continue;
        }
        if late > 0 && at == late { if let Some(s) = start { with_client!(&mut cl, c, { c.state_mut().insert::<ClientSource>(mk_src(s)); c.state_mut().update_source_len(); }); } model = start.clone(); }
        let Some(v) = ref_parse(l, true) else { continue };
        pipe.feed(l);
        cl.run()?;
        ckeq!(pipe.sent(), vec![], "sent after {l:?}");
        let before = model.clone();
        // Messages whose last argument is not a word are not looked at.
        if let (Some(src), true) = (&mut model, !v.long || v.kind.0 == b"302") {
            let own = v.src.as_ref().is_some_and(|s| s.0 == src.0);
            match &v.kind.0[..] {
                b"302" => for item in items(&v.args) {
                    let k = item.iter().position(|c| *c == b'=' || *c == b'*').unwrap_or(item.len());
                    if item[..k] != src.0[..] { continue; }
                    let rest = &item[k..];
                    let rest = rest.strip_prefix(b"*").unwrap_or(rest);
                    let Some(rest) = rest.strip_prefix(b"=") else { continue };
                    let Some(rest) = rest.strip_prefix(b"+").or(rest.strip_prefix(b"-")) else { continue };
                    let Some(uh) = ref_userhost(rest) else { continue };
                    src.1 = Some(uh);
                    break;
                },
                b"NICK" if own && v.args.len() == 1 && valid(T::Nick, &v.args[0]) => src.0 = v.args[0].clone(),
                b"CHGHOST" if own && v.args.len() == 2 && valid(T::User, &v.args[0]) => src.1 = Some((Some(v.args[0].clone()), v.args[1].clone())),
                _ => (),
            }
        }
        nt |= model != before;
        with_client!(&cl, c, {
            ckeq!(c.state().get::<ClientSource>().map(view_src), model, "client source after {l:?}");
            if let Some(n) = model.as_ref().and_then(source_len) {
                if model != before || (start.is_some() && late == 0 && !lines[..at].contains(&b(b"\0reset"))) { ckeq!(c.state().source_len().get(), n, "assumed source length after {l:?}"); }
            }
        });
    }
    Ok(nt)
}
/// After a reset the assumed source length is what it is for a new client.
pub fn reset_len(src: &Src) -> R {
    let mut l = vinezombie::client::ClientLogic::new();
    let fresh = l.state().source_len();
    l.state_mut().insert::<ClientSource>(mk_src(src));
    l.state_mut().update_source_len();
    let known = l.state().source_len();
    l.reset();
    ckeq!(l.state().source_len(), fresh, "assumed source length after a reset");
    ckeq!(l.state().get::<ClientSource>().map(view_src), None, "client source after a reset");
    Ok(known != fresh)
}
pub fn c27(c: &mut Ctx) {
    for i in 0..c.iters(20000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let pool: Vec<Vec<u8>> = (0..3).map(|_| gen(r, T::Nick)).chain([b"a".to_vec(), b"b".to_vec(), b"ab".to_vec()]).collect();
        let nick = |r: &mut Rng| -> Vec<u8> { r.pick(&pool).clone() };
        let start = r.chance(9, 10).then(|| (B(nick(r)), r.chance(1, 2).then(|| (r.chance(4, 5).then(|| B(gen_small(r, T::User))), b(b"host")))));
        let k = r.range(1, 10);
        let mut cur = start.as_ref().map(|s| s.0 .0.clone()).unwrap_or_default();
        let lines: Vec<B> = (0..k).map(|_| {
            let who = if r.chance(3, 4) { cur.clone() } else { nick(r) };
            let src = if r.chance(9, 10) && !who.is_empty() { [b":".to_vec(), who.clone(), r.pick(&[&b""[..], b"!u@h", b"@h"]).to_vec(), b" ".to_vec()].concat() } else { vec![] };
            let l = match r.below(6) {
                0..=1 => { let n = nick(r); if who == cur { cur = n.clone(); } [b"NICK ".to_vec(), r.pick(&[&b""[..], b":"]).to_vec(), n, r.pick(&[&b""[..], b"", b"", b"", b" x", b"!"]).to_vec()].concat() }
                2..=3 => { let (u, h) = (gen(r, T::User), gen(r, T::Word)); [b"CHGHOST ".to_vec(), r.pick(&[&b""[..], b"~"]).to_vec(), u, b" ".to_vec(), r.pick(&[&b""[..], b":"]).to_vec(), h, r.pick(&[&b""[..], b"", b"", b" x"]).to_vec()].concat() }
                4 => {
                    let mut v = b"302 me".to_vec();
                    for _ in 0..r.range(1, 3) {
                        v.extend(r.pick(&[&b" "[..], b" ", b" ", b" :"]).to_vec());
                        v.extend(if r.chance(2, 3) { cur.clone() } else { nick(r) });
                        v.extend(r.pick(&[&b"=+"[..], b"*=+", b"=-", b"*=-", b"=", b"", b"**=+"]).to_vec());
                        v.extend(gen_small(r, T::User));
                        v.extend(r.pick(&[&b"@h.example"[..], b"@", b"", b"@x@y"]).to_vec());
                    }
                    v
                }
                _ => { let mut w = vec![]; let mut g = gen_msg(r, true); g.src = None; mk_server(&g).write_to(&mut w).unwrap(); w }
            };
            B(if l.first() == Some(&b'@') { l } else { [src, l].concat() })
        }).collect();
        let mut lines: Vec<B> = lines;
        if i % 7 == 0 { let at = r.below(lines.len() + 1); lines.insert(at, b(b"\0reset")); }
        let a = i % 4 == 3;
        let late = if i % 5 == 0 { k.min(2) as usize } else { 0 };
        c.run("track", (start, lines, late, a), |(s, l, late, a)| track(s, l, *late, *a));
    }
}
