//! C21: SASL authentication, against a reference state machine.
use crate::client::*;
use crate::common::*;
use crate::msg::*;
use crate::{ck, ckeq, with_client};
use base64::Engine;
use std::collections::VecDeque;
use vinezombie::client::auth::sasl::{External, Password, Plain};
use vinezombie::client::auth::{AnySasl, Clear, HandlerError, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::names::cmd::AUTHENTICATE;
use vinezombie::string::{Arg, NoNul, SecretBuf};

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Mech {
    Plain(B, B, B),
    Password(B, B, B),
    External(B),
    /// A mechanism that answers each challenge with the challenge reversed and `!`, refusing `bad`.
    Echo(B),
    /// PLAIN denied by the options: contributes nothing.
    Denied,
}
struct EchoLogic(B);
impl SaslLogic for EchoLogic {
    fn name(&self) -> Arg<'static> { Arg::from_bytes(self.0 .0.clone()).unwrap() }
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        if input == b"bad" { return Err("bad".into()); }
        let mut v = input.to_vec();
        v.reverse();
        v.push(b'!');
        output.push_slice(&v);
        Ok(())
    }
}
struct Echo(B);
impl Sasl for Echo { fn logic(&self) -> Vec<Box<dyn SaslLogic>> { vec![Box::new(EchoLogic(self.0.clone()))] } }

fn nn(x: &B) -> NoNul<'static> { NoNul::from_bytes(x.0.clone()).unwrap() }
impl Mech {
    pub fn push(&self, q: &mut SaslQueue) {
        match self {
            Mech::Plain(z, c, p) => q.push(&Plain::<Clear> { authzid: nn(z), authcid: nn(c), passwd: Secret::new(nn(p)) }),
            Mech::Password(z, c, p) => {
                let mut x = Password::<Clear>::new(nn(c), Secret::new(nn(p)));
                x.authzid = nn(z);
                q.push(&AnySasl::from(x))
            }
            Mech::External(z) => q.push(&AnySasl::<Clear>::from(External(nn(z)))),
            Mech::Echo(n) => q.push(&Echo(n.clone())),
            Mech::Denied => {
                let mut x = Password::<Clear>::new(nn(&b(b"u")), Secret::new(nn(&b(b"p"))));
                x.deny_methods.insert(vinezombie::client::auth::sasl::PasswordMechanism::Plain);
                q.push(&x)
            }
        }
    }
    pub fn name(&self) -> B {
        match self { Mech::Plain(..) | Mech::Password(..) | Mech::Denied => b(b"PLAIN"), Mech::External(_) => b(b"EXTERNAL"), Mech::Echo(n) => n.clone() }
    }
}
pub fn queue(m: &[Mech]) -> SaslQueue {
    let mut q = SaslQueue::new();
    for x in m { x.push(&mut q); }
    q
}

/// The reference state machine.
#[derive(Clone, Debug)]
pub struct Sm { cur: Mech, used: bool, queue: VecDeque<Mech>, text: Vec<u8> }
pub enum Out { More, Done, Failed }
impl Sm {
    pub fn new(m: &[Mech]) -> Option<Self> {
        let mut queue: VecDeque<Mech> = m.iter().filter(|m| **m != Mech::Denied).cloned().collect();
        Some(Sm { cur: queue.pop_front()?, used: false, queue, text: vec![] })
    }
    pub fn start(&self) -> B { let mut v = b"AUTHENTICATE ".to_vec(); v.extend_from_slice(&self.cur.name()); B(v) }
    fn next(&mut self) -> bool {
        let Some(n) = self.queue.pop_front() else { return false };
        self.cur = n;
        self.used = false;
        self.text.clear();
        true
    }
    fn reply(&mut self, chal: &[u8]) -> Option<Vec<u8>> {
        match &self.cur {
            Mech::Plain(z, c, p) | Mech::Password(z, c, p) => {
                if !chal.is_empty() || self.used { return None; }
                self.used = true;
                Some([&z.0[..], b"\0", &c.0, b"\0", &p.0].concat())
            }
            Mech::External(z) => chal.is_empty().then(|| z.0.clone()),
            Mech::Echo(_) => (chal != b"bad").then(|| chal.iter().rev().copied().chain([b'!']).collect()),
            Mech::Denied => None,
        }
    }
    pub fn step(&mut self, v: &V, out: &mut Vec<B>) -> Out {
        let words = if v.long { &v.args[..v.args.len() - 1] } else { &v.args[..] };
        match &v.kind.0[..] {
            b"AUTHENTICATE" => {
                if let Some(w) = words.first() {
                    let full = w.len() >= 400;
                    if w.0 != b"+" { self.text.extend_from_slice(w); }
                    if full { return Out::More; }
                }
                let text = std::mem::take(&mut self.text);
                let Ok(chal) = base64::engine::general_purpose::STANDARD.decode(&text) else {
                    out.push(b(b"AUTHENTICATE *"));
                    return Out::Failed;
                };
                let Some(r) = self.reply(&chal) else {
                    out.push(b(b"AUTHENTICATE *"));
                    let name = self.cur.name();
                    self.queue.retain(|m| m.name() != name);
                    return if self.next() { Out::More } else { Out::Failed };
                };
                let e = base64::engine::general_purpose::STANDARD.encode(&r);
                for c in e.as_bytes().chunks(400) { out.push(B([b"AUTHENTICATE ", c].concat())); }
                if e.len() % 400 == 0 { out.push(b(b"AUTHENTICATE +")); }
                Out::More
            }
            b"902" | b"904" => {
                if self.next() { out.push(self.start()); Out::More } else { Out::Failed }
            }
            b"905" => Out::Failed,
            b"906" => { out.push(self.start()); Out::More }
            b"908" => {
                let set: Vec<Vec<u8>> = v.args.iter().take(v.args.len().saturating_sub(1)).flat_map(|a| a.split(|c| *c == b',').map(|x| x.to_vec()).collect::<Vec<_>>()).collect();
                self.queue.retain(|m| set.contains(&m.name().0));
                if self.queue.is_empty() && !set.contains(&self.cur.name().0) { Out::Failed } else { Out::More }
            }
            b"900" | b"903" | b"907" => Out::Done,
            _ => Out::More,
        }
    }
}

fn run(mechs: &Vec<Mech>, lines: &[B], is_async: bool) -> R {
    let pipe = Pipe::default();
    let mut cl = Cl::new(&pipe, is_async);
    let model = Sm::new(mechs);
    ckeq!(queue(mechs).len(), mechs.iter().filter(|m| **m != Mech::Denied).count(), "mechanisms in the queue");
    let added = with_client!(&mut cl, c, c.add(AUTHENTICATE, queue(mechs)));
    let Some(mut model) = model else { ck!(added.is_err(), "a handler without mechanisms"); return Ok(false) };
    let (id, recv) = added.map_err(|_| "no handler")?;
    cl.run()?;
    ckeq!(pipe.sent(), vec![model.start()], "first message");
    let mut nt = false;
    for l in lines {
        let Some(v) = ref_parse(l, true) else { continue };
        pipe.feed(l);
        let r = cl.run()?;
        let mut expect = vec![];
        let o = model.step(&v, &mut expect);
        nt |= expect.len() > 1;
        ckeq!(pipe.sent(), expect, "sent after {l:?}");
        let done = !matches!(o, Out::More);
        ckeq!(r, done.then(|| (vec![id], vec![id])), "results after {l:?}");
        if done {
            let res: Result<(), HandlerError> = recv.0.recv_now().ok_or("nothing reported")?;
            ckeq!(res.is_ok(), matches!(o, Out::Done), "outcome {res:?} after {l:?}");
            return Ok(true);
        }
    }
    Ok(nt)
}
pub fn gen_mech(r: &mut Rng) -> Mech {
    let s = |r: &mut Rng| {
        let n = *r.pick(&[0, 0, 1, 3, 8, 20, 97, 98, 99, 100, 149, 150, 298, 299, 300, 301, 600]);
        B(r.bytes_n(n, b"ab\x01\xff :=", |c| c != 0))
    };
    match r.below(9) {
        0..=3 => Mech::Plain(s(r), s(r), s(r)),
        4 => Mech::Password(s(r), s(r), s(r)),
        5..=6 => Mech::External(s(r)),
        7 => Mech::Echo(r.pick(&[b("ECHO"), b("X-1"), b("PLAIN")]).clone()),
        _ => if r.chance(1, 3) { Mech::Denied } else { Mech::External(b(b"")) },
    }
}
pub fn gen_line(r: &mut Rng) -> B {
    let e = |x: &[u8]| base64::engine::general_purpose::STANDARD.encode(x).into_bytes();
    let mut l: Vec<u8> = match r.below(20) {
        0..=5 => b"AUTHENTICATE +".to_vec(),
        6 => b"AUTHENTICATE".to_vec(),
        7 => r.pick(&[&b"AUTHENTICATE :"[..], b"AUTHENTICATE :+", b"AUTHENTICATE : ", b"AUTHENTICATE + :", b"AUTHENTICATE *", b"AUTHENTICATE =", b"AUTHENTICATE YQ"]).to_vec(),
        8 => { let n = *r.pick(&[1, 2, 3, 100, 299, 300, 301, 330]); let x = r.bytes_n(n, b"ab", |_| true); [b"AUTHENTICATE ".to_vec(), e(&x)].concat() }
        9 => [b"AUTHENTICATE ".to_vec(), e(b"bad")].concat(),
        10 => { let x = r.bytes_n(300, b"ab", |_| true); [b"AUTHENTICATE ".to_vec(), e(&x[..300])].concat() }
        11..=13 => r.pick(&[&b"904 n :SASL failed"[..], b"904", b"902 n :locked", b"904 n x", b":s 904 * :no"]).to_vec(),
        14 => b"906 n :aborted".to_vec(),
        15 => r.pick(&[&b"908 n PLAIN,EXTERNAL :are available"[..], b"908 n EXTERNAL :are", b"908 n ECHO,X-1 :are", b"908 n PLAIN :are", b"908 n , :are", b"908", b"908 n PLAIN", b"908 n EXTERNAL,ECHO PLAIN :x", b"908 n PLAINX,XPLAIN :x"]).to_vec(),
        16 => r.pick(&[&b"905 n :too long"[..], b"901 n n!u@h :out", b"PING x", b"001 n :hi", b"NOTICE n :AUTHENTICATE +", b"AUTH +", b"909 n :x"]).to_vec(),
        17 => r.pick(&[&b"900 n n!u@h acc :in"[..], b"903 n :ok", b"907 n :already", b"903"]).to_vec(),
        _ => b"AUTHENTICATE +".to_vec(),
    };
    if r.chance(1, 15) && l[0] != b':' { l = [b":srv.example ".to_vec(), l].concat(); }
    B(l)
}
pub fn c21(c: &mut Ctx) {
    // Every payload length around the chunk boundary.
    for n in 0..=700usize {
        let pw = B((0..n).map(|i| (i % 255 + 1) as u8).collect());
        let m = match n % 3 { 0 => Mech::Plain(b(b""), b(b""), pw), 1 => Mech::Plain(b(b"z"), b(b"cc"), pw), _ => Mech::External(pw) };
        c.run("payload-lengths", (vec![m], n % 7 == 0), |(m, a)| run(m, &[b(b"AUTHENTICATE +"), b(b"903 n :ok")], *a));
    }
    // Every sequence of up to four replies out of the important ones, for two and three mechanisms.
    let alpha: Vec<B> = ["AUTHENTICATE +", "AUTHENTICATE YmFk", "904 n :no", "906 n :stop", "908 n EXTERNAL :are", "903 n :ok"].iter().map(b).collect();
    let sets = [
        vec![Mech::Plain(b(b"a"), b(b"b"), b(b"c")), Mech::External(b(b""))],
        vec![Mech::External(b(b"")), Mech::Plain(b(b""), b(b"b"), b(b"c")), Mech::External(b(b"x"))],
        vec![Mech::Plain(b(b""), b(b"1"), b(b"1")), Mech::Plain(b(b""), b(b"2"), b(b"2")), Mech::Echo(b(b"ECHO"))],
    ];
    for m in sets {
        exhaustive(&[0, 1, 2, 3, 4, 5], if c.thorough { 6 } else { 4 }, |s| {
            let l: Vec<B> = s.iter().map(|i| alpha[*i as usize].clone()).collect();
            c.run("reply-sequences", (m.clone(), l), |(m, l)| run(m, l, false));
            !c.failed() && !c.over()
        });
    }
    for i in 0..c.iters(8000) {
        if c.failed() || c.over() { return; }
        let r = &mut c.rng;
        let n = r.below(5);
        let m: Vec<Mech> = (0..n).map(|_| gen_mech(r)).collect();
        let k = r.range(1, 12);
        let l: Vec<B> = (0..k).map(|_| gen_line(r)).collect();
        let a = i % 4 == 3;
        c.run(if a { "histories-async" } else { "histories" }, (m, l, a), |(m, l, a)| run(m, l, *a));
    }
}
