//! Case runner, generators and small oracles shared by all property modules.
use std::any::Any;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn len(&mut self) -> usize {
        match self.below(20) {
            0..=12 => self.below(7),
            13..=16 => self.below(20),
            17..=18 => self.below(70),
            _ => self.below(300),
        }
    }
    /// Random bytes of a random flavour, filtered by `ok`.
    pub fn bytes(&mut self, specials: &[u8], ok: impl Fn(u8) -> bool) -> Vec<u8> {
        let n = self.len();
        self.bytes_n(n, specials, ok)
    }
    pub fn bytes_n(&mut self, n: usize, specials: &[u8], ok: impl Fn(u8) -> bool) -> Vec<u8> {
        let flavour = self.below(5);
        let mut v = Vec::with_capacity(n + 4);
        while v.len() < n {
            let f = if flavour == 4 { self.below(4) } else { flavour };
            match f {
                0 => v.push(*self.pick(specials)),
                1 => v.push(*self.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")),
                2 => v.push(self.next() as u8),
                _ => v.extend_from_slice(
                    self.pick(&["é", "z", "ü", "漢", "🙂", "A", "ß", "~", "[", "\u{7ff}", "\u{800}"]).as_bytes(),
                ),
            }
        }
        v.retain(|b| ok(*b));
        v
    }
}

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
type Cur = Option<(usize, fn(usize) -> String, &'static str)>;
static CUR: Mutex<Cur> = Mutex::new(None);
thread_local!(pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub struct Failure {
    pub label: String,
    pub input: String,
    pub why: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub nontrivial_over: u64,
    pub samples: Vec<String>,
    pub labels: std::collections::BTreeMap<&'static str, (u64, u64)>,
    pub failures: Vec<Failure>,
    pub out: String,
    pub prop: String,
    pub t0: std::time::Instant,
    pub budget: f64,
}

pub type R = Result<bool, String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), $crate::common::Show(a), $crate::common::Show(b))); }
    }};
}
pub struct Show<'a, T: ?Sized>(pub &'a T);
impl<T: Debug + ?Sized> Debug for Show<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

/// A byte string that debug-prints as an escaped literal.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct B(pub Vec<u8>);
impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "b\"{}\"", self.0.escape_ascii())
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
pub fn b(x: impl AsRef<[u8]>) -> B {
    B(x.as_ref().to_vec())
}

pub fn panic_msg(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

impl Ctx {
    pub fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget
    }
    pub fn failed(&self) -> bool {
        !self.failures.is_empty()
    }
    /// Random cases `n` (scaled by tier), stopping at the first failure or when out of time.
    pub fn iters(&self, n: u64) -> u64 {
        if self.thorough { n * 12 } else { n }
    }
    pub fn run<I: Debug + Hash>(&mut self, label: &'static str, input: I, f: impl FnOnce(&I) -> R) {
        if self.failed() {
            return;
        }
        fn show<I: Debug>(p: usize) -> String {
            format!("{:?}", unsafe { &*(p as *const I) })
        }
        *CUR.lock().unwrap_or_else(|e| e.into_inner()) = Some((&input as *const I as usize, show::<I>, label));
        QUIET.with(|q| q.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&input)));
        QUIET.with(|q| q.set(false));
        *CUR.lock().unwrap_or_else(|e| e.into_inner()) = None;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        self.evals += 1;
        let l = self.labels.entry(label).or_default();
        l.0 += 1;
        let why = match r {
            Ok(Ok(nt)) => {
                if nt {
                    l.1 += 1;
                    if l.1 <= 2 || (l.1 == 1000) {
                        let mut s = format!("{label}: {input:?}");
                        if s.len() > 300 {
                            let mut k = 300;
                            while !s.is_char_boundary(k) { k -= 1; }
                            s.truncate(k);
                        }
                        if self.samples.len() < 40 { self.samples.push(s); }
                    }
                    if self.distinct.len() < 3_000_000 {
                        self.distinct.insert(h64(&(label, h64(&input))));
                    } else {
                        self.nontrivial_over += 1;
                    }
                }
                return;
            }
            Ok(Err(e)) => e,
            Err(p) => format!("panicked: {}", panic_msg(&*p)),
        };
        self.failures.push(Failure { label: label.into(), input: format!("{input:?}"), why });
    }
    pub fn write(&self) -> std::io::Result<()> {
        write_out(&self.out, &self.prop, self.evals, self.distinct.len() as u64, &self.samples, &self.labels, &self.failures)
    }
}

#[allow(clippy::type_complexity)]
fn write_out(out: &str, prop: &str, evals: u64, distinct: u64, samples: &[String], labels: &std::collections::BTreeMap<&'static str, (u64, u64)>, fails: &[Failure]) -> std::io::Result<()> {
    let f: Vec<_> = fails.iter().map(|f| serde_json::json!({"label": f.label, "input": f.input, "why": f.why})).collect();
    let l: serde_json::Map<String, serde_json::Value> = labels.iter().map(|(k, v)| (k.to_string(), serde_json::json!({"cases": v.0, "nontrivial": v.1}))).collect();
    let v = serde_json::json!({"property": prop, "evaluations": evals, "distinct_nontrivial": distinct, "samples": samples, "labels": l, "failures": f});
    std::fs::write(out, serde_json::to_string_pretty(&v)?)
}

/// Reports the running case as non-terminating if nothing finishes for `secs` seconds.
pub fn watchdog(out: String, prop: String, secs: u64) {
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() >= secs {
                let cur = CUR.lock().unwrap_or_else(|e| e.into_inner());
                if let Some((ptr, show, label)) = *cur {
                    let f = [Failure { label: label.into(), input: show(ptr), why: format!("did not finish within {secs} s") }];
                    let _ = write_out(&out, &prop, p, 0, &[], &Default::default(), &f);
                    std::process::exit(1);
                }
                last.1 = std::time::Instant::now();
            }
        }
    });
}

/// Reports the running case if the process is about to die of a signal.
pub fn crash_handler(out: String, prop: String) {
    use std::sync::OnceLock;
    static WHERE: OnceLock<(String, String)> = OnceLock::new();
    let _ = WHERE.set((out, prop));
    extern "C" fn on_signal(sig: libc::c_int) {
        // Best effort: formatting is not signal-safe, but the process is lost anyway.
        unsafe { libc::alarm(10) };
        if let (Ok(cur), Some((out, prop))) = (CUR.try_lock(), WHERE.get()) {
            if let Some((ptr, show, label)) = *cur {
                let f = [Failure { label: label.into(), input: show(ptr), why: format!("died of signal {sig}") }];
                let _ = write_out(out, prop, PROGRESS.load(Ordering::Relaxed), 0, &[], &Default::default(), &f);
                println!("FAIL {label} | {} | died of signal {sig}", show(ptr));
            }
        }
        unsafe { libc::_exit(1) }
    }
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// All strings over `alpha` of length at most `max`, shortest first.
pub fn exhaustive(alpha: &[u8], max: usize, mut f: impl FnMut(&[u8]) -> bool) {
    for n in 0..=max {
        let mut idx = vec![0usize; n];
        let mut cur: Vec<u8> = vec![alpha[0]; n];
        'outer: loop {
            if !f(&cur) {
                return;
            }
            let mut k = n;
            loop {
                if k == 0 {
                    break 'outer;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    cur[k] = alpha[idx[k]];
                    break;
                }
                idx[k] = 0;
                cur[k] = alpha[0];
            }
        }
    }
}

// ---- Independent definitions of the string types -------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T { NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd }
pub const TYPES: [T; 9] = [T::NoNul, T::Line, T::Word, T::Arg, T::Key, T::Target, T::Nick, T::User, T::Cmd];

/// May a string of type `t` contain `c`?
pub fn byte_ok(t: T, c: u8) -> bool {
    match t {
        T::NoNul => c != 0,
        T::Line => !matches!(c, 0 | 10 | 13),
        T::Word | T::Arg => !matches!(c, 0 | 10 | 13 | 32),
        T::Key => !matches!(c, 0 | 10 | 13 | 32 | 61 | 59),
        T::Target => !matches!(c, 0 | 10 | 13 | 32 | 44),
        T::Nick => !matches!(c, 0 | 10 | 13 | 32 | 44 | 33 | 64),
        T::User => !matches!(c, 0 | 10 | 13 | 32 | 64 | 37),
        T::Cmd => c.is_ascii_uppercase(),
    }
}
/// Must a string of type `t` be non-empty and not begin with a colon?
pub fn arg_like(t: T) -> bool {
    !matches!(t, T::NoNul | T::Line | T::Word)
}
pub fn valid(t: T, s: &[u8]) -> bool {
    s.iter().all(|c| byte_ok(t, *c)) && (!arg_like(t) || (!s.is_empty() && s[0] != 58))
}
/// A random valid string of type `t`.
pub fn gen(rng: &mut Rng, t: T) -> Vec<u8> {
    loop {
        let v = rng.bytes(b" :;=,!@%~+-#&a\\\t\x01\xff\xc3\xa9\x0c[{Zz", |c| byte_ok(t, c));
        if valid(t, &v) {
            return v;
        }
        if t == T::Cmd {
            let n = rng.range(1, 12);
            return (0..n).map(|_| b'A' + rng.below(26) as u8).collect();
        }
    }
}
/// Like `gen`, from a small pool so that values collide.
pub fn gen_small(rng: &mut Rng, t: T) -> Vec<u8> {
    loop {
        let n = rng.range(arg_like(t) as usize, 2);
        let v: Vec<u8> = (0..n).map(|_| *rng.pick(b"abc\xff")).collect();
        if valid(t, &v) {
            return v;
        }
        if t == T::Cmd {
            return vec![b'A' + rng.below(3) as u8];
        }
    }
}
