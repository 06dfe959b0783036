//! A global allocator with red zones, poisoning of freed memory and a scan of freed blocks for
//! secret material (runs of bytes 0xB1..=0xBE, which the tests use for secrets only).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Guarded;
const SUF: usize = 16;
const MAGIC: u8 = 0xC7;
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
pub static LEAKS: AtomicU64 = AtomicU64::new(0);
thread_local!(static TRACK: Cell<bool> = const { Cell::new(false) });
thread_local!(static NET: Cell<i64> = const { Cell::new(0) });
/// Blocks this thread has allocated, less those it has freed.
pub fn live() -> i64 { NET.with(|n| n.get()) }

fn pre(l: &Layout) -> usize {
    l.align().max(16)
}
fn full(l: &Layout) -> Layout {
    Layout::from_size_align(pre(l) + l.size() + SUF, l.align().max(16)).unwrap()
}
pub fn is_secret_byte(c: u8) -> bool {
    (0xB1..=0xBE).contains(&c)
}
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > (1 << 40) { return std::ptr::null_mut(); }
        let p = System.alloc(full(&l));
        if p.is_null() { return p; }
        let _ = NET.try_with(|n| n.set(n.get() + 1));
        let n = pre(&l);
        p.write_bytes(MAGIC, n);
        p.add(n).write_bytes(0xCD, l.size().min(4096));
        p.add(n + l.size()).write_bytes(MAGIC, SUF);
        p.add(n)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let n = pre(&l);
        let p = q.sub(n);
        let mut bad = false;
        for i in 0..n { bad |= *p.add(i) != MAGIC; }
        for i in 0..SUF { bad |= *q.add(l.size() + i) != MAGIC; }
        let _ = NET.try_with(|n| n.set(n.get() - 1));
        if bad { CORRUPT.fetch_add(1, Relaxed); }
        if TRACK.try_with(|t| t.get()).unwrap_or(false) {
            let s = std::slice::from_raw_parts(q, l.size());
            let mut run = 0;
            for c in s {
                if is_secret_byte(*c) { run += 1; if run >= 4 { LEAKS.fetch_add(1, Relaxed); break; } } else { run = 0; }
            }
        }
        q.write_bytes(0xDD, l.size().min(1 << 16));
        System.dealloc(p, full(&l));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let r = self.alloc(nl);
        if !r.is_null() {
            std::ptr::copy_nonoverlapping(q, r, l.size().min(new));
            self.dealloc(q, l);
        }
        r
    }
}
/// Runs `f`, returning how many blocks were freed that still held secret bytes.
pub fn track<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let old = LEAKS.load(Relaxed);
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    (r, LEAKS.load(Relaxed) - old)
}
pub fn corrupt() -> u64 {
    CORRUPT.load(Relaxed)
}
