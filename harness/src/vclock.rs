//! A virtual monotonic clock for the calling thread.
//!
//! The definition below takes the place of libc's for everything linked into this program,
//! including `std::time::Instant::now`.
use std::cell::Cell;
thread_local!(static VIRT: Cell<Option<u64>> = const { Cell::new(None) });
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if clk == 1 {
        if let Ok(Some(t)) = VIRT.try_with(|v| v.get()) {
            (*ts).s = (t / 1_000_000_000) as i64;
            (*ts).n = (t % 1_000_000_000) as i64;
            return 0;
        }
    }
    syscall(228, clk as i64, ts) as i32
}
/// Runs `f` with the clock of this thread standing still, except for calls of [`advance`].
pub fn frozen<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { VIRT.with(|v| v.set(None)) } }
    let _off = Off;
    VIRT.with(|v| v.set(Some(1_000_000_000_000)));
    f()
}
pub fn advance(ns: u64) { VIRT.with(|v| v.set(v.get().map(|t| t + ns))) }
pub fn now() -> u64 { VIRT.with(|v| v.get()).unwrap() }
/// Does the virtual clock govern `Instant`?
pub fn works() -> bool {
    frozen(|| { let a = std::time::Instant::now(); advance(5_000_000_007); (std::time::Instant::now() - a).as_nanos() == 5_000_000_007 })
}
