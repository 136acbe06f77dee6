//! Deterministic cost of a call: executed control-flow edges of the monitored crates,
//! bytes moved by the C library's copy routines, allocated bytes and peak live bytes.
//! Only present in the step-counting build.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static STEPS: AtomicU64 = AtomicU64::new(0);
static COPIED: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

#[inline(always)]
fn bump(c: &AtomicU64, n: u64) -> u64 {
    // one thread only: a plain add is enough
    let v = c.load(Relaxed).wrapping_add(n);
    c.store(v, Relaxed);
    v
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if bump(&STEPS, 1) > LIMIT.load(Relaxed) {
        over();
    }
}

#[cold]
fn over() -> ! {
    LIMIT.store(u64::MAX, Relaxed);
    eprintln!("the call executes more steps than any allowed bound");
    std::process::abort()
}

macro_rules! copy {
    ($name:ident) => {
        /// # Safety
        /// As the C function of the same name.
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
            bump(&COPIED, n as u64);
            if (d as usize).wrapping_sub(s as usize) >= n {
                std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
            } else {
                std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
            }
            d
        }
    };
}
copy!(memcpy);
copy!(memmove);

/// # Safety
/// As the C function of the same name.
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    bump(&COPIED, n as u64);
    std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    d
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let v = LIVE.load(Relaxed);
        LIVE.store(v.wrapping_sub(l.size() as u64), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let v = LIVE.load(Relaxed);
        LIVE.store(v.wrapping_sub(l.size() as u64), Relaxed);
        add(n);
        System.realloc(p, l, n)
    }
}

fn add(n: usize) {
    bump(&TOTAL, n as u64);
    let v = bump(&LIVE, n as u64);
    if v > PEAK.load(Relaxed) && v < 1 << 60 {
        PEAK.store(v, Relaxed);
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub steps: u64,
    pub copied: u64,
    pub total: u64,
    pub peak: u64,
}

/// Runs `f` and reports what it cost. More than `limit` steps end the process with an abort.
pub fn measure<T>(limit: u64, f: impl FnOnce() -> T) -> (T, Cost) {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    let (s, c, t) = (STEPS.load(Relaxed), COPIED.load(Relaxed), TOTAL.load(Relaxed));
    LIMIT.store(s.saturating_add(limit), Relaxed);
    let r = f();
    LIMIT.store(u64::MAX, Relaxed);
    let cost = Cost {
        steps: STEPS.load(Relaxed) - s,
        copied: COPIED.load(Relaxed) - c,
        total: TOTAL.load(Relaxed) - t,
        peak: PEAK.load(Relaxed).saturating_sub(live),
    };
    (r, cost)
}
