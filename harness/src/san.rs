//! The runtime side of the SanitizerCoverage instrumentation of the code
//! under test: counts every instrumented edge executed (a deterministic
//! measure of work), remembers which edges were ever taken, and stops the
//! process when a call exceeds its step budget.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub const MAX_EDGES: usize = 1 << 16;
static N_EDGES: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU8 = AtomicU8::new(0);
static SEEN: [AtomicU8; MAX_EDGES] = [Z; MAX_EDGES];
static EXIT_BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const HANG_EXIT: i32 = 97;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        let n = N_EDGES.fetch_add(1, Relaxed) + 1;
        *p = n as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize;
    if id < MAX_EDGES {
        SEEN[id].store(1, Relaxed);
    }
    let _ = STEPS.try_with(|s| {
        let n = s.get() + 1;
        s.set(n);
        let _ = LIMIT.try_with(|l| {
            if n > l.get() {
                over();
            }
        });
    });
}

#[cold]
fn over() -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(HANG_EXIT) }
}

/// Total steps this thread has run in the code under test.
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}

/// Run `f`; end the process if it takes more than `budget` steps.  Returns
/// the steps taken.
pub fn with_budget<T>(budget: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let before = steps();
    LIMIT.with(|l| l.set(before.saturating_add(budget.min(EXIT_BUDGET.load(Relaxed)))));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    (r, steps() - before)
}

pub fn edges_total() -> usize {
    N_EDGES.load(Relaxed)
}
pub fn edges_seen() -> Vec<u32> {
    (1..=edges_total().min(MAX_EDGES - 1)).filter(|i| SEEN[*i].load(Relaxed) != 0).map(|i| i as u32).collect()
}

// ---- memory --------------------------------------------------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Counts the bytes this thread holds, and the most it ever held.
pub struct Counting;

fn moved(d: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n);
            }
        });
    });
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            moved(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc_zeroed(l);
        if !p.is_null() {
            moved(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l);
        moved(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        if !q.is_null() {
            moved(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Run `f` and return the most memory it held at once, in bytes, beyond what
/// was held before.
pub fn with_peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - before).max(0) as u64)
}
