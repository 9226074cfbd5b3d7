//! Counting allocator: lets a monitor see how much memory one operation of the
//! code under test had live at its peak, and the largest single request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = LARGEST.try_with(|p| {
            if n as u64 > p.get() {
                p.set(n as u64)
            }
        });
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
/// No case comes near this; beyond it allocation fails, which ends the process with an abort
/// long before the machine runs out of memory.
const CAP: i64 = 2 << 30;
fn over(n: usize) -> bool {
    LIVE.try_with(|l| l.get().saturating_add(n as i64) > CAP).unwrap_or(false)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && over(n - l.size()) {
            return std::ptr::null_mut();
        }
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}
pub struct Usage {
    pub peak: u64,
    pub largest: u64,
    pub count: u64,
}
/// Measures the peak additional live bytes and the largest single allocation of `f` on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    COUNT.with(|p| p.set(0));
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as u64,
        largest: LARGEST.with(|p| p.get()),
        count: COUNT.with(|p| p.get()),
    };
    (r, u)
}
