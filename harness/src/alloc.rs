//! Counting allocator, per thread (a simulation never leaves its thread).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = LIMIT.try_with(|m| {
            if v > m.get() {
                m.set(i64::MAX);
                crate::runner::memory_blown();
            }
        });
    });
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
    MAXREQ.with(|m| m.set(0));
}
pub fn max_request() -> usize {
    MAXREQ.with(|m| m.get())
}
/// Ends the run when the calling thread holds more than `n` bytes beyond what it holds now.
pub fn set_limit(n: i64) {
    LIMIT.with(|m| m.set(live().saturating_add(n)));
}
