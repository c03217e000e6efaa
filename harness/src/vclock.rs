//! Virtual monotonic clock: this binary's `clock_gettime` takes precedence over libc's, so
//! `Instant::now()` anywhere in the process reads the calling thread's virtual time while it is on.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<i64> = const { Cell::new(-1) };
}

/// Start value: large, so that code subtracting from "now" does not underflow.
pub const EPOCH: i64 = 1_000_000_000_000_000;
pub const MS: i64 = 1_000_000;
pub const SEC: i64 = 1_000_000_000;

pub fn start() {
    NOW.with(|n| n.set(EPOCH));
}
pub fn stop() {
    NOW.with(|n| n.set(-1));
}
pub fn now() -> i64 {
    NOW.with(|n| n.get())
}
pub fn set(t: i64) {
    NOW.with(|n| n.set(t));
}
pub fn advance(d: i64) {
    NOW.with(|n| n.set(n.get() + d));
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let v = NOW.try_with(|t| t.get()).unwrap_or(-1);
    if id == 1 && v >= 0 {
        (*ts).sec = v / 1_000_000_000;
        (*ts).nsec = v % 1_000_000_000;
        0
    } else {
        syscall(228, id as i64, ts) as i32
    }
}

/// The CPU clock of the calling thread, readable from other threads.
pub fn my_cpu_clock() -> i32 {
    let mut id = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
    id
}

pub fn read_clock(id: i32) -> i64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(228, id as i64, &mut ts as *mut Timespec) };
    ts.sec * 1_000_000_000 + ts.nsec
}

/// Real monotonic time in nanoseconds, regardless of the virtual clock.
pub fn real() -> i64 {
    read_clock(1)
}
