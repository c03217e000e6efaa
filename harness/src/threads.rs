//! Real threads: two connected endpoints whose connections, openers and streams run as tasks on a pool
//! of worker threads, over an in-memory transport that is shared under a lock. Wakers, log statements and
//! allocations inside the library are the places where delays are injected. Deadlock is decided
//! exactly: no task queued, none running, some unfinished.
#[path = "prng.rs"]
mod prng;
#[allow(dead_code)]
#[path = "race.rs"]
mod race;
#[path = "wire.rs"]
mod wire;

use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, ReadHalf, WriteHalf};
use prng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::{poll_fn, Future};
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use wire::*;
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

// ---- injected delays ---------------------------------------------------------------------------------

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
    /// 0: off; otherwise one call in this many is delayed.
    static RATE: Cell<u64> = const { Cell::new(0) };
    static TRACE: Cell<u64> = const { Cell::new(0) };
}

static DELAYS: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);

fn rnd() -> u64 {
    RNG.try_with(|r| {
        let v = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(v);
        mix(v)
    })
    .unwrap_or(0)
}

fn delay(per: u64) {
    let rate = RATE.try_with(|r| r.get()).unwrap_or(0);
    if rate == 0 || rnd() % (rate * per) != 0 {
        return;
    }
    DELAYS.fetch_add(1, Relaxed);
    match rnd() % 16 {
        0..=10 => {
            for _ in 0..rnd() % 300 {
                std::hint::spin_loop()
            }
        }
        11..=14 => std::thread::yield_now(),
        _ if cfg!(miri) => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros(1 + rnd() % 80)),
    }
}

struct Alloc;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        delay(8);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        delay(16);
        System.dealloc(p, l)
    }
}

#[cfg(not(miri))]
#[global_allocator]
static A: Alloc = Alloc;

/// Every log statement of the library is a place to be interrupted at.
struct Points;
static SEEN: Mutex<Option<HashSet<(String, u32)>>> = Mutex::new(None);
thread_local! {
    static LOCAL_SEEN: std::cell::RefCell<HashSet<(usize, u32)>> = std::cell::RefCell::new(HashSet::new());
}
static LOGS: AtomicU64 = AtomicU64::new(0);

impl log::Log for Points {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOGS.fetch_add(1, Relaxed);
        let (f, l) = (r.file().unwrap_or(""), r.line().unwrap_or(0));
        let _ = LOCAL_SEEN.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if s.insert((f.as_ptr() as usize, l)) {
                    SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert((f.to_string(), l));
                }
            }
        });
        // Now and then the message is really formatted, as a user's logger would.
        if rnd() % 64 == 0 {
            let _ = std::hint::black_box(format!("{}", r.args()));
        }
        delay(1)
    }
    fn flush(&self) {}
}

// ---- a clock that runs fast, so that pings and window growth happen ------------------------------------

#[cfg(not(any(miri, yv_sanitize)))]
mod clock {
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    pub fn real() -> i64 {
        let mut ts = Timespec { sec: 0, nsec: 0 };
        unsafe { syscall(228, 1i64, &mut ts as *mut Timespec) };
        ts.sec * 1_000_000_000 + ts.nsec
    }
    /// Monotonic time runs 5000 times as fast: a ping every 2 ms.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
        let r = syscall(228, id as i64, ts) as i32;
        if id == 1 && r == 0 {
            let v = (((*ts).sec % 100_000) * 1_000_000_000 + (*ts).nsec) as i128 * 5000 + 1_000_000_000_000;
            (*ts).sec = (v / 1_000_000_000) as i64;
            (*ts).nsec = (v % 1_000_000_000) as i64;
        }
        r
    }
}
#[cfg(any(miri, yv_sanitize))]
mod clock {
    pub fn real() -> i64 {
        use std::sync::OnceLock;
        static T: OnceLock<std::time::Instant> = OnceLock::new();
        T.get_or_init(std::time::Instant::now).elapsed().as_nanos() as i64
    }
}

// ---- executor ----------------------------------------------------------------------------------------

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    name: String,
    fut: Mutex<Option<Fut>>,
    state: Mutex<St>,
    ex: Arc<Ex>,
    last: AtomicU64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Idle,
    Queued,
    Running,
    Again,
    Done,
}

struct Q {
    queue: VecDeque<Arc<Task>>,
    running: usize,
    live: usize,
    stop: bool,
    dead: bool,
    all: Vec<std::sync::Weak<Task>>,
}

struct Ex {
    q: Mutex<Q>,
    cv: Condvar,
    /// Called once when nothing can run any more.
    on_idle: Mutex<Option<Box<dyn FnOnce() + Send>>>,
    cross: AtomicU64,
    wakes: AtomicU64,
    moved: AtomicU64,
    polls: AtomicU64,
}

impl Ex {
    fn spawn(self: &Arc<Ex>, name: String, f: impl Future<Output = ()> + Send + 'static) {
        let t = Arc::new(Task { name, fut: Mutex::new(Some(Box::pin(f))), state: Mutex::new(St::Queued), ex: self.clone(), last: AtomicU64::new(u64::MAX) });
        let mut q = self.q.lock().unwrap();
        q.live += 1;
        q.all.push(Arc::downgrade(&t));
        q.queue.push_back(t);
        drop(q);
        self.cv.notify_one();
    }
    fn worker(self: Arc<Ex>, me: u64) {
        loop {
            let t = {
                let mut q = self.q.lock().unwrap();
                loop {
                    if q.stop {
                        return;
                    }
                    if !q.queue.is_empty() {
                        let n = q.queue.len() as u64;
                        let i = match rnd() % 4 {
                            0 => n - 1,
                            1 => rnd() % n,
                            _ => 0,
                        };
                        q.running += 1;
                        break q.queue.remove(i as usize).unwrap();
                    }
                    if q.running == 0 {
                        let idle = self.on_idle.lock().unwrap().take();
                        if let Some(f) = idle {
                            q.running += 1;
                            drop(q);
                            f();
                            q = self.q.lock().unwrap();
                            q.running -= 1;
                            continue;
                        }
                        // Nobody is left who could wake anything.
                        q.dead = q.live > 0;
                        q.stop = true;
                        self.cv.notify_all();
                        return;
                    }
                    q = self.cv.wait(q).unwrap();
                }
            };
            BEAT.fetch_add(1, Relaxed);
            *t.state.lock().unwrap() = St::Running;
            self.polls.fetch_add(1, Relaxed);
            let before = t.last.swap(me, Relaxed);
            if before != me && before != u64::MAX {
                self.moved.fetch_add(1, Relaxed);
            }
            TRACE.with(|x| x.set(mix(x.get() ^ prng::hash(t.name.as_bytes()))));
            let w = waker(&t);
            let mut g = t.fut.lock().unwrap();
            let done = match g.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)) {
                Poll::Ready(()) => {
                    *g = None;
                    true
                }
                Poll::Pending => false,
            };
            drop(g);
            drop(w);
            delay(1);
            let mut q = self.q.lock().unwrap();
            q.running -= 1;
            let mut s = t.state.lock().unwrap();
            if done {
                *s = St::Done;
                q.live -= 1;
            } else if *s == St::Again {
                *s = St::Queued;
                drop(s);
                q.queue.push_back(t.clone());
                drop(q);
                self.cv.notify_one();
                continue;
            } else {
                *s = St::Idle;
            }
            drop(s);
            if q.running == 0 && q.queue.is_empty() {
                self.cv.notify_all();
            }
        }
    }
}

fn wake_task(t: &Arc<Task>) {
    t.ex.wakes.fetch_add(1, Relaxed);
    delay(1);
    // Lock order: queue before state.
    let mut q = t.ex.q.lock().unwrap();
    let mut s = t.state.lock().unwrap();
    match *s {
        St::Idle => {
            *s = St::Queued;
            drop(s);
            q.queue.push_back(t.clone());
            drop(q);
            t.ex.cv.notify_one();
        }
        St::Running => {
            *s = St::Again;
            t.ex.cross.fetch_add(1, Relaxed);
        }
        _ => {}
    }
}

const VT: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        delay(1);
        Arc::increment_strong_count(p as *const Task);
        RawWaker::new(p, &VT)
    },
    |p| unsafe {
        let t = Arc::from_raw(p as *const Task);
        wake_task(&t);
    },
    |p| unsafe {
        let t = std::mem::ManuallyDrop::new(Arc::from_raw(p as *const Task));
        wake_task(&t);
    },
    |p| unsafe {
        delay(2);
        drop(Arc::from_raw(p as *const Task))
    },
);

fn waker(t: &Arc<Task>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(t.clone()) as *const (), &VT)) }
}

fn pause(pct: u64) -> impl Future<Output = ()> + Send {
    let mut n = if rnd() % 100 < pct { 1 + rnd() % 4 } else { 0 };
    poll_fn(move |cx| {
        if n == 0 {
            return Poll::Ready(());
        }
        n -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
}

// ---- transport ---------------------------------------------------------------------------------------

#[derive(Default)]
struct Half {
    buf: VecDeque<u8>,
    eof: bool,
    gone: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    total: u64,
    fault_at: Option<u64>,
    tx: Parser,
    rx: Parser,
    /// Per stream id: (data bytes sent, FIN sent)
    sent: HashMap<u32, (u64, bool)>,
    /// Per stream id, what the sender of this direction may have sent in total.
    credit: HashMap<u32, u64>,
}

struct Net {
    d: [Half; 2],
    cap: usize,
    frames: u64,
    pings: u64,
    resets: u64,
    updates: u64,
    finds: Vec<String>,
    orderly: bool,
}

type NetR = Arc<Mutex<Net>>;

struct Io {
    net: NetR,
    side: usize,
    pend: u64,
    short: u64,
}

impl Net {
    /// Bytes written by `s`.
    fn tap_tx(&mut self, s: usize, b: &[u8]) {
        let mut evs = Vec::new();
        let mut p = std::mem::take(&mut self.d[s].tx);
        p.feed(b, |e| {
            if let Ev::Whole(f) = e {
                evs.push((f.h, f.body.len() as u64))
            }
        });
        self.d[s].tx = p;
        for (h, _) in evs {
            self.frames += 1;
            if h.ver != 0 || h.ty > 3 {
                self.finds.push(format!("side {s} sent a malformed frame {h}"));
                continue;
            }
            match h.ty {
                PING => self.pings += 1,
                WIN => self.updates += 1,
                _ => {}
            }
            if h.has(RST) {
                self.resets += 1;
                if self.orderly {
                    self.finds.push(format!("side {s} reset stream {} although everything was closed in order", h.id));
                }
            }
            if h.ty <= WIN {
                let c = *self.d[s].credit.get(&h.id).unwrap_or(&CREDIT);
                let e = self.d[s].sent.entry(h.id).or_default();
                if h.ty == DATA && h.len > 0 {
                    if e.1 {
                        self.finds.push(format!("side {s} sent data after FIN on stream {}", h.id));
                    }
                    e.0 += h.len as u64;
                    if e.0 > c {
                        self.finds.push(format!("side {s} sent {} bytes on stream {} with credit for {c}", e.0, h.id));
                    }
                }
                if h.has(FIN) {
                    if e.1 {
                        self.finds.push(format!("side {s} sent FIN twice on stream {}", h.id));
                    }
                    e.1 = true
                }
            }
        }
    }
    /// Bytes of direction `s` handed to its reader.
    fn tap_rx(&mut self, s: usize, b: &[u8]) {
        let mut p = std::mem::take(&mut self.d[s].rx);
        let mut evs = Vec::new();
        p.feed(b, |e| {
            if let Ev::Whole(f) = e {
                evs.push(f.h)
            }
        });
        self.d[s].rx = p;
        for h in evs {
            if h.ty == WIN {
                *self.d[1 - s].credit.entry(h.id).or_insert(CREDIT) += h.len as u64;
            }
        }
    }
}

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let from = 1 - self.side;
        if rnd() % 100 < self.pend {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = self.net.lock().unwrap();
        let d = &mut n.d[from];
        if d.buf.is_empty() {
            if d.eof || d.gone {
                return Poll::Ready(Ok(0));
            }
            d.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut k = b.len().min(d.buf.len());
        if self.short > 0 {
            k = k.min(1 + (rnd() % self.short) as usize)
        }
        for (i, x) in d.buf.drain(..k).enumerate() {
            b[i] = x
        }
        let w = d.writer.take();
        n.tap_rx(from, &b[..k]);
        drop(n);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(k))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let s = self.side;
        if rnd() % 100 < self.pend {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = self.net.lock().unwrap();
        let cap = n.cap;
        let d = &mut n.d[s];
        if d.fault_at.map_or(false, |f| d.total >= f) {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if d.gone || n.d[1 - s].gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let d = &mut n.d[s];
        if d.buf.len() >= cap {
            d.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut k = b.len().min(cap - d.buf.len());
        if self.short > 0 {
            k = k.min(1 + (rnd() % self.short) as usize)
        }
        d.buf.extend(&b[..k]);
        d.total += k as u64;
        let w = d.reader.take();
        n.tap_tx(s, &b[..k]);
        drop(n);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.net.lock().unwrap();
        n.d[self.side].eof = true;
        let w = n.d[self.side].reader.take();
        drop(n);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
}

impl Drop for Io {
    fn drop(&mut self) {
        let mut n = self.net.lock().unwrap();
        n.d[self.side].eof = true;
        let a = n.d[self.side].reader.take();
        n.d[1 - self.side].gone = true;
        let b = n.d[1 - self.side].writer.take();
        drop(n);
        for w in [a, b].into_iter().flatten() {
            w.wake()
        }
    }
}

// ---- workload ----------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    /// Everything is written, read, closed; then the connection is closed.
    Complete,
    /// Streams are dropped at random points.
    Drops,
    /// The connection is closed, dropped or its transport fails at a random point.
    Abrupt,
}

struct Side {
    conn: Mutex<Option<Connection<Io>>>,
    driver: Mutex<Option<Waker>>,
    close: AtomicBool,
    drop_conn: AtomicBool,
    ended: AtomicBool,
    clean: AtomicBool,
}

struct Case {
    seed: u64,
    kind: Kind,
    ex: Arc<Ex>,
    side: [Side; 2],
    /// Stream ends still in use or still to come.
    left: AtomicI64,
    finds: Mutex<Vec<String>>,
    bytes: AtomicU64,
    streams: AtomicU64,
    eofs: AtomicU64,
    queries: AtomicU64,
    rtts: AtomicU64,
    max_len: u64,
    /// Few streams, much data, large frames: credit runs out all the time.
    bulk: bool,
}

type CaseR = Arc<Case>;

impl Case {
    fn find(&self, m: String) {
        let mut f = self.finds.lock().unwrap();
        if f.len() < 10 {
            f.push(m)
        }
    }
    fn key(&self, dir: usize, id: u32) -> u64 {
        mix(self.seed ^ ((dir as u64 + 1) << 40) ^ id as u64)
    }
    fn len(&self, dir: usize, id: u32) -> u64 {
        let k = mix(self.key(dir, id) ^ 99);
        if self.bulk {
            return if k % 4 == 0 { k % 3000 } else { self.max_len / 2 + k % (self.max_len / 2) };
        }
        match k % 8 {
            0 => 0,
            1 => 1,
            2 | 3 => k % 3000,
            4 | 5 => k % self.max_len / 8,
            _ => k % self.max_len,
        }
    }
    fn over(&self) -> bool {
        self.kind == Kind::Abrupt && (self.side[0].close.load(SeqCst) || self.side[1].close.load(SeqCst) || self.side[0].ended.load(SeqCst) || self.side[1].ended.load(SeqCst))
    }
    fn poke(&self, s: usize) {
        let w = self.side[s].driver.lock().unwrap().take();
        if let Some(w) = w {
            w.wake()
        }
    }
    fn done_one(&self) {
        if self.left.fetch_sub(1, SeqCst) == 1 && self.kind != Kind::Abrupt {
            let r = mix(self.seed ^ 5) % 3;
            for s in 0..2 {
                if r != s as u64 {
                    self.side[s].close.store(true, SeqCst);
                    self.poke(s);
                }
            }
        }
    }
}

/// Writes the payload of `dir`, then closes.
async fn writer<W: AsyncWrite + Unpin + Send>(c: &CaseR, s: usize, id: u32, w: &mut W) {
    let (key, len) = (c.key(s, id), c.len(s, id));
    let stop = if c.kind == Kind::Drops && mix(key ^ 3) % 3 == 0 { mix(key ^ 4) % (len + 1) } else { u64::MAX };
    let mut off = 0;
    let big = [1usize, 100, 5000, 70_000][(mix(key ^ 7) % 4) as usize].max(len as usize / 50).max(if c.bulk { 300_000 } else { 0 });
    let mut buf = vec![0u8; big];
    while off < len {
        if off >= stop {
            return;
        }
        pause(15).await;
        let k = if c.bulk { big as u64 } else { 1 + rnd() % big as u64 }.min(len - off) as usize;
        prng::fill(key, off, &mut buf[..k]);
        match poll_fn(|cx| Pin::new(&mut *w).poll_write(cx, &buf[..k])).await {
            Ok(n) if n == 0 || n > k => {
                c.find(format!("side {s} stream {id}: write of {k} bytes gave {n}"));
                return;
            }
            Ok(n) => off += n as u64,
            Err(e) => {
                if c.kind == Kind::Complete {
                    c.find(format!("side {s} stream {id}: write failed after {off} of {len} bytes: {e}"));
                }
                return;
            }
        }
        if rnd() % 20 == 0 {
            if let Err(e) = poll_fn(|cx| Pin::new(&mut *w).poll_flush(cx)).await {
                if c.kind == Kind::Complete {
                    c.find(format!("side {s} stream {id}: flush failed: {e}"));
                }
                return;
            }
        }
    }
    pause(30).await;
    if stop != u64::MAX {
        return;
    }
    match poll_fn(|cx| Pin::new(&mut *w).poll_close(cx)).await {
        Ok(()) => {
            let r = poll_fn(|cx| Pin::new(&mut *w).poll_write(cx, b"x")).await;
            if r.is_ok() {
                c.find(format!("side {s} stream {id}: a write after close succeeds"));
            }
        }
        Err(e) => {
            if c.kind == Kind::Complete {
                c.find(format!("side {s} stream {id}: close failed: {e}"));
            }
        }
    }
}

/// Reads the payload of the other side up to the end.
async fn reader<R: AsyncRead + Unpin + Send>(c: &CaseR, s: usize, id: u32, r: &mut R) {
    let (key, len) = (c.key(1 - s, id), c.len(1 - s, id));
    let mine = c.key(s, id);
    let stop = if c.kind == Kind::Drops && mix(mine ^ 13) % 3 == 0 { mix(mine ^ 14) % (len + 1) } else { u64::MAX };
    let big = [1usize, 100, 5000, 70_000][(mix(mine ^ 17) % 4) as usize].max(len as usize / 50).max(if c.bulk { 300_000 } else { 0 });
    let mut buf = vec![0u8; big];
    let mut off = 0u64;
    loop {
        if off >= stop {
            return;
        }
        pause(15).await;
        match poll_fn(|cx| Pin::new(&mut *r).poll_read(cx, &mut buf)).await {
            Ok(0) => {
                c.eofs.fetch_add(1, Relaxed);
                if c.kind == Kind::Complete && off != len {
                    c.find(format!("side {s} stream {id}: end-of-stream after {off} of {len} bytes"));
                }
                let again = poll_fn(|cx| Pin::new(&mut *r).poll_read(cx, &mut buf)).await;
                if !matches!(again, Ok(0)) {
                    c.find(format!("side {s} stream {id}: {again:?} after end-of-stream"));
                }
                return;
            }
            Ok(n) => {
                if off + n as u64 > len {
                    c.find(format!("side {s} stream {id}: {} bytes read, {len} written", off + n as u64));
                    return;
                }
                if let Some(i) = prng::check(key, off, &buf[..n]) {
                    c.find(format!("side {s} stream {id}: wrong byte at offset {}", off + i as u64));
                    return;
                }
                off += n as u64;
                c.bytes.fetch_add(n as u64, Relaxed);
            }
            Err(e) => {
                if c.kind == Kind::Complete {
                    c.find(format!("side {s} stream {id}: read failed after {off} of {len} bytes: {e}"));
                }
                return;
            }
        }
    }
}

/// One task per half, over a shared stream guarded by a lock.
struct Shared(Arc<Mutex<Stream>>);
impl AsyncRead for Shared {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_read(cx, b)
    }
}
impl AsyncWrite for Shared {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_close(cx)
    }
}

/// A value dropped (with its streams) only when both halves are finished.
struct Last(CaseR);
impl Drop for Last {
    fn drop(&mut self) {
        self.0.done_one()
    }
}

fn use_stream(c: &CaseR, s: usize, st: Stream) {
    c.streams.fetch_add(1, Relaxed);
    let id = st.id().val();
    let ex = c.ex.clone();
    let k = mix(c.key(s, id) ^ 31) % 5;
    match k {
        0 | 1 => {
            // Two tasks with one half each.
            let (r, w): (ReadHalf<Stream>, WriteHalf<Stream>) = st.split();
            let last = Arc::new(Last(c.clone()));
            let (c1, c2, l1, l2) = (c.clone(), c.clone(), last.clone(), last);
            ex.spawn(format!("r{s}/{id}"), async move {
                let mut r = r;
                reader(&c1, s, id, &mut r).await;
                drop(r);
                drop(l1);
            });
            ex.spawn(format!("w{s}/{id}"), async move {
                let mut w = w;
                writer(&c2, s, id, &mut w).await;
                drop(w);
                drop(l2);
            });
        }
        2 => {
            let m = Arc::new(Mutex::new(st));
            let last = Arc::new(Last(c.clone()));
            let (c1, c2, l1, l2) = (c.clone(), c.clone(), last.clone(), last.clone());
            let (mut r, mut w) = (Shared(m.clone()), Shared(m.clone()));
            ex.spawn(format!("r{s}/{id}"), async move {
                reader(&c1, s, id, &mut r).await;
                drop(r);
                drop(l1);
            });
            ex.spawn(format!("w{s}/{id}"), async move {
                writer(&c2, s, id, &mut w).await;
                drop(w);
                drop(l2);
            });
            // Somebody asks about the state all the time.
            let c3 = c.clone();
            ex.spawn(format!("q{s}/{id}"), async move {
                let mut was = (false, false);
                for _ in 0..20 {
                    pause(80).await;
                    let g = m.lock().unwrap();
                    let (cl, wc) = (g.is_closed(), g.is_write_closed());
                    let _ = (g.is_pending_ack(), format!("{g} {g:?}"));
                    c3.queries.fetch_add(1, Relaxed);
                    if was.0 && !cl {
                        c3.find(format!("side {s} stream {id}: is_closed went back to false"));
                    }
                    if was.1 && !wc && !g.is_closed() {
                        c3.find(format!("side {s} stream {id}: is_write_closed went back to false"));
                    }
                    drop(g);
                    was = (cl, wc);
                    if cl {
                        break;
                    }
                }
                drop(m);
                drop(last);
            });
        }
        3 => {
            // One task does both at the same time.
            let c1 = c.clone();
            let m = Arc::new(Mutex::new(st));
            ex.spawn(format!("b{s}/{id}"), async move {
                let last = Last(c1.clone());
                {
                    let (mut r, mut w) = (Shared(m.clone()), Shared(m.clone()));
                    futures::future::join(reader(&c1, s, id, &mut r), writer(&c1, s, id, &mut w)).await;
                }
                drop(m);
                drop(last);
            });
        }
        _ => {
            // Both directions in one task, writing in the background of reading; then handed to another task.
            let c1 = c.clone();
            let ex2 = ex.clone();
            ex.spawn(format!("m{s}/{id}"), async move {
                let last = Last(c1.clone());
                let (mut r, mut w) = st.split();
                futures::future::join(reader(&c1, s, id, &mut r), writer(&c1, s, id, &mut w)).await;
                ex2.spawn(format!("d{s}/{id}"), async move {
                    pause(50).await;
                    drop(r);
                    drop(w);
                    drop(last);
                });
            });
        }
    }
}

async fn driver(c: CaseR, s: usize) {
    let sd = &c.side[s];
    poll_fn(|cx| {
        *sd.driver.lock().unwrap() = Some(cx.waker().clone());
        let mut g = sd.conn.lock().unwrap();
        if sd.drop_conn.load(SeqCst) {
            *g = None;
            sd.ended.store(true, SeqCst);
            return Poll::Ready(());
        }
        let Some(conn) = g.as_mut() else { return Poll::Ready(()) };
        if sd.close.load(SeqCst) {
            return match conn.poll_close(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(r) => {
                    if let Err(e) = &r {
                        if c.kind != Kind::Abrupt {
                            // The peer may have closed its transport first.
                            let peer = c.side[1 - s].close.load(SeqCst);
                            if !(peer && matches!(e, ConnectionError::Io(x) if x.kind() == io::ErrorKind::BrokenPipe)) {
                                c.find(format!("side {s}: close failed: {e}"));
                            }
                        }
                    }
                    sd.clean.store(r.is_ok(), SeqCst);
                    sd.ended.store(true, SeqCst);
                    Poll::Ready(())
                }
            };
        }
        loop {
            match conn.poll_next_inbound(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(Ok(st))) => use_stream(&c, s, st),
                Poll::Ready(Some(Err(e))) => {
                    if c.kind != Kind::Abrupt {
                        let peer = c.side[1 - s].close.load(SeqCst);
                        if !(peer && matches!(e, ConnectionError::Io(ref x) if x.kind() == io::ErrorKind::BrokenPipe)) {
                            c.find(format!("side {s}: connection failed: {e}"));
                        }
                    }
                }
                Poll::Ready(None) => {
                    sd.ended.store(true, SeqCst);
                    return Poll::Ready(());
                }
            }
        }
    })
    .await;
    // Some connections are dropped right away, others outlive everything.
    if mix(c.seed ^ s as u64) % 2 == 0 {
        c.side[s].conn.lock().unwrap().take();
    }
}

async fn opener(c: CaseR, s: usize, n: u64) {
    let sd = &c.side[s];
    for _ in 0..n {
        pause(30).await;
        let r = poll_fn(|cx| {
            let mut g = sd.conn.lock().unwrap();
            if sd.close.load(SeqCst) && !sd.ended.load(SeqCst) {
                // A closing connection belongs to its driver.
                return Poll::Ready(None);
            }
            let Some(conn) = g.as_mut() else { return Poll::Ready(None) };
            conn.poll_new_outbound(cx).map(Some)
        })
        .await;
        match r {
            Some(Ok(st)) => use_stream(&c, s, st),
            Some(Err(e)) => {
                if c.kind != Kind::Abrupt {
                    c.find(format!("side {s}: cannot open: {e}"));
                }
                break;
            }
            None => break,
        }
    }
}

struct Report {
    finds: Vec<String>,
    cov: Vec<(&'static str, u64)>,
    growth: u64,
    hash: u64,
}

/// Many operations at the very same instant instead of tasks on an executor.
fn run_drills(seed: u64, small: bool) -> Report {
    let live0 = LIVE.load(Relaxed);
    let mut cov: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut finds = Vec::new();
    let mut hash = 0;
    let env = race::Env {
        set: None,
        small,
        beat: || {
            BEAT.fetch_add(1, Relaxed);
        },
        enter: |s| {
            RNG.with(|r| r.set(s));
            RATE.with(|r| r.set([1, 4, 16, 1000][(s >> 7) as usize % 4]));
        },
    };
    for (i, f) in [race::grow as fn(u64, &race::Env) -> race::Out, race::credit, race::data_in, race::end, race::goodbye, race::turns].into_iter().enumerate() {
        let o = f(mix(seed ^ i as u64), &env);
        for (k, v) in o.cov {
            *cov.entry(k).or_default() += v
        }
        hash = mix(hash ^ o.hash);
        finds.extend(o.finds.into_iter().map(|(p, m)| format!("{m} {p:?}")));
    }
    let mut cov: Vec<_> = cov.into_iter().collect();
    cov.push(("cases_drills", 1));
    let growth = (LIVE.load(Relaxed) - live0).max(0) as u64;
    Report { finds, cov, growth: if growth > 4096 { growth } else { 0 }, hash: mix(hash ^ seed) }
}

fn run_case(seed: u64, small: bool) -> Report {
    if mix(seed ^ 0xD211) % 8 == 0 {
        return run_drills(seed, small);
    }
    let mut rng = Rng::new(seed);
    let mut cov: Vec<(&'static str, u64)> = Vec::with_capacity(40);
    let mut finds: Vec<String> = Vec::with_capacity(40);
    let live0 = LIVE.load(Relaxed);
    let kind = rng.pick(&[Kind::Complete, Kind::Complete, Kind::Complete, Kind::Drops, Kind::Abrupt]);
    let bulk = kind == Kind::Complete && !small && rng.pct(55);
    let workers = if small { rng.range(2, 3) } else { rng.pick(&[2u64, 3, 4, 8, 12]) };
    let mut many = rng.pct(4) && !small && kind == Kind::Abrupt;
    let net = Arc::new(Mutex::new(Net {
        d: Default::default(),
        cap: if bulk { rng.pick(&[100_000usize, 1 << 20]) } else { rng.pick(&[20usize, 200, 1000, 4096, 65_536, 1 << 20]) },
        frames: 0,
        pings: 0,
        resets: 0,
        updates: 0,
        finds: vec![],
        orderly: kind == Kind::Complete,
    }));
    let slow = net.lock().unwrap().cap < 1000;
    if slow {
        many = false
    }
    if kind == Kind::Abrupt && rng.pct(40) {
        let s = rng.below(2) as usize;
        net.lock().unwrap().d[s].fault_at = Some(rng.below(if slow { 2000 } else { 300_000 }));
    }
    let ex = Arc::new(Ex {
        q: Mutex::new(Q { queue: VecDeque::new(), running: 0, live: 0, stop: false, dead: false, all: vec![] }),
        cv: Condvar::new(),
        on_idle: Mutex::new(None),
        cross: AtomicU64::new(0),
        wakes: AtomicU64::new(0),
        moved: AtomicU64::new(0),
        polls: AtomicU64::new(0),
    });
    let mk = |s: usize, rng: &mut Rng| {
        let mut cfg = Config::default();
        cfg.set_split_send_size(if bulk { 1 << 19 } else { rng.pick(&[16 * 1024usize, 1000, 100_000]) });
        cfg.set_read_after_close(rng.pct(70));
        if many {
        } else if rng.pct(30) {
            cfg.set_max_connection_receive_window(None);
        } else if rng.pct(70) {
            // Windows cannot grow: writers run out of credit often.
            cfg.set_max_num_streams(40);
            cfg.set_max_connection_receive_window(Some(40 * CREDIT as usize));
        }
        let io = Io {
            net: net.clone(),
            side: s,
            pend: rng.pick(&[0u64, 0, 10, 30]),
            short: if bulk { 0 } else { rng.pick(&[0u64, 0, 0, 20, 5000]) },
        };
        Side {
            conn: Mutex::new(Some(Connection::new(io, cfg, if s == 0 { Mode::Client } else { Mode::Server }))),
            driver: Mutex::new(None),
            close: AtomicBool::new(false),
            drop_conn: AtomicBool::new(false),
            ended: AtomicBool::new(false),
            clean: AtomicBool::new(false),
        }
    };
    let n = if many { [rng.range(250, 300), 0] } else if bulk { [rng.range(1, 3), rng.range(0, 1)] } else if small { [rng.range(1, 2), rng.range(0, 1)] } else { [rng.range(1, 8), rng.range(0, 8)] };
    let c = Arc::new(Case {
        seed,
        kind,
        ex: ex.clone(),
        side: [mk(0, &mut rng), mk(1, &mut rng)],
        // Either end of every stream; an end that never comes into being is given up by an abrupt end only.
        left: AtomicI64::new(2 * (n[0] + n[1]) as i64),
        finds: Mutex::new(vec![]),
        bytes: AtomicU64::new(0),
        streams: AtomicU64::new(0),
        eofs: AtomicU64::new(0),
        queries: AtomicU64::new(0),
        rtts: AtomicU64::new(0),
        bulk,
        max_len: if bulk { 3_000_000 } else if many { 300 } else if small { 300 } else if slow { 2000 } else { rng.pick(&[5000u64, 20_000, 100_000, 600_000]) },
    });
    for s in 0..2 {
        ex.spawn(format!("driver{s}"), driver(c.clone(), s));
        ex.spawn(format!("opener{s}"), opener(c.clone(), s, n[s]));
    }
    // What ends an abrupt case.
    if kind == Kind::Abrupt {
        let c2 = c.clone();
        let (s, how, after) = (rng.below(2) as usize, rng.below(3), rng.below(400));
        ex.spawn("breaker".into(), async move {
            for _ in 0..after {
                pause(100).await;
            }
            match how {
                0 => c2.side[s].close.store(true, SeqCst),
                1 => c2.side[s].drop_conn.store(true, SeqCst),
                _ => {
                    c2.side[s].close.store(true, SeqCst);
                    c2.side[1 - s].close.store(true, SeqCst);
                    c2.poke(1 - s);
                }
            }
            c2.poke(s);
            // Dropping needs the driver; closing too.
        });
    } else if kind == Kind::Drops {
        // Halves whose counterparts were dropped may wait for each other: then the end comes by a close.
        let c2 = c.clone();
        *ex.on_idle.lock().unwrap() = Some(Box::new(move || {
            for s in 0..2 {
                c2.side[s].close.store(true, SeqCst);
                c2.poke(s);
            }
        }));
    }
    let rate = if small { 8 } else if bulk { rng.pick(&[1u64, 2, 8]) } else { rng.pick(&[8u64, 30, 100, 1000]) };
    let mut hs = Vec::new();
    let trace = Arc::new(AtomicU64::new(0));
    for i in 0..workers {
        let (ex, tr) = (ex.clone(), trace.clone());
        hs.push(std::thread::spawn(move || {
            RNG.with(|r| r.set(mix(seed ^ (i + 1) * 7919)));
            RATE.with(|r| r.set(rate));
            ex.worker(i);
            RATE.with(|r| r.set(0));
            tr.fetch_xor(TRACE.with(|t| t.get()).rotate_left(i as u32), Relaxed);
        }));
    }
    for h in hs {
        if let Err(e) = h.join() {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            finds.push(format!("panic: {m}"));
        }
    }
    let mut q = match ex.q.lock() {
        Ok(q) => q,
        Err(p) => p.into_inner(),
    };
    if q.dead && finds.is_empty() {
        let names: Vec<String> = q
            .all
            .iter()
            .filter_map(|t| t.upgrade())
            .filter(|t| *t.state.lock().unwrap() != St::Done)
            .map(|t| t.name.clone())
            .collect();
        finds.push(format!("deadlock: nothing can run any more, waiting: {}", names.join(" ")));
    }
    q.queue.clear();
    let all = std::mem::take(&mut q.all);
    drop(q);
    finds.extend(std::mem::take(&mut *c.finds.lock().unwrap_or_else(|p| p.into_inner())));
    {
        let mut n = net.lock().unwrap_or_else(|p| p.into_inner());
        finds.append(&mut n.finds);
    }
    if kind == Kind::Complete && finds.is_empty() && c.left.load(SeqCst) != 0 {
        finds.push(format!("{} stream ends never came to their end", c.left.load(SeqCst)));
    }
    {
        let n = net.lock().unwrap_or_else(|p| p.into_inner());
        cov.push(("frames", n.frames));
        cov.push(("pings", n.pings));
        cov.push(("resets", n.resets));
        cov.push(("window_updates", n.updates));
    }
    cov.push(("bytes_read", c.bytes.load(Relaxed)));
    cov.push(("stream_ends", c.streams.load(Relaxed)));
    cov.push(("eofs", c.eofs.load(Relaxed)));
    cov.push(("queries", c.queries.load(Relaxed)));
    cov.push(("polls", ex.polls.load(Relaxed)));
    cov.push(("wakes", ex.wakes.load(Relaxed)));
    cov.push(("woken_while_running", ex.cross.load(Relaxed)));
    cov.push(("polls_on_another_thread", ex.moved.load(Relaxed)));
    cov.push((match kind { Kind::Complete => "cases_complete", Kind::Drops => "cases_drops", Kind::Abrupt => "cases_abrupt" }, 1));
    let _ = (c.over(), &c.rtts);
    let bad = !finds.is_empty();
    // Tear down: nothing may be left.
    for s in 0..2 {
        if let Ok(mut g) = c.side[s].conn.lock() {
            g.take();
        }
        if let Ok(mut g) = c.side[s].driver.lock() {
            g.take();
        }
    }
    ex.on_idle.lock().map(|mut g| g.take()).ok();
    let hash = mix(trace.load(Relaxed) ^ seed);
    drop(c);
    drop(ex);
    drop(net);
    let stuck = all.iter().filter(|t| t.strong_count() > 0).count();
    drop(all);
    if !bad && stuck > 0 {
        finds.push(format!("{stuck} finished tasks are still held by wakers kept inside the library"));
    }
    drop(trace);
    let live1 = LIVE.load(Relaxed);
    Report { finds, cov, growth: (live1 - live0).max(0) as u64, hash }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn assert_send<T: Send>() {}

fn main() {
    assert_send::<Stream>();
    assert_send::<Connection<Io>>();
    let v: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String { v.iter().position(|a| a == k).and_then(|i| v.get(i + 1).cloned()).unwrap_or_else(|| d.to_string()) };
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let cases: u64 = opt("--cases", "100").parse().unwrap();
    let budget: f64 = opt("--budget", "30").parse().unwrap();
    let small = opt("--small", "0") == "1";
    let out = opt("--out", "");
    let build = opt("--build", "plain");
    let one = opt("--case", "");
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        race::note_panic(i);
        hook(i)
    }));
    static P: Points = Points;
    if opt("--log", "1") == "1" {
        let _ = log::set_logger(&P);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let t0 = clock::real();
    let mut cov: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes = HashSet::new();
    let mut n = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut growth: Vec<u64> = Vec::with_capacity(100_000);
    let mut found: Option<(u64, Vec<String>)> = None;
    let cur = Arc::new(AtomicU64::new(0));
    if !cfg!(miri) {
        // A task that blocks inside the library (a lock never released) stops every beat.
        let (cur, out) = (cur.clone(), out.clone());
        std::thread::spawn(move || {
            let mut last = (BEAT.load(Relaxed), 0);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(1000));
                let b = BEAT.load(Relaxed);
                last = if b == last.0 { (b, last.1 + 1) } else { (b, 0) };
                if last.1 > 90 {
                    let m = format!("case {}: no task returns control for 90 s (a lock is held for ever)", cur.load(Relaxed));
                    println!("FOUND {m}");
                    let _ = std::fs::write(&out, format!("{{\"violation\": {}}}", js(&m)));
                    std::process::exit(1);
                }
            }
        });
    }
    while n < cases && (clock::real() - t0) as f64 / 1e9 < budget {
        let s = if one.is_empty() { mix(seed.wrapping_mul(0x9E37_79B9) ^ mix(n)) >> 1 } else { one.parse().unwrap() };
        cur.store(s, Relaxed);
        BEAT.fetch_add(1, Relaxed);
        let r = run_case(s, small);
        n += 1;
        for (k, v) in &r.cov {
            *cov.entry(k).or_default() += v;
        }
        growth.push(r.growth);
        hashes.insert(r.hash);
        if samples.len() < 4 {
            samples.push(format!("case={s} schedule={:016x} {}", r.hash, r.cov.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>().join(" ")));
        }
        if !r.finds.is_empty() {
            for f in &r.finds {
                println!("FOUND case {s}: {f}");
            }
            found = Some((s, r.finds));
            break;
        }
    }
    // What stays allocated after a case would add up (statics are set up in the first cases).
    let late: u64 = growth.iter().skip(20).sum();
    let grew = growth.iter().skip(20).filter(|g| **g > 64).count();
    if found.is_none() && growth.len() > 60 && grew * 4 > growth.len() {
        let m = format!("{late} bytes stay allocated after {} cases", growth.len());
        println!("FOUND {m}");
        found = Some((0, vec![m]));
    }
    cov.insert("bytes_still_allocated", growth.iter().sum());
    cov.insert("delays_injected", DELAYS.load(Relaxed));
    cov.insert("log_points_passed", LOGS.load(Relaxed));
    let pts = SEEN.lock().unwrap().as_ref().map_or(0, |s| s.len());
    cov.insert("distinct_log_points", pts as u64);
    let covs: Vec<String> = cov.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let sm: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let j = format!(
        "{{\"build\": {}, \"seed\": {seed}, \"evaluations\": {n}, \"distinct_schedules\": {}, \"wall_s\": {:.1}, \"observed\": {{{}}}, \"samples\": [{}], \"violation\": {}}}",
        js(&build),
        hashes.len(),
        (clock::real() - t0) as f64 / 1e9,
        covs.join(", "),
        sm.join(", "),
        found.as_ref().map_or("null".into(), |f| js(&format!("case {}: {}", f.0, f.1.join("; "))))
    );
    if out.is_empty() {
        println!("{j}")
    } else {
        let _ = std::fs::write(&out, j);
    }
    std::process::exit(found.is_some() as i32)
}
