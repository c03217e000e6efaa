//! Drills: one connection over a raw peer, its streams used by real threads at the same instant. What comes of
//! it must be what some order of the operations allows, exactly.
use crate::prng::{check, fill, Rng};
use crate::wire::*;
use futures::io::{AsyncRead, AsyncWrite};
use futures::Stream as _;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use yamux::{Config, Connection, Mode, Stream};

pub type Props = &'static [&'static str];

pub struct Env {
    /// Sets the calling thread's clock, if there is one to set.
    pub set: Option<fn(i64)>,
    pub small: bool,
    pub beat: fn(),
    /// Called by every thread that takes part, with a seed of its own.
    pub enter: fn(u64),
}

#[derive(Default)]
pub struct Out {
    pub finds: Vec<(Props, String)>,
    pub cov: BTreeMap<&'static str, u64>,
    pub hash: u64,
}

impl Out {
    fn hit(&mut self, k: &'static str, n: u64) {
        *self.cov.entry(k).or_default() += n
    }
    fn mix(&mut self, v: u64) {
        self.hash = crate::prng::mix(self.hash ^ v)
    }
}

#[derive(Default)]
struct Pipe {
    inp: VecDeque<u8>,
    out: Vec<u8>,
}

#[derive(Clone, Default)]
struct Io(Arc<Mutex<Pipe>>);

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        // The main thread polls again whenever it has put something here.
        let mut p = self.0.lock().unwrap();
        if p.inp.is_empty() {
            return Poll::Pending;
        }
        let k = b.len().min(p.inp.len());
        let (x, y) = p.inp.as_slices();
        let i = k.min(x.len());
        b[..i].copy_from_slice(&x[..i]);
        b[i..k].copy_from_slice(&y[..k - i]);
        p.inp.drain(..k);
        Poll::Ready(Ok(k))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.0.lock().unwrap().out.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Peer {
    io: Io,
    conn: Connection<Io>,
    parser: Parser,
    frames: Vec<Frame>,
    inbound: Vec<Stream>,
    ended: Option<String>,
}

impl Peer {
    fn new(cfg: Config, client: bool) -> Peer {
        let io = Io::default();
        Peer {
            conn: Connection::new(io.clone(), cfg, if client { Mode::Client } else { Mode::Server }),
            io,
            parser: Parser::default(),
            frames: vec![],
            inbound: vec![],
            ended: None,
        }
    }
    fn put(&self, b: &[u8]) {
        self.io.0.lock().unwrap().inp.extend(b)
    }
    fn pump(&mut self) {
        let mut cx = Context::from_waker(Waker::noop());
        while self.ended.is_none() {
            match self.conn.poll_next_inbound(&mut cx) {
                Poll::Pending => break,
                Poll::Ready(Some(Ok(s))) => self.inbound.push(s),
                Poll::Ready(Some(Err(e))) => self.ended = Some(format!("{e}")),
                Poll::Ready(None) => self.ended = Some("closed".into()),
            }
        }
        let out = std::mem::take(&mut self.io.0.lock().unwrap().out);
        let fr = &mut self.frames;
        self.parser.feed(&out, |e| {
            if let Ev::Whole(f) = e {
                fr.push(f)
            }
        });
    }
    fn take(&mut self) -> Vec<Frame> {
        std::mem::take(&mut self.frames)
    }
}

/// All parties meet here, again and again.
struct Gate {
    n: usize,
    at: AtomicUsize,
    stop: AtomicBool,
}

impl Gate {
    fn new(n: usize) -> Gate {
        Gate { n, at: AtomicUsize::new(0), stop: AtomicBool::new(false) }
    }
    /// False when somebody has given up.
    fn meet(&self) -> bool {
        let my = self.at.fetch_add(1, SeqCst);
        let target = (my / self.n + 1) * self.n;
        let mut k = 0u64;
        while self.at.load(SeqCst) < target {
            if self.stop.load(SeqCst) {
                return false;
            }
            k += 1;
            if k % 64 == 0 || cfg!(miri) {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
        true
    }
}

fn spin(n: u64) {
    for _ in 0..n {
        std::hint::spin_loop()
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// For the panic hook: remembers where.
pub fn note_panic(i: &std::panic::PanicHookInfo<'_>) {
    let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC_AT.with(|p| *p.borrow_mut() = l)
}

/// A thread whose panic ends the drill.
fn guard(gate: &Gate, fail: &Mutex<Vec<String>>, f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = PANIC_AT.with(|p| p.borrow().clone());
        if at.starts_with("src/") || at.contains("/verif/harness/") {
            eprintln!("internal error: harness panic at {at}: {m}");
            std::process::exit(2)
        }
        fail.lock().unwrap().push(format!("{m} at {at}"));
        gate.stop.store(true, SeqCst);
    }
}

const MS: i64 = 1_000_000;
const T0: i64 = 1_000_000_000_000_000;

enum Act {
    Read,
    Drop,
}

struct Job {
    st: Option<Stream>,
    act: Act,
    spin: u64,
    t: i64,
}

/// Streams grow their windows, and give them back, at the same instant: what they have in total stays within the
/// limit, and all of what is available is used.
pub fn grow(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    let k = rng.pick(&[2usize, 2, 3, 4]);
    let most = k + rng.below(3) as usize;
    let extra = rng.pick(&[1usize, 100_000, CREDIT as usize, CREDIT as usize, 400_000, 600_000, 1 << 20]) as u64;
    let fail = Mutex::new(vec![]);
    let gate = Gate::new(k + 1);
    let slots: Vec<Mutex<Option<Job>>> = (0..k).map(|_| Mutex::new(None)).collect();
    let mut cfg = Config::default();
    cfg.set_max_num_streams(most);
    cfg.set_max_connection_receive_window(Some(most * CREDIT as usize + extra as usize));
    let client = rng.pct(50);
    let mut p = Peer::new(cfg, client);
    let exact = env.set.is_some();
    let set = |t: i64| {
        if let Some(f) = env.set {
            f(t)
        }
    };
    let mut t = T0;
    set(t);
    p.pump();
    let ping = p.take().iter().find(|f| f.h.ty == PING).map(|f| f.h.len);
    t += 100 * MS;
    set(t);
    if !exact {
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    if let Some(v) = ping {
        p.put(&frame(PING, ACK, 0, v));
    }
    p.pump();
    let mut next: u32 = if client { 2 } else { 1 };
    // (id, window, stream)
    let mut live: Vec<(u32, u64, Option<Stream>)> = Vec::new();
    let rounds = if env.small { 3 } else { 60 };
    let body = vec![5u8; 1 << 20];
    std::thread::scope(|sc| {
        for i in 0..k {
            let (gate, slot, fail) = (&gate, &slots[i], &fail);
            sc.spawn(move || {
                (env.enter)(crate::prng::mix(seed ^ (i as u64 + 1)));
                guard(gate, fail, || loop {
                    if !gate.meet() {
                        return;
                    }
                    let job = slot.lock().unwrap().take();
                    let Some(mut j) = job else { return };
                    if let Some(f) = env.set {
                        f(j.t)
                    }
                    if !gate.meet() {
                        return;
                    }
                    spin(j.spin);
                    match j.act {
                        Act::Read => {
                            let _ = Pin::new(j.st.as_mut().unwrap()).poll_read(&mut Context::from_waker(Waker::noop()), &mut [0; 8]);
                        }
                        Act::Drop => j.st = None,
                    }
                    *slot.lock().unwrap() = Some(j);
                    if !gate.meet() {
                        return;
                    }
                })
            });
        }
        guard(&gate, &fail, || {
            for _ in 0..rounds {
                (env.beat)();
                while live.len() < k {
                    p.put(&frame(WIN, SYN, next, 0));
                    p.pump();
                    let Some(s) = p.inbound.pop() else {
                        out.finds.push((&["C14", "C06"], format!("an inbound stream is refused with {} of {most} slots in use ({:?})", live.len(), p.ended)));
                        break;
                    };
                    live.push((next, CREDIT, Some(s)));
                    next += 2;
                }
                if live.len() < k || !out.finds.is_empty() {
                    break;
                }
                let dt = if rng.pct(80) { rng.below(3) as i64 * MS } else { 300 * MS };
                t += dt;
                set(t);
                // More than half of every window arrives and is read.
                let mut left = Vec::new();
                for l in live.iter_mut() {
                    let n = (l.1 / 2 + 1 + rng.below(1000)).min(l.1);
                    left.push(l.1 - n);
                    p.put(&frame(DATA, 0, l.0, n as u32));
                    p.put(&body[..n as usize]);
                    p.pump();
                    let mut got = 0;
                    while got < n {
                        match Pin::new(l.2.as_mut().unwrap()).poll_next(&mut Context::from_waker(Waker::noop())) {
                            Poll::Ready(Some(Ok(b))) if !b.as_ref().is_empty() => got += b.as_ref().len() as u64,
                            _ => break,
                        }
                    }
                    if got != n {
                        out.finds.push((&["C01"], format!("{got} of {n} bytes could be read")));
                    }
                }
                p.pump();
                if p.take().iter().any(|f| f.h.ty == WIN && f.h.len > 0) {
                    // Issued earlier than expected: nothing is left to race for.
                    out.hit("grow_early", 1);
                    break;
                }
                let gain: u64 = live.iter().map(|l| l.1 - CREDIT).sum();
                // Those with the largest windows tend to go.
                let dropping = if gain > 0 && rng.pct(60) {
                    (0..k).max_by_key(|i| live[*i].1)
                } else {
                    rng.pct(15).then(|| rng.below(k as u64) as usize)
                };
                let help = rng.pct(50);
                for (i, l) in live.iter_mut().enumerate() {
                    let act = if dropping == Some(i) { Act::Drop } else { Act::Read };
                    let s = rng.pick(&[0u64, 0, 5, 20, 50]);
                    *slots[i].lock().unwrap() = Some(Job { st: l.2.take(), act, spin: if s == 0 { 0 } else { rng.below(s) }, t });
                }
                gate.meet();
                gate.meet();
                if help {
                    p.pump()
                }
                if !gate.meet() {
                    break;
                }
                p.pump();
                let mut credit: BTreeMap<u32, u64> = BTreeMap::new();
                for f in p.take() {
                    if f.h.ty == WIN {
                        *credit.entry(f.h.id).or_default() += f.h.len as u64
                    }
                }
                if let Some(e) = &p.ended {
                    out.finds.push((&["C06", "C17"], format!("the connection ended: {e}")));
                    break;
                }
                let (mut grown, mut sum, mut released) = (0, 0, 0);
                for (i, l) in live.iter_mut().enumerate() {
                    let j = slots[i].lock().unwrap().take().unwrap();
                    l.2 = j.st;
                    if dropping == Some(i) {
                        released = l.1 - CREDIT;
                        continue;
                    }
                    let w = left[i] + credit.get(&l.0).copied().unwrap_or(0);
                    if w < l.1 || w > 2 * l.1 {
                        out.finds.push((&["C06", "C05"], format!("stream {}: window {w} after an update, {} before", l.0, l.1)));
                    }
                    sum += l.1;
                    grown += w.saturating_sub(l.1);
                    l.1 = w.max(l.1);
                }
                out.hit("grow_rounds", 1);
                out.hit("grow_streams", k as u64);
                out.hit(if grown == 0 { "grow_none" } else if grown < sum { "grow_contended" } else { "grow_all" }, 1);
                out.mix(grown);
                if let Some(i) = dropping {
                    live.remove(i);
                    out.hit("grow_drops", 1);
                }
                let avail = extra - gain.min(extra);
                let fast = dt < 200 * MS;
                let (lo, hi) = if !exact { (0, sum.min(avail + released)) } else if fast { (sum.min(avail), sum.min(avail + released)) } else { (0, 0) };
                if grown < lo || grown > hi {
                    out.finds.push((&["C06"], format!("windows of {k} streams grew by {grown} at the same time, expected {lo} to {hi} (limit {extra} beyond the minimum, {gain} in use, {released} released)")));
                }
            }
        });
        // The workers leave: by an empty slot, or because of the stop.
        for s in &slots {
            if let Ok(mut g) = s.lock() {
                g.take();
            }
        }
        if fail.lock().unwrap().is_empty() {
            gate.meet();
        }
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}

#[derive(Default)]
struct Bell {
    woken: AtomicBool,
    rung: AtomicU64,
}

impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.rung.fetch_add(1, SeqCst);
        self.woken.store(true, SeqCst);
    }
}

#[derive(Default)]
struct Worker {
    bell: Arc<Bell>,
    /// Number of times the operation was left pending.
    waits: AtomicU64,
    /// The operation is pending and the worker waits for the bell.
    waiting: AtomicBool,
    count: AtomicU64,
    done: AtomicBool,
    err: AtomicBool,
}

impl Worker {
    /// Waits for the bell; false when the drill is over.
    fn wait(&self, gate: &Gate) -> bool {
        self.waits.fetch_add(1, SeqCst);
        self.waiting.store(true, SeqCst);
        let mut k = 0u32;
        while !self.bell.woken.load(SeqCst) {
            if gate.stop.load(SeqCst) {
                return false;
            }
            k += 1;
            if k % 64 == 0 || cfg!(miri) {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
        self.waiting.store(false, SeqCst);
        true
    }
    fn idle(&self) -> Option<u64> {
        let n = self.waits.load(SeqCst);
        (self.waiting.load(SeqCst) && !self.bell.woken.load(SeqCst) && n == self.waits.load(SeqCst)).then_some(n)
    }
}

/// Drives the connection until the worker is done or can only be woken by something new.
fn rest(p: &mut Peer, wk: &Worker, gate: &Gate, beat: fn()) {
    let mut seen = None;
    let mut k = 0u64;
    loop {
        if wk.done.load(SeqCst) || gate.stop.load(SeqCst) {
            p.pump();
            return;
        }
        let before = wk.idle();
        p.pump();
        if before.is_some() && before == seen && wk.idle() == before {
            return;
        }
        seen = before;
        k += 1;
        if k % 64 == 0 {
            beat();
            std::thread::yield_now()
        }
    }
}

/// A writer and the credit it is granted.
pub fn credit(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    let mut cfg = Config::default();
    cfg.set_split_send_size(if env.small { 1 << 18 } else { rng.pick(&[16 * 1024usize, 1000, 100]) });
    let split_max = if env.small { 60_000 } else { rng.pick(&[50u64, 1000, 20_000]) };
    if let Some(f) = env.set {
        f(T0)
    }
    let mut p = Peer::new(cfg, rng.pct(50));
    p.pump();
    let st = match p.conn.poll_new_outbound(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(Ok(s)) => s,
        _ => {
            out.finds.push((&["C14"], "no stream could be opened".into()));
            return out;
        }
    };
    let id = st.id().to_string().parse::<u32>().unwrap_or(0);
    let gate = Gate::new(1);
    let fail = Mutex::new(vec![]);
    let wk = Worker::default();
    let sd = rng.u64();
    let how = rng.below(4);
    let n = if env.small { 5 } else { rng.pick(&[50u64, 400, 2000]) };
    let step = rng.pick(&[3u64, 100, 2000]);
    let mut total = CREDIT;
    let mut sent: u64 = 0;
    std::thread::scope(|sc| {
        let (gate, fail, wk) = (&gate, &fail, &wk);
        sc.spawn(move || {
            (env.enter)(sd);
            if let Some(f) = env.set {
                f(T0)
            }
            guard(gate, fail, || {
                let mut st = st;
                let mut r = Rng::new(sd);
                let w: Waker = wk.bell.clone().into();
                let mut buf = vec![0; split_max as usize];
                while !gate.stop.load(SeqCst) {
                    let at = wk.count.load(SeqCst);
                    let n = r.range(1, split_max) as usize;
                    fill(sd, at, &mut buf[..n]);
                    wk.bell.woken.store(false, SeqCst);
                    match Pin::new(&mut st).poll_write(&mut Context::from_waker(&w), &buf[..n]) {
                        Poll::Ready(Ok(k)) => {
                            wk.count.fetch_add(k as u64, SeqCst);
                        }
                        Poll::Ready(Err(_)) => {
                            wk.err.store(true, SeqCst);
                            break;
                        }
                        Poll::Pending => {
                            if !wk.wait(gate) {
                                break;
                            }
                        }
                    }
                }
                wk.done.store(true, SeqCst);
            })
        });
        guard(gate, fail, || {
            let mut judge = |p: &mut Peer, out: &mut Out| {
                for f in p.take() {
                    if f.h.ty == DATA && f.h.id == id {
                        if let Some(i) = check(sd, sent, &f.body) {
                            out.finds.push((&["C01", "C11"], format!("byte {} sent differs from what was written", sent + i as u64)));
                        }
                        sent += f.body.len() as u64;
                    }
                }
                sent
            };
            for i in 0..n {
                if i % 16 == 0 {
                    (env.beat)()
                }
                for _ in 0..rng.pick(&[1u64, 1, 1, 3]) {
                    let c = if rng.pct(10) { 0 } else { rng.range(1, step) };
                    p.put(&frame(WIN, if i == 0 { ACK } else { 0 }, id, c as u32));
                    total += c;
                }
                if rng.pct(20) {
                    spin(rng.below(200))
                }
                p.pump();
                if rng.pct(10) {
                    rest(&mut p, wk, gate, env.beat);
                    if gate.stop.load(SeqCst) {
                        break;
                    }
                    let a = wk.count.load(SeqCst);
                    out.hit("credit_rests", 1);
                    if a != total {
                        out.finds.push((&["C04", "C03"], format!("the writer is suspended at {a} bytes with credit for {total}")));
                        break;
                    }
                }
                if judge(&mut p, &mut out) > total {
                    out.finds.push((&["C04"], format!("more than {total} bytes were sent")));
                }
            }
            rest(&mut p, wk, gate, env.beat);
            let a = wk.count.load(SeqCst);
            if out.finds.is_empty() && !gate.stop.load(SeqCst) && (a != total || judge(&mut p, &mut out) != a) {
                let s = judge(&mut p, &mut out);
                out.finds.push((&["C04", "C03"], format!("the writer is suspended at {a} bytes ({s} sent) with credit for {total}")));
            }
            out.hit("credit_grants", n);
            out.hit("credit_waits", wk.waits.load(SeqCst));
            out.mix(wk.waits.load(SeqCst));
            // The end must wake the writer.
            if out.finds.is_empty() {
                match how {
                    0 => p.put(&frame(DATA, RST, id, 0)),
                    1 => p.put(&frame(GOAWAY, 0, 0, 0)),
                    2 => {
                        let _ = p.conn.poll_close(&mut Context::from_waker(Waker::noop()));
                    }
                    _ => {
                        let q = Peer::new(Config::default(), true);
                        drop(std::mem::replace(&mut p, q));
                    }
                }
                rest(&mut p, wk, gate, env.beat);
                if !gate.stop.load(SeqCst) && !wk.done.load(SeqCst) {
                    out.finds.push((&["C03", "C17", "C16"], format!("the writer is not woken at the end ({how})")));
                }
                out.hit("credit_ends", 1);
            }
            gate.stop.store(true, SeqCst);
        });
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}

/// A reader and the data that arrives.
pub fn data_in(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    if let Some(f) = env.set {
        f(T0)
    }
    let client = rng.pct(50);
    let mut p = Peer::new(Config::default(), client);
    let id: u32 = if client { 2 } else { 1 };
    p.put(&frame(WIN, SYN, id, 0));
    p.pump();
    let Some(st) = p.inbound.pop() else {
        out.finds.push((&["C14"], "no stream came in".into()));
        return out;
    };
    let gate = Gate::new(1);
    let fail = Mutex::new(vec![]);
    let wk = Worker::default();
    let sd = rng.u64();
    let packets = rng.pct(40);
    let max = if env.small { 3000 } else { rng.pick(&[10u64, 3000, 70_000]) };
    let goal = if env.small { 2000 } else { rng.pick(&[50_000u64, 600_000, 2_000_000]) }.min(max * 4000);
    let flen = if env.small { 100 } else { rng.pick(&[5u64, 500, 20_000, 200_000]) };
    let goal = goal.min(flen * 2000);
    let how = rng.below(4);
    std::thread::scope(|sc| {
        let (gate, fail, wk) = (&gate, &fail, &wk);
        let bad = Arc::new(AtomicU64::new(u64::MAX));
        let bad2 = bad.clone();
        sc.spawn(move || {
            (env.enter)(sd);
            if let Some(f) = env.set {
                f(T0)
            }
            guard(gate, fail, || {
                let mut st = st;
                let mut r = Rng::new(sd ^ 1);
                let w: Waker = wk.bell.clone().into();
                let mut buf = vec![0; max as usize];
                while !gate.stop.load(SeqCst) {
                    let at = wk.count.load(SeqCst);
                    wk.bell.woken.store(false, SeqCst);
                    let mut cx = Context::from_waker(&w);
                    let res = if packets {
                        match Pin::new(&mut st).poll_next(&mut cx) {
                            Poll::Pending => Poll::Pending,
                            Poll::Ready(None) => Poll::Ready(Ok(0)),
                            Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
                            Poll::Ready(Some(Ok(b))) => {
                                if let Some(i) = check(sd, at, b.as_ref()) {
                                    bad2.fetch_min(at + i as u64, SeqCst);
                                }
                                let n = b.as_ref().len();
                                if n == 0 {
                                    continue;
                                }
                                Poll::Ready(Ok(n))
                            }
                        }
                    } else {
                        let n = r.range(1, max) as usize;
                        Pin::new(&mut st).poll_read(&mut cx, &mut buf[..n]).map(|x| {
                            x.map(|k| {
                                if let Some(i) = check(sd, at, &buf[..k]) {
                                    bad2.fetch_min(at + i as u64, SeqCst);
                                }
                                k
                            })
                        })
                    };
                    match res {
                        Poll::Ready(Ok(0)) => break,
                        Poll::Ready(Ok(k)) => {
                            wk.count.fetch_add(k as u64, SeqCst);
                        }
                        Poll::Ready(Err(_)) => {
                            wk.err.store(true, SeqCst);
                            break;
                        }
                        Poll::Pending => {
                            if !wk.wait(gate) {
                                break;
                            }
                        }
                    }
                }
                wk.done.store(true, SeqCst);
            })
        });
        guard(gate, fail, || {
            let (mut fed, mut granted) = (0u64, CREDIT);
            let mut n = 0u64;
            while fed < goal && out.finds.is_empty() && !gate.stop.load(SeqCst) {
                n += 1;
                if n % 16 == 0 {
                    (env.beat)()
                }
                let room = granted - fed;
                if room == 0 {
                    rest(&mut p, wk, gate, env.beat);
                } else {
                    let k = rng.range(1, flen.min(room).min(goal - fed));
                    let mut b = vec![0; k as usize];
                    fill(sd, fed, &mut b);
                    fed += k;
                    let fin = if fed == goal && how == 0 { FIN } else { 0 };
                    p.put(&data(fin, id, &b));
                    if rng.pct(20) {
                        spin(rng.below(200))
                    }
                    p.pump();
                    if rng.pct(10) {
                        rest(&mut p, wk, gate, env.beat);
                        out.hit("data_rests", 1);
                        let a = wk.count.load(SeqCst);
                        if a != fed && !gate.stop.load(SeqCst) {
                            out.finds.push((&["C03", "C01", "C02"], format!("the reader waits at {a} of {fed} bytes")));
                        }
                    }
                }
                for f in p.take() {
                    if f.h.ty == WIN && f.h.id == id {
                        granted += f.h.len as u64
                    }
                }
                if let Some(e) = &p.ended {
                    out.finds.push((&["C07", "C05", "C17"], format!("the connection ended ({e}) with {fed} of {granted} bytes sent")));
                    break;
                }
                if room == 0 && granted == fed && !gate.stop.load(SeqCst) {
                    out.finds.push((&["C05", "C03"], format!("a drained reader leaves no credit at {fed}")));
                }
                if granted > CREDIT + wk.count.load(SeqCst) {
                    out.finds.push((&["C05"], format!("{granted} granted with {} read", wk.count.load(SeqCst))));
                }
            }
            if out.finds.is_empty() && !gate.stop.load(SeqCst) {
                match how {
                    0 => {}
                    1 => p.put(&frame(WIN, FIN, id, 0)),
                    2 => p.put(&frame(DATA, RST, id, 0)),
                    _ => p.put(&frame(GOAWAY, 0, 0, 0)),
                }
                rest(&mut p, wk, gate, env.beat);
                let a = wk.count.load(SeqCst);
                if gate.stop.load(SeqCst) {
                } else if !wk.done.load(SeqCst) {
                    out.finds.push((&["C03", "C02", "C17"], format!("the reader is not woken at the end ({how}), at {a} of {fed}")));
                } else if wk.err.load(SeqCst) || a != fed {
                    out.finds.push((&["C02", "C01"], format!("the reader ends at {a} of {fed} bytes ({how})")));
                }
                out.hit("data_ends", 1);
            }
            if bad.load(SeqCst) != u64::MAX {
                out.finds.push((&["C01"], format!("byte {} differs from what was sent", bad.load(SeqCst))));
            }
            out.hit("data_frames", n);
            out.hit("data_bytes", fed);
            out.hit("data_waits", wk.waits.load(SeqCst));
            out.mix(wk.waits.load(SeqCst));
            gate.stop.store(true, SeqCst);
        });
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}

/// What a worker does with its stream while something arrives.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Read,
    Packets,
    Write,
    Close,
    Drop,
}

/// What happens at the same time.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Event {
    DataFin,
    WinFin,
    Reset,
    More,
    GoAway,
    Garbage,
    LocalClose,
    LocalDrop,
}

impl Event {
    fn ends_all(self) -> bool {
        matches!(self, Event::GoAway | Event::Garbage | Event::LocalClose | Event::LocalDrop)
    }
}

struct Shot {
    st: Option<Stream>,
    op: Op,
    spin: u64,
    seed: u64,
}

/// A stream is read, written, closed or dropped at the instant at which it, or the connection, ends.
pub fn end(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    if let Some(f) = env.set {
        f(T0)
    }
    let gate = Gate::new(2);
    let fail = Mutex::new(vec![]);
    let wk = Worker::default();
    let slot: Mutex<Option<Shot>> = Mutex::new(None);
    let rounds = if env.small { 12 } else { 150 };
    let most = rng.range(1, 3) as usize;
    // Unread data outlives the connection.
    let keep = rng.pct(75);
    let fresh = |client: bool| {
        let mut cfg = Config::default();
        cfg.set_split_send_size(CREDIT as usize);
        cfg.set_max_num_streams(most);
        cfg.set_max_connection_receive_window(None);
        cfg.set_read_after_close(keep);
        let mut p = Peer::new(cfg, client);
        p.pump();
        p.take();
        p
    };
    let full = vec![7u8; CREDIT as usize];
    std::thread::scope(|sc| {
        let (gate, fail, wk, slot) = (&gate, &fail, &wk, &slot);
        sc.spawn(move || {
            (env.enter)(crate::prng::mix(seed ^ 1));
            if let Some(f) = env.set {
                f(T0)
            }
            guard(gate, fail, || {
                let w: Waker = wk.bell.clone().into();
                let mut buf = vec![0; 300];
                loop {
                    if !gate.meet() {
                        return;
                    }
                    let Some(mut j) = slot.lock().unwrap().take() else { return };
                    if !gate.meet() {
                        return;
                    }
                    spin(j.spin);
                    loop {
                        wk.bell.woken.store(false, SeqCst);
                        let mut cx = Context::from_waker(&w);
                        let at = wk.count.load(SeqCst);
                        let r = match (j.op, j.st.as_mut()) {
                            (Op::Read, Some(st)) => match Pin::new(st).poll_read(&mut cx, &mut buf) {
                                Poll::Ready(Ok(0)) => Some(false),
                                Poll::Ready(Ok(k)) => {
                                    if check(j.seed, at, &buf[..k]).is_some() {
                                        wk.err.store(true, SeqCst)
                                    }
                                    wk.count.fetch_add(k as u64, SeqCst);
                                    continue;
                                }
                                Poll::Ready(Err(_)) => Some(true),
                                Poll::Pending => None,
                            },
                            (Op::Packets, Some(st)) => match Pin::new(st).poll_next(&mut cx) {
                                Poll::Ready(None) => Some(false),
                                Poll::Ready(Some(Ok(b))) => {
                                    if check(j.seed, at, b.as_ref()).is_some() {
                                        wk.err.store(true, SeqCst)
                                    }
                                    wk.count.fetch_add(b.as_ref().len() as u64, SeqCst);
                                    continue;
                                }
                                Poll::Ready(Some(Err(_))) => Some(true),
                                Poll::Pending => None,
                            },
                            (Op::Write, Some(st)) => match Pin::new(st).poll_write(&mut cx, &[1]) {
                                Poll::Ready(r) => Some(r.is_err()),
                                Poll::Pending => None,
                            },
                            (Op::Close, Some(st)) => match Pin::new(st).poll_close(&mut cx) {
                                Poll::Ready(r) => Some(r.is_err()),
                                Poll::Pending => None,
                            },
                            _ => {
                                j.st = None;
                                Some(false)
                            }
                        };
                        match r {
                            Some(e) => {
                                if e {
                                    wk.err.store(true, SeqCst)
                                }
                                break;
                            }
                            None => {
                                if !wk.wait(gate) {
                                    return;
                                }
                            }
                        }
                    }
                    *slot.lock().unwrap() = Some(j);
                    wk.done.store(true, SeqCst);
                }
            })
        });
        guard(gate, fail, || {
            let mut client = rng.pct(50);
            let mut p = fresh(client);
            let mut next: u32 = if client { 2 } else { 1 };
            for _ in 0..rounds {
                (env.beat)();
                if p.ended.is_some() || next > 1 << 30 {
                    client = rng.pct(50);
                    p = fresh(client);
                    next = if client { 2 } else { 1 };
                }
                let op = rng.pick(&[Op::Read, Op::Read, Op::Packets, Op::Write, Op::Write, Op::Close, Op::Close, Op::Drop]);
                let ev = rng.pick(&[Event::DataFin, Event::WinFin, Event::Reset, Event::DataFin, Event::Reset, Event::More, Event::GoAway, Event::Garbage, Event::LocalClose, Event::LocalDrop]);
                // Ours or theirs, known to both sides.
                let local = rng.pct(40);
                let (id, mut st) = if local {
                    let s = match p.conn.poll_new_outbound(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(Ok(s)) => s,
                        r => {
                            out.finds.push((&["C14", "C19"], format!("no stream can be opened although all others are gone: {}", match r { Poll::Pending => "pending".into(), Poll::Ready(Err(e)) => format!("{e}"), _ => String::new() })));
                            break;
                        }
                    };
                    (s.id().to_string().parse::<u32>().unwrap_or(0), s)
                } else {
                    p.put(&frame(WIN, SYN, next, 0));
                    p.pump();
                    let Some(s) = p.inbound.pop() else {
                        out.finds.push((&["C14", "C19"], "an inbound stream is refused although all others are gone".into()));
                        break;
                    };
                    next += 2;
                    (next - 2, s)
                };
                if op == Op::Write || local {
                    let n = if op == Op::Write { CREDIT as usize } else { 1 };
                    let r = Pin::new(&mut st).poll_write(&mut Context::from_waker(Waker::noop()), &full[..n]);
                    if !matches!(r, Poll::Ready(Ok(k)) if k == n) {
                        out.finds.push((&["C04"], format!("a write of {n} bytes on a new stream is not accepted")));
                        break;
                    }
                    p.pump();
                    if local {
                        p.put(&frame(WIN, ACK, id, 0));
                        p.pump();
                    }
                }
                let sd = rng.u64();
                let mut fed = 0u64;
                let mut feed = |p: &Peer, fed: &mut u64, flags: u16, n: u64| {
                    let mut b = vec![0; n as usize];
                    fill(sd, *fed, &mut b);
                    *fed += n;
                    p.put(&data(flags, id, &b));
                };
                if rng.pct(50) {
                    feed(&p, &mut fed, 0, rng.range(1, 400));
                    p.pump();
                }
                p.take();
                wk.done.store(false, SeqCst);
                wk.err.store(false, SeqCst);
                wk.count.store(0, SeqCst);
                let s = rng.pick(&[0u64, 20, 100, 400]);
                let mine = rng.pick(&[0u64, 20, 100, 400]);
                *slot.lock().unwrap() = Some(Shot { st: Some(st), op, spin: if s == 0 { 0 } else { rng.below(s) }, seed: sd });
                match ev {
                    Event::DataFin => feed(&p, &mut fed, FIN, rng.pick(&[0u64, 0, 1, 50])),
                    Event::WinFin => p.put(&frame(WIN, FIN, id, 0)),
                    Event::Reset => p.put(&frame(rng.pick(&[WIN, DATA]), RST, id, 0)),
                    Event::More if op == Op::Write => p.put(&frame(WIN, 0, id, 1)),
                    Event::More => feed(&p, &mut fed, 0, rng.range(1, 50)),
                    Event::GoAway => p.put(&frame(GOAWAY, 0, 0, 0)),
                    Event::Garbage => p.put(&[77; 12]),
                    _ => {}
                }
                let mine = if mine == 0 { 0 } else { rng.below(mine) };
                if !gate.meet() || !gate.meet() {
                    break;
                }
                spin(mine);
                match ev {
                    Event::LocalClose => {
                        let _ = p.conn.poll_close(&mut Context::from_waker(Waker::noop()));
                        p.pump();
                    }
                    Event::LocalDrop => {
                        let q = Peer::new(Config::default(), client);
                        let old = std::mem::replace(&mut p, q);
                        p.ended = Some("dropped".into());
                        drop(old);
                    }
                    _ => p.pump(),
                }
                rest(&mut p, wk, gate, env.beat);
                if gate.stop.load(SeqCst) {
                    break;
                }
                let what = format!("{op:?} at the same time as {ev:?}");
                out.hit("end_rounds", 1);
                out.mix((op as u64) << 8 | (ev as u64) << 4 | wk.waits.load(SeqCst) & 1);
                // Those that have something to wait for.
                let waits = match op {
                    Op::Read | Op::Packets => ev == Event::More,
                    Op::Write => matches!(ev, Event::DataFin | Event::WinFin),
                    _ => false,
                };
                if waits {
                    if wk.done.load(SeqCst) {
                        out.finds.push((&["C02", "C03", "C04"], format!("{what}: finished although there is nothing to finish it (error: {})", wk.err.load(SeqCst))));
                        break;
                    }
                    if op == Op::Write {
                        p.put(&frame(WIN, 0, id, 1))
                    } else {
                        p.put(&frame(WIN, FIN, id, 0))
                    }
                    rest(&mut p, wk, gate, env.beat);
                    if gate.stop.load(SeqCst) {
                        break;
                    }
                }
                if !wk.done.load(SeqCst) {
                    out.finds.push((&["C03", "C02", "C17", "C16"], format!("{what}: never finished")));
                    break;
                }
                let err = wk.err.load(SeqCst);
                match op {
                    Op::Read | Op::Packets => {
                        let a = wk.count.load(SeqCst);
                        if a > fed || a < fed && (keep || !ev.ends_all()) || err {
                            out.finds.push((&["C02", "C01", "C24"], format!("{what}: {a} of {fed} bytes were read (error: {err})")));
                        }
                    }
                    Op::Write => {
                        let dead = ev == Event::Reset || ev.ends_all();
                        if err != dead {
                            out.finds.push((&["C03", "C04", "C19"], format!("{what}: error: {err}")));
                        }
                    }
                    Op::Close if err && !ev.ends_all() && ev != Event::Reset => out.finds.push((&["C02"], format!("{what}: the close failed"))),
                    _ => {}
                }
                let mut j = slot.lock().unwrap().take().unwrap();
                let (mut fins, mut rsts) = (0, 0);
                let mut look = |p: &mut Peer| {
                    p.pump();
                    for f in p.take() {
                        if f.h.id == id {
                            fins += (f.h.flags & FIN != 0) as u32;
                            rsts += (f.h.flags & RST != 0) as u32;
                        }
                    }
                    (fins, rsts)
                };
                if p.ended.is_none() {
                    let (f, r) = look(&mut p);
                    let ok = match (op, ev) {
                        (Op::Close, Event::Reset) => f <= 1 && r == 0,
                        (Op::Close, _) => f == 1 && r == 0,
                        (Op::Drop, Event::Reset) => f == 0 && r <= 1,
                        (Op::Drop, Event::DataFin | Event::WinFin) => f + r == 1,
                        (Op::Drop, _) => f == 0 && r >= 1,
                        _ => f + r == 0,
                    };
                    if op == Op::Drop && matches!(ev, Event::DataFin | Event::WinFin) {
                        out.hit(if f > 0 { "end_event_first" } else { "end_drop_first" }, 1);
                    }
                    if !ok {
                        out.finds.push((&["C12", "C19", "C02"], format!("{what}: {f} FIN and {r} RST were sent")));
                    }
                    j.st = None;
                    let (f2, r2) = look(&mut p);
                    let ok = match (op, ev) {
                        (Op::Drop, _) => true,
                        (_, Event::Reset) => (f2, r2) == (f, r),
                        (Op::Close, Event::DataFin | Event::WinFin) => (f2, r2) == (f, r),
                        // Closed by the peer and not by us, or the other way around.
                        (_, Event::DataFin | Event::WinFin) => f2 + r2 == 1,
                        (Op::Close, _) => f2 == 1 && r2 <= 1,
                        _ => f2 + r2 == 1,
                    };
                    if !ok {
                        out.finds.push((&["C12", "C19", "C02"], format!("{what}, then dropped: {f2} FIN and {r2} RST were sent")));
                    }
                    if let Some(e) = &p.ended {
                        out.finds.push((&["C19", "C17"], format!("{what}: the connection ended ({e})")));
                    }
                } else if !ev.ends_all() {
                    let e = p.ended.clone().unwrap();
                    out.finds.push((&["C19", "C17", "C09"], format!("{what}: the connection ended ({e})")));
                }
                if !out.finds.is_empty() {
                    break;
                }
            }
            out.hit("end_waits", wk.waits.load(SeqCst));
        });
        if let Ok(mut g) = slot.lock() {
            g.take();
        }
        gate.stop.store(true, SeqCst);
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}

/// Streams are written, closed and dropped while the connection is closed: whatever succeeded has happened before, so
/// it is on the wire, in front of the go-away.
pub fn goodbye(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    if let Some(f) = env.set {
        f(T0)
    }
    let k = rng.pick(&[1usize, 1, 2, 3]);
    let gate = Gate::new(k + 1);
    let fail = Mutex::new(vec![]);
    // Stream, seed, spin; then bytes accepted, whether closed.
    type Go = Option<(Stream, u64, u64, bool)>;
    let slots: Vec<Mutex<(Go, u64, bool)>> = (0..k).map(|_| Mutex::new((None, 0, false))).collect();
    let done = AtomicUsize::new(0);
    let rounds = if env.small { 6 } else { 100 };
    std::thread::scope(|sc| {
        for i in 0..k {
            let (gate, slot, fail, done) = (&gate, &slots[i], &fail, &done);
            sc.spawn(move || {
                (env.enter)(crate::prng::mix(seed ^ (i as u64 + 1)));
                if let Some(f) = env.set {
                    f(T0)
                }
                guard(gate, fail, || loop {
                    if !gate.meet() {
                        return;
                    }
                    let Some((mut st, sd, sp, fin)) = slot.lock().unwrap().0.take() else { return };
                    if !gate.meet() {
                        return;
                    }
                    spin(sp);
                    let mut cx = Context::from_waker(Waker::noop());
                    let (mut n, mut closed) = (0u64, false);
                    let mut b = [0; 40];
                    let mut quiet = 0u32;
                    loop {
                        let m = 1 + (crate::prng::mix(sd ^ n) % 40) as usize;
                        fill(sd, n, &mut b[..m]);
                        if fin && n > 200 {
                            match Pin::new(&mut st).poll_close(&mut cx) {
                                Poll::Ready(r) => {
                                    closed = r.is_ok();
                                    break;
                                }
                                Poll::Pending => {}
                            }
                        } else {
                            match Pin::new(&mut st).poll_write(&mut cx, &b[..m]) {
                                Poll::Ready(Ok(k)) => {
                                    n += k as u64;
                                    quiet = 0;
                                    continue;
                                }
                                Poll::Ready(Err(_)) => break,
                                Poll::Pending => {}
                            }
                        }
                        quiet += 1;
                        if gate.stop.load(SeqCst) {
                            break;
                        }
                        if quiet % 64 == 0 || cfg!(miri) {
                            std::thread::yield_now()
                        }
                    }
                    {
                        let mut g = slot.lock().unwrap();
                        g.1 = n;
                        g.2 = closed;
                    }
                    done.fetch_add(1, SeqCst);
                    if !gate.meet() {
                        return;
                    }
                })
            });
        }
        guard(&gate, &fail, || {
            for _ in 0..rounds {
                (env.beat)();
                let client = rng.pct(50);
                let mut p = Peer::new(Config::default(), client);
                p.pump();
                let mut info = Vec::new();
                for (i, s) in slots.iter().enumerate() {
                    let id = if client { 2 } else { 1 } + 2 * i as u32;
                    p.put(&frame(WIN, SYN, id, 1 << 20));
                    p.pump();
                    let Some(st) = p.inbound.pop() else {
                        out.finds.push((&["C14"], "an inbound stream is refused".into()));
                        break;
                    };
                    let sd = rng.u64();
                    let sp = rng.pick(&[0u64, 20, 200]);
                    *s.lock().unwrap() = (Some((st, sd, if sp == 0 { 0 } else { rng.below(sp) }, rng.pct(40))), 0, false);
                    info.push((id, sd));
                }
                if !out.finds.is_empty() {
                    break;
                }
                p.take();
                done.store(0, SeqCst);
                if !gate.meet() || !gate.meet() {
                    break;
                }
                for _ in 0..rng.pick(&[0u64, 1, 5, 20]) {
                    spin(rng.below(200));
                    p.pump();
                }
                spin(rng.below(300));
                let mut n = 0u64;
                let mut over = false;
                let ok = loop {
                    match p.conn.poll_close(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(r) => {
                            if over {
                                break r.is_ok();
                            }
                            // Writers that were never refused have their chance now.
                            if !r.is_ok() {
                                break false;
                            }
                            over = true;
                        }
                        Poll::Pending => {}
                    }
                    n += 1;
                    if n > 20_000_000 {
                        out.finds.push((&["C16", "C19"], "closing the connection does not end".into()));
                        gate.stop.store(true, SeqCst);
                    }
                    if n % 64 == 0 {
                        (env.beat)();
                        std::thread::yield_now()
                    }
                    if gate.stop.load(SeqCst) {
                        break true;
                    }
                };
                if !gate.meet() {
                    break;
                }
                p.pump();
                if !ok {
                    out.finds.push((&["C16"], "closing failed".into()));
                }
                let fr = p.take();
                let bye = fr.iter().position(|f| f.h.ty == GOAWAY);
                if bye != fr.len().checked_sub(1) {
                    out.finds.push((&["C16"], "the go-away is not the last frame".into()));
                }
                for (i, (id, sd)) in info.iter().enumerate() {
                    let (_, n, closed) = *slots[i].lock().unwrap();
                    let (mut sent, mut fins) = (0u64, 0);
                    for f in fr.iter().filter(|f| f.h.id == *id) {
                        if f.h.ty == DATA {
                            if let Some(k) = check(*sd, sent, &f.body) {
                                out.finds.push((&["C01", "C11", "C16"], format!("byte {} sent differs from what was written", sent + k as u64)));
                            }
                            sent += f.body.len() as u64;
                        }
                        fins += (f.h.flags & FIN != 0) as u32;
                    }
                    if sent != n {
                        out.finds.push((&["C16", "C23"], format!("{n} bytes were accepted of a stream, {sent} sent before the go-away")));
                    }
                    // (Closing what the connection has closed already succeeds as well.)
                    if fins > closed as u32 {
                        out.finds.push((&["C16", "C12", "C23"], format!("the close of a stream succeeded: {closed}, FIN frames sent: {fins}")));
                    }
                    out.hit("goodbye_bytes", sent);
                    out.hit("goodbye_closed", closed as u64);
                    out.mix(n);
                }
                out.hit("goodbye_rounds", 1);
                if !out.finds.is_empty() {
                    break;
                }
            }
        });
        for s in &slots {
            if let Ok(mut g) = s.lock() {
                g.0 = None;
            }
        }
        if fail.lock().unwrap().is_empty() && !gate.stop.load(SeqCst) && out.finds.is_empty() {
            gate.meet();
        }
        gate.stop.store(true, SeqCst);
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Write(u32),
    Read,
    Packet,
    Close,
    Ask,
    Drop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hit {
    Data(u32, bool),
    Fin,
    Reset(u8),
    Credit(u32),
    Ack,
}

/// What a thread has done to its stream.
struct Turn {
    st: Option<Stream>,
    seed: u64,
    spin: u64,
    ops: Vec<Do>,
    /// Bytes written and read.
    tx: u64,
    rx: u64,
    closed: bool,
    eof: bool,
    /// A write, or anything else, has failed.
    refused: bool,
    failed: Option<String>,
    garbled: bool,
    /// The last read is pending, and this has been woken since.
    waits: Option<Arc<Bell>>,
}

fn turn(j: &mut Turn) {
    let noop = Waker::noop();
    for op in std::mem::take(&mut j.ops) {
        let Some(st) = j.st.as_mut() else { return };
        match op {
            Do::Write(n) => {
                let mut b = vec![0; n as usize];
                fill(!j.seed, j.tx, &mut b);
                match Pin::new(st).poll_write(&mut Context::from_waker(noop), &b) {
                    Poll::Ready(Ok(k)) => j.tx += k as u64,
                    Poll::Ready(Err(_)) => j.refused = true,
                    Poll::Pending => j.failed = Some("a write is pending with credit left and an empty queue".into()),
                }
            }
            Do::Read | Do::Packet => {
                let bell = Arc::new(Bell::default());
                let w: Waker = bell.clone().into();
                let mut b = vec![0; 70_000];
                loop {
                    let mut cx = Context::from_waker(&w);
                    let r = if op == Do::Packet {
                        match Pin::new(&mut *st).poll_next(&mut cx) {
                            Poll::Ready(None) => Poll::Ready(Ok(None)),
                            Poll::Ready(Some(Ok(x))) => Poll::Ready(Ok(Some(x.as_ref().to_vec()))),
                            Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
                            Poll::Pending => Poll::Pending,
                        }
                    } else {
                        Pin::new(&mut *st).poll_read(&mut cx, &mut b).map(|r| r.map(|k| (k > 0).then(|| b[..k].to_vec())))
                    };
                    match r {
                        Poll::Ready(Ok(None)) => {
                            j.eof = true;
                            break;
                        }
                        Poll::Ready(Ok(Some(x))) => {
                            if check(j.seed, j.rx, &x).is_some() || j.eof {
                                j.garbled = true
                            }
                            j.rx += x.len() as u64;
                        }
                        Poll::Ready(Err(e)) => {
                            j.failed = Some(format!("a read fails: {e}"));
                            break;
                        }
                        Poll::Pending => {
                            j.waits = Some(bell);
                            break;
                        }
                    }
                }
            }
            Do::Close => match Pin::new(st).poll_close(&mut Context::from_waker(noop)) {
                Poll::Ready(Ok(())) => j.closed = true,
                Poll::Ready(Err(e)) => j.failed = Some(format!("closing fails: {e}")),
                Poll::Pending => j.failed = Some("closing is pending with an empty queue".into()),
            },
            Do::Ask => {
                // Nothing comes back to life.
                let a = (st.is_closed(), st.is_write_closed(), st.is_pending_ack());
                let b = (st.is_closed(), st.is_write_closed(), st.is_pending_ack());
                if a.0 && (!b.0 || b.1 || b.2) || a.1 && b.2 || !a.2 && b.2 {
                    j.failed = Some(format!("closed, closed for writing, pending: {a:?}, then {b:?}"))
                }
            }
            Do::Drop => j.st = None,
        }
    }
}

/// Streams are used in other threads while frames for them arrive; the connection lives on. In the end the state is
/// what follows from both, whatever their order was.
pub fn turns(seed: u64, env: &Env) -> Out {
    let mut rng = Rng::new(seed);
    let mut out = Out::default();
    if let Some(f) = env.set {
        f(T0)
    }
    let k = rng.pick(&[1usize, 1, 2, 3]);
    let gate = Gate::new(k + 1);
    let fail = Mutex::new(vec![]);
    let slots: Vec<Mutex<Option<Turn>>> = (0..k).map(|_| Mutex::new(None)).collect();
    let rounds = if env.small { 12 } else { 150 };
    let client = rng.pct(50);
    let mut cfg = Config::default();
    cfg.set_max_num_streams(k);
    cfg.set_max_connection_receive_window(None);
    std::thread::scope(|sc| {
        for i in 0..k {
            let (gate, slot, fail) = (&gate, &slots[i], &fail);
            sc.spawn(move || {
                (env.enter)(crate::prng::mix(seed ^ (i as u64 + 1)));
                if let Some(f) = env.set {
                    f(T0)
                }
                guard(gate, fail, || loop {
                    if !gate.meet() {
                        return;
                    }
                    let Some(mut j) = slot.lock().unwrap().take() else { return };
                    if !gate.meet() {
                        return;
                    }
                    spin(j.spin);
                    turn(&mut j);
                    *slot.lock().unwrap() = Some(j);
                    if !gate.meet() {
                        return;
                    }
                })
            });
        }
        guard(&gate, &fail, || {
            let mut p = Peer::new(cfg, client);
            p.pump();
            let mut next: u32 = if client { 2 } else { 1 };
            'rounds: for _ in 0..rounds {
                (env.beat)();
                p.take();
                struct Plan {
                    id: u32,
                    ours: bool,
                    seed: u64,
                    acked: bool,
                    hits: Vec<Hit>,
                    ops: Vec<Do>,
                    /// Bytes the peer has sent.
                    sent: u64,
                }
                let mut plans: Vec<Plan> = vec![];
                for s in &slots {
                    let ours = rng.pct(50);
                    let sd = rng.u64();
                    let (id, st) = if ours {
                        match p.conn.poll_new_outbound(&mut Context::from_waker(Waker::noop())) {
                            Poll::Ready(Ok(s)) => (s.id().to_string().parse::<u32>().unwrap_or(0), s),
                            r => {
                                let e = match r {
                                    Poll::Ready(Err(e)) => format!("{e}"),
                                    _ => "pending".into(),
                                };
                                out.finds.push((&["C14", "C19"], format!("no stream can be opened although all others are gone: {e}")));
                                break 'rounds;
                            }
                        }
                    } else {
                        p.put(&frame(WIN, SYN, next, 0));
                        p.pump();
                        let Some(s) = p.inbound.pop() else {
                            out.finds.push((&["C14", "C19"], "an inbound stream is refused although all others are gone".into()));
                            break 'rounds;
                        };
                        next += 2;
                        (next - 2, s)
                    };
                    let mut j = Turn {
                        st: Some(st),
                        seed: sd,
                        spin: 0,
                        ops: vec![],
                        tx: 0,
                        rx: 0,
                        closed: false,
                        eof: false,
                        refused: false,
                        failed: None,
                        garbled: false,
                        waits: None,
                    };
                    if ours {
                        // The peer has to know the stream.
                        j.ops = vec![Do::Write(rng.range(1, 30) as u32)];
                        turn(&mut j);
                        p.pump();
                    }
                    let sp = rng.pick(&[0u64, 30, 300, 1500]);
                    j.spin = if sp == 0 { 0 } else { rng.below(sp) };
                    // Sometimes data that makes the reader owe an update.
                    let mut acked = false;
                    let mut sent = 0;
                    if rng.pct(25) {
                        let mut b = vec![0; (CREDIT / 2) as usize];
                        fill(sd, 0, &mut b);
                        acked = ours && rng.pct(50);
                        p.put(&data(if acked { ACK } else { 0 }, id, &b));
                        p.pump();
                        sent = CREDIT / 2;
                    }
                    for _ in 0..rng.range(1, 3) {
                        let op = match rng.below(10) {
                            0..=2 => Do::Write(rng.range(1, 3000) as u32),
                            3 | 4 => Do::Read,
                            5 => Do::Packet,
                            6 | 7 => Do::Close,
                            8 => Do::Ask,
                            _ => Do::Drop,
                        };
                        j.ops.push(op);
                    }
                    let mut hits: Vec<Hit> = vec![];
                    for _ in 0..rng.range(1, 3) {
                        let fin = hits.iter().any(|h| matches!(h, Hit::Fin | Hit::Data(_, true)));
                        match rng.below(10) {
                            0..=2 if !fin => hits.push(Hit::Data(rng.range(1, 2000) as u32, rng.pct(40))),
                            3 | 4 if !fin => hits.push(Hit::Fin),
                            5 | 6 => hits.push(Hit::Credit(rng.range(1, 1000) as u32)),
                            7 | 8 if ours => hits.push(Hit::Ack),
                            9 => {
                                hits.push(Hit::Reset(if rng.pct(50) { WIN } else { DATA }));
                                break;
                            }
                            _ => {}
                        }
                    }
                    plans.push(Plan { id, ours, seed: sd, acked, hits, ops: j.ops.clone(), sent });
                    *s.lock().unwrap() = Some(j);
                }
                // All the frames, those of one stream in order.
                let mut line: Vec<(usize, Hit)> = vec![];
                for (i, q) in plans.iter().enumerate() {
                    for h in &q.hits {
                        line.push((i, *h))
                    }
                }
                for i in (1..line.len()).rev() {
                    let o = rng.below(i as u64 + 1) as usize;
                    let (a, b) = (line[i].0, line[o].0);
                    // (Exchanging the streams, not the frames, leaves each stream's order alone.)
                    line[i].0 = b;
                    line[o].0 = a;
                }
                let mut given: Vec<usize> = plans.iter().map(|_| 0).collect();
                for l in line.iter_mut() {
                    l.1 = plans[l.0].hits[given[l.0]];
                    given[l.0] += 1;
                }
                let one = rng.pct(30);
                if !gate.meet() || !gate.meet() {
                    break;
                }
                for (i, h) in line {
                    let q = &mut plans[i];
                    match h {
                        Hit::Data(n, fin) => {
                            let mut b = vec![0; n as usize];
                            fill(q.seed, q.sent, &mut b);
                            q.sent += n as u64;
                            p.put(&data(if fin { FIN } else { 0 }, q.id, &b));
                        }
                        Hit::Fin => p.put(&if rng.pct(50) { frame(WIN, FIN, q.id, 0) } else { data(FIN, q.id, &[]) }),
                        Hit::Reset(ty) => p.put(&frame(ty, RST, q.id, 0)),
                        Hit::Credit(n) => p.put(&frame(WIN, 0, q.id, n)),
                        Hit::Ack => {
                            q.acked = true;
                            p.put(&frame(WIN, ACK, q.id, 0))
                        }
                    }
                    if !one {
                        p.pump();
                        if rng.pct(40) {
                            spin(rng.below(300))
                        }
                    }
                }
                p.pump();
                if !gate.meet() {
                    break;
                }
                p.pump();
                out.hit("turns_rounds", 1);
                let mut fr = p.take();
                let (mut states, mut drops) = (0, 0);
                if let Some(e) = &p.ended {
                    out.finds.push((&["C08", "C17"], format!("the connection ended: {e}")));
                    break;
                }
                for (i, q) in plans.iter().enumerate() {
                    let id = q.id;
                    let Some(mut j) = slots[i].lock().unwrap().take() else { break 'rounds };
                    let fin = q.hits.iter().any(|h| matches!(h, Hit::Fin | Hit::Data(_, true)));
                    let rst = q.hits.iter().any(|h| matches!(h, Hit::Reset(_)));
                    let finds = &mut out.finds;
                    let mut bad = |props: Props, m: String| {
                        finds.push((props, format!("{m} (operations {:?}, frames {:?}, ours {})", q.ops, q.hits, q.ours)))
                    };
                    if let Some(m) = j.failed.take() {
                        bad(&["C02", "C03", "C12", "C25"], m)
                    }
                    if j.refused && !rst && !j.closed {
                        bad(&["C02", "C12"], "a write is refused".into())
                    }
                    if let Some(b) = j.waits.take() {
                        if (fin || rst || q.sent > j.rx) && !j.eof && !b.woken.load(SeqCst) && matches!(q.ops.iter().rev().find(|o| matches!(o, Do::Read | Do::Packet | Do::Drop)), Some(Do::Read | Do::Packet)) {
                            bad(&["C03"], format!("a reader of {} of {} bytes is not woken", j.rx, q.sent))
                        }
                    }
                    if j.eof && !fin && !rst {
                        bad(&["C02"], "end-of-stream out of nowhere".into())
                    }
                    // A frame with ACK is due to the peer, and it is the first one.
                    let sum = |fr: &[Frame]| {
                        let (mut tx, mut fins, mut rsts, mut acks, mut n, mut late, mut wrong) = (0u64, 0u32, 0u32, 0u32, 0u32, false, false);
                        for f in fr.iter().filter(|f| f.h.id == id && (f.h.ty == DATA || f.h.ty == WIN)) {
                            late |= fins + rsts > 0 && (f.h.ty == DATA || f.h.flags & RST != 0) || rsts > 0;
                            if f.h.ty == DATA {
                                wrong |= check(!q.seed, tx, &f.body).is_some();
                                tx += f.body.len() as u64
                            }
                            fins += (f.h.flags & FIN != 0) as u32;
                            rsts += (f.h.flags & RST != 0) as u32;
                            acks += (f.h.flags & ACK != 0) as u32;
                            wrong |= f.h.flags & ACK != 0 && n > 0;
                            n += 1
                        }
                        (tx, fins, rsts, acks, n, late, wrong)
                    };
                    if let Some(mut st) = j.st.take() {
                        let (tx, fins, rsts, acks, n, _, _) = sum(&fr);
                        let state = (st.is_closed(), st.is_write_closed(), st.is_pending_ack());
                        let closed = rst || fin && j.closed;
                        let acked = if q.ours { q.acked } else { acks > 0 };
                        let want = (closed, !closed && j.closed, !closed && !j.closed && !fin && !acked);
                        if state != want {
                            bad(&["C25", "C02", "C15"], format!("(closed, closed for writing, pending) is {state:?}, not {want:?}"))
                        }
                        if !rst && tx != j.tx {
                            bad(&["C11", "C12"], format!("{} bytes accepted, {tx} sent", j.tx))
                        }
                        if rsts > 0 || fins > j.closed as u32 || !rst && fins != j.closed as u32 {
                            bad(&["C12"], format!("FIN {fins} times, RST {rsts} times of a stream that is closed: {}", j.closed))
                        }
                        if !q.ours && !rst && n > 0 && acks != 1 {
                            bad(&["C12", "C15"], format!("{acks} acknowledgements in {n} frames"))
                        }
                        // What has arrived can be read, then the end or nothing.
                        j.ops = vec![Do::Read];
                        j.st = Some(st);
                        turn(&mut j);
                        if let Some(m) = j.failed.take() {
                            bad(&["C02"], m)
                        }
                        if j.rx != q.sent {
                            bad(&["C01", "C02", "C24"], format!("{} of {} bytes are read", j.rx, q.sent))
                        }
                        if j.eof != (fin || rst) {
                            bad(&["C02"], format!("end-of-stream: {}", j.eof))
                        }
                        // Writing is possible, or not.
                        st = match j.st.take() {
                            Some(s) => s,
                            None => continue,
                        };
                        let can = !rst && !j.closed;
                        let mut one = [0];
                        fill(!q.seed, j.tx, &mut one);
                        let r = Pin::new(&mut st).poll_write(&mut Context::from_waker(Waker::noop()), &one);
                        match r {
                            Poll::Ready(Ok(_)) if can => j.tx += 1,
                            Poll::Ready(Err(_)) if !can => {}
                            r => bad(&["C02", "C12", "C25"], format!("a write afterwards gives {r:?}")),
                        }
                        states += 1;
                        drop(st);
                    } else {
                        drops += 1;
                    }
                    p.pump();
                    fr.extend(p.take());
                    if j.garbled {
                        bad(&["C01", "C02"], "bytes that were not sent are read, or data after the end".into())
                    }
                    let (tx, fins, rsts, acks, n, late, wrong) = sum(&fr);
                    if wrong || late {
                        bad(&["C11", "C12"], "frames in the wrong order, or the wrong content".into())
                    }
                    if !rst && tx != j.tx {
                        bad(&["C11", "C12"], format!("{} bytes accepted, {tx} sent", j.tx))
                    }
                    if fins + rsts > 1 || !rst && fins + rsts != 1 || !rst && j.closed && fins != 1 || !rst && !fin && !j.closed && rsts != 1 {
                        bad(&["C12", "C19"], format!("FIN {fins} times, RST {rsts} times of a dropped stream that was closed: {}", j.closed))
                    }
                    if !q.ours && n > 0 && acks > 1 {
                        bad(&["C12"], format!("{acks} acknowledgements"))
                    }
                    out.mix(fins as u64 * 4 + rsts as u64 * 2 + j.eof as u64);
                }
                out.hit("turns_states", states);
                out.hit("turns_drops", drops);
                if !out.finds.is_empty() {
                    break;
                }
            }
        });
        for s in &slots {
            if let Ok(mut g) = s.lock() {
                *g = None;
            }
        }
        gate.stop.store(true, SeqCst);
    });
    for m in fail.into_inner().unwrap() {
        out.finds.push((&["*"], format!("panic: {m}")));
    }
    out
}
