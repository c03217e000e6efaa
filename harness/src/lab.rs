//! Lockstep driver: one or two connections driven step by step to quiescence by a script. A connection
//! or an operation is polled again only through the waker it was given last.
use crate::exec::Timers;
use crate::handle::H;
use crate::pipe::*;
use crate::prng::Rng;
use crate::vclock;
use crate::wire;
use crate::world::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use yamux::{Connection, Mode};

/// Rounds of polls without any event that are too many.
const IDLE: u64 = 400;

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

/// A poll slot: `ready()` says whether polling again is due.
#[derive(Default)]
pub struct Slot(Option<Arc<Flag>>);
impl Slot {
    pub fn due(&self) -> bool {
        self.0.as_ref().map_or(true, |f| f.0.load(SeqCst))
    }
    pub fn fresh(&mut self) -> Waker {
        let f = Arc::new(Flag(AtomicBool::new(false)));
        self.0 = Some(f.clone());
        f.into()
    }
    pub fn poke(&mut self) {
        self.0 = None
    }
}

pub struct End {
    pub conn: Option<Connection<Sock>>,
    slot: Slot,
    open_slot: Slot,
    pub want_open: usize,
    pub want_close: bool,
    pub inbox: VecDeque<H>,
    pub opened: VecDeque<H>,
    /// Ends reported by poll_next_inbound: None / Err.
    pub ends: u32,
    pub stalled: bool,
    open_err: u32,
}

pub struct Lab {
    pub w: World,
    pub net: Net,
    pub rng: Rng,
    pub timers: Timers,
    pub e: [End; 2],
    ops: Vec<(H, LOp, Slot)>,
    pub flow: [bool; 2],
    /// Raw peer takes everything the endpoint sends.
    pub drain: [bool; 2],
    pub polls: u64,
    pub results: Vec<(u32, LOp, Result<usize, ()>)>,
    pub last_open_err: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LOp {
    Read(usize),
    /// Read until end-of-stream or `n` bytes, by reads of the given size.
    Drain(usize, u64),
    Packet,
    Write(usize),
    WriteAll(u64),
    Flush,
    Close,
}

impl Lab {
    pub fn new(seed: u64, a: SideCfg, b: SideCfg, ta: TCfg, tb: TCfg, verbose: bool) -> Lab {
        vclock::start();
        let mut rng = Rng::new(seed);
        let w = World::new(seed, a, b, verbose);
        let timers = Timers::default();
        let net = Net::new(rng.fork(1), timers.clone(), w.clone(), ta, tb);
        let mk = |s: usize| {
            let c = w.cfg(s);
            let conn = if c.real {
                let m = if c.client { Mode::Client } else { Mode::Server };
                Some(Connection::new(net.sock(s), c.yamux(seed), m))
            } else {
                None
            };
            End {
                conn,
                slot: Slot::default(),
                open_slot: Slot::default(),
                want_open: 0,
                want_close: false,
                inbox: VecDeque::new(),
                opened: VecDeque::new(),
                ends: 0,
                stalled: false,
                open_err: 0,
            }
        };
        let e = [mk(0), mk(1)];
        Lab {
            w,
            net,
            rng,
            timers,
            e,
            ops: Vec::new(),
            flow: [true; 2],
            drain: [true; 2],
            polls: 0,
            results: Vec::new(),
            last_open_err: None,
        }
    }
    /// Endpoint under test on side 0 as `client`, raw peer on side 1.
    pub fn solo(seed: u64, cfg: SideCfg, t: TCfg, tin: TCfg, verbose: bool) -> Lab {
        Lab::new(seed, cfg, SideCfg::raw(!cfg.client), t, tin, verbose)
    }
    pub fn inject(&mut self, b: &[u8]) {
        self.net.inject(1, b)
    }
    pub fn send(&mut self, ty: u8, flags: u16, id: u32, len: u32) {
        self.inject(&wire::frame(ty, flags, id, len))
    }
    /// Raw peer sends `n` correctly coded bytes on a stream (continuing at what was sent before).
    pub fn send_data(&mut self, flags: u16, id: u32, off: u64, n: usize) {
        let mut b = vec![0; n];
        crate::prng::fill(key(self.w.b().seed, 1, id), off, &mut b);
        self.inject(&wire::data(flags, id, &b))
    }
    pub fn open(&mut self, s: usize) {
        self.e[s].want_open += 1;
        self.e[s].open_slot.poke();
    }
    /// Opens and returns a stream; `None` if that did not complete.
    pub fn open_now(&mut self, s: usize) -> Option<H> {
        self.open(s);
        self.settle();
        self.e[s].opened.pop_back()
    }
    pub fn close(&mut self, s: usize) {
        self.e[s].want_close = true;
        self.e[s].slot.poke();
    }
    pub fn drop_conn(&mut self, s: usize) {
        self.w.on_conn_dropped(s);
        self.e[s].conn = None;
    }
    pub fn op(&mut self, h: &H, op: LOp) {
        self.ops.push((h.clone(), op, Slot::default()));
    }
    /// Starts an operation and runs to quiescence; the result if it finished.
    pub fn now(&mut self, h: &H, op: LOp) -> Option<Result<usize, ()>> {
        let k = self.results.len();
        self.op(h, op);
        self.settle();
        let id = h.id;
        self.results[k..].iter().rev().find(|r| r.0 == id).map(|r| r.2)
    }
    pub fn pending_ops(&self) -> usize {
        self.ops.len()
    }
    /// Abandons all pending operations (their futures are dropped).
    pub fn abandon(&mut self) {
        for (h, op, _) in self.ops.drain(..) {
            let o = match op {
                LOp::Read(_) | LOp::Drain(..) | LOp::Packet => Op::Read,
                LOp::Write(_) | LOp::WriteAll(_) => Op::Write,
                LOp::Flush => Op::Flush,
                LOp::Close => Op::Close,
            };
            h.w.pend(h.s, h.id, o, false);
        }
    }
    pub fn abandon_stream(&mut self, id: u32) {
        let mut i = 0;
        while i < self.ops.len() {
            if self.ops[i].0.id == id {
                let (h, op, _) = self.ops.remove(i);
                let o = match op {
                    LOp::Read(_) | LOp::Drain(..) | LOp::Packet => Op::Read,
                    LOp::Write(_) | LOp::WriteAll(_) => Op::Write,
                    LOp::Flush => Op::Flush,
                    LOp::Close => Op::Close,
                };
                h.w.pend(h.s, h.id, o, false);
            } else {
                i += 1
            }
        }
    }

    fn poll_end(&mut self, s: usize) -> bool {
        let mut did = false;
        if self.e[s].stalled || self.e[s].conn.is_none() {
            return false;
        }
        if self.e[s].want_open > 0 && self.e[s].open_slot.due() {
            let hold = self.e[s].want_close && !self.w.b().side[s].closed;
            if !hold {
                did = true;
                let wk = self.e[s].open_slot.fresh();
                let mut cx = Context::from_waker(&wk);
                self.polls += 1;
                match self.e[s].conn.as_mut().unwrap().poll_new_outbound(&mut cx) {
                    Poll::Ready(Ok(st)) => {
                        let h = H::new(&self.w, s, st, true);
                        self.e[s].opened.push_back(h);
                        self.e[s].want_open -= 1;
                        self.e[s].open_slot.poke();
                        self.w.m().side[s].pend_open = false;
                    }
                    Poll::Ready(Err(e)) => {
                        self.w.on_open_err(s, &e);
                        self.last_open_err = Some(format!("{:?}", World::kind(&e)));
                        self.e[s].open_err += 1;
                        self.e[s].want_open -= 1;
                        self.e[s].open_slot.poke();
                        self.w.m().side[s].pend_open = false;
                        self.e[s].slot.poke();
                    }
                    Poll::Pending => {
                        self.w.hit("open_pending", 1);
                        self.w.m().side[s].pend_open = true
                    }
                }
            }
        }
        if self.e[s].slot.due() {
            let wk = self.e[s].slot.fresh();
            let mut cx = Context::from_waker(&wk);
            self.polls += 1;
            if self.polls % 32 == 0 {
                std::hint::black_box(format!("{:?}", self.e[s].conn.as_ref().unwrap()));
            }
            if self.e[s].want_close {
                if self.w.b().side[s].closed {
                    return did;
                }
                self.w.on_close_start(s);
                if let Poll::Ready(r) = poll_closing(&self.w.clone(), s, self.e[s].conn.as_mut().unwrap(), &mut cx) {
                    self.w.on_close_done(s, &r);
                    self.e[s].open_slot.poke();
                }
                return true;
            }
            if self.e[s].ends > 0 {
                return did;
            }
            match self.e[s].conn.as_mut().unwrap().poll_next_inbound(&mut cx) {
                Poll::Ready(Some(Ok(st))) => {
                    let h = H::new(&self.w, s, st, false);
                    self.e[s].inbox.push_back(h);
                    self.e[s].slot.poke();
                }
                Poll::Ready(Some(Err(e))) => {
                    // (A waiting open request is woken by the connection, not by us.)
                    self.w.on_end(s, Some(&e));
                    self.e[s].ends += 1;
                }
                Poll::Ready(None) => {
                    self.w.on_end(s, None);
                    self.e[s].ends += 1;
                }
                Poll::Pending => {}
            }
            return true;
        }
        did
    }

    fn poll_op(&mut self, i: usize) -> bool {
        if !self.ops[i].2.due() {
            return false;
        }
        let wk = self.ops[i].2.fresh();
        let mut cx = Context::from_waker(&wk);
        let (h, op) = (self.ops[i].0.clone(), self.ops[i].1);
        let r = match op {
            LOp::Read(n) => h.poll_read(&mut cx, n),
            LOp::Drain(n, left) => match h.poll_read(&mut cx, n.min(left.min(1 << 30) as usize)) {
                Poll::Ready(Ok(k)) if k > 0 && (k as u64) < left => {
                    self.ops[i].1 = LOp::Drain(n, left - k as u64);
                    self.ops[i].2.poke();
                    return true;
                }
                r => r,
            },
            LOp::Packet => h.poll_packet(&mut cx),
            LOp::Write(n) => h.poll_write(&mut cx, n),
            LOp::WriteAll(n) => match h.poll_write(&mut cx, n.min(1 << 18) as usize) {
                Poll::Ready(Ok(k)) if (k as u64) < n && k > 0 => {
                    self.ops[i].1 = LOp::WriteAll(n - k as u64);
                    self.ops[i].2.poke();
                    return true;
                }
                r => r,
            },
            LOp::Flush => h.poll_flush(&mut cx).map(|r| r.map(|_| 0)),
            LOp::Close => h.poll_close(&mut cx).map(|r| r.map(|_| 0)),
        };
        if let Poll::Ready(r) = r {
            self.ops.remove(i);
            self.results.push((h.id, op, r.map_err(|_| ())));
        }
        true
    }

    /// Runs everything that can run at the current virtual time.
    pub fn settle(&mut self) {
        let mut idle_polls = 0u64;
        let seen = |l: &Lab| l.net.progress() + l.w.b().ev + l.results.len() as u64;
        let mut moved = seen(self);
        loop {
            crate::runner::heartbeat();
            let mut did = false;
            for s in 0..2 {
                did |= self.poll_end(s);
                if !self.w.cfg(s).real {
                    continue;
                }
                if !self.w.cfg(1 - s).real && self.drain[s] {
                    let n = self.net.in_transit(s);
                    if n > 0 {
                        self.net.take(s, n);
                        did = true;
                    }
                }
            }
            let mut i = 0;
            while i < self.ops.len() {
                let n = self.ops.len();
                did |= self.poll_op(i);
                if self.ops.len() == n {
                    i += 1
                }
            }
            if !did {
                break;
            }
            let m = seen(self);
            if m != moved {
                moved = m;
                idle_polls = 0;
            } else {
                idle_polls += 1;
                if idle_polls > IDLE {
                    crate::runner::fatal(&["C26", "C08"], "tasks keep being woken although nothing happens".into());
                }
            }
        }
    }
    /// Settles and lets virtual time pass until nothing is left to happen before `until`.
    pub fn run_until(&mut self, until: i64) {
        loop {
            self.settle();
            match self.timers.peek() {
                Some(t) if t <= until => {
                    if t > vclock::now() {
                        vclock::set(t)
                    }
                    self.timers.fire_due();
                }
                _ => break,
            }
        }
        if vclock::now() < until {
            vclock::set(until)
        }
        self.settle();
    }
    pub fn pass(&mut self, d: i64) {
        let t = vclock::now() + d;
        self.run_until(t)
    }
    /// Settles, then judges the quiescent point.
    pub fn judge(&mut self) {
        self.settle();
        let w = self.w.clone();
        let d = |e: &End, s: usize| (!e.stalled && e.conn.is_some()) || w.b().side[s].conn_dropped;
        let driven = [d(&self.e[0], 0), d(&self.e[1], 1)];
        w.quiesce(&self.net, driven, self.flow);
    }
    /// Lets the connection be polled although nothing woke it (legal).
    pub fn nudge(&mut self, s: usize) {
        self.e[s].slot.poke();
        self.settle();
    }
    pub fn ended(&self, s: usize) -> bool {
        self.w.b().side[s].ended.is_some()
    }
    /// Forgets the model of wakers: polls an ended connection again, checking that it stays ended.
    pub fn poll_after_end(&mut self, s: usize) {
        let wk = futures::task::noop_waker();
        let mut cx = Context::from_waker(&wk);
        let Some(c) = self.e[s].conn.as_mut() else { return };
        for _ in 0..2 {
            match c.poll_next_inbound(&mut cx) {
                Poll::Ready(None) => {}
                x => {
                    let d = match x {
                        Poll::Pending => "pending".to_string(),
                        Poll::Ready(Some(Err(e))) => format!("error {e}"),
                        _ => "a stream".to_string(),
                    };
                    self.w.find(&["C17", "C16"], format!("side {s}: an ended connection reports {d} instead of the end"));
                }
            }
        }
        match c.poll_new_outbound(&mut cx) {
            Poll::Ready(Err(_)) => {}
            Poll::Pending => self.w.find(&["C17", "C16", "C15"], format!("side {s}: opening on an ended connection is pending")),
            Poll::Ready(Ok(_)) => self.w.find(&["C17", "C16"], format!("side {s}: opening on an ended connection succeeded")),
        }
        match c.poll_close(&mut cx) {
            Poll::Ready(Ok(())) => {}
            Poll::Ready(Err(e)) => self.w.find(&["C17", "C16"], format!("side {s}: closing an ended connection failed: {e}")),
            Poll::Pending => self.w.find(&["C17", "C16"], format!("side {s}: closing an ended connection is pending")),
        }
        match c.poll_next_inbound(&mut cx) {
            Poll::Ready(None) => {}
            _ => self.w.find(&["C17", "C16"], format!("side {s}: an ended and closed connection does not report the end")),
        }
        self.w.hit("ended_polls", 1);
    }
}

/// Drives a close once it has been requested: by asking to close again, or by using the connection in the ways
/// that also drive it.
pub fn poll_closing<T: futures::AsyncRead + futures::AsyncWrite + Unpin>(w: &World, s: usize, c: &mut yamux::Connection<T>, cx: &mut Context<'_>) -> Poll<Result<(), yamux::ConnectionError>> {
    let (k, ended, seed) = {
        let mut b = w.m();
        b.side[s].close_polls += 1;
        (b.side[s].close_polls, b.side[s].ended.is_some(), b.seed)
    };
    let way = if ended || k == 1 {
        0
    } else {
        match crate::prng::mix(seed ^ 0xC105E ^ s as u64) % 6 {
            0 | 1 => 1,
            2 => k % 3,
            _ => 0,
        }
    };
    match way {
        1 => {
            w.hit("closing_polled_inbound", 1);
            match c.poll_next_inbound(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => Poll::Ready(Ok(())),
                Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
                Poll::Ready(Some(Ok(_))) => {
                    w.find(&["C16"], format!("side {s}: an inbound stream appears while closing"));
                    Poll::Pending
                }
            }
        }
        2 => {
            w.hit("closing_polled_open", 1);
            match c.poll_new_outbound(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(yamux::ConnectionError::Closed)) => Poll::Ready(Ok(())),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(_)) => {
                    w.find(&["C16"], format!("side {s}: a stream was opened while closing"));
                    Poll::Pending
                }
            }
        }
        _ => c.poll_close(cx),
    }
}

impl Drop for Lab {
    fn drop(&mut self) {
        self.timers.clear();
    }
}

