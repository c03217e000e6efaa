//! In-memory transport between side 0 and side 1. Every byte an endpoint writes or reads passes the
//! taps of the [`World`]. Behaviour (capacity, short reads and writes, spurious Pending, buffering
//! until flush, latency, faults) is configurable per direction.
use crate::exec::Timers;
use crate::prng::Rng;
use crate::vclock;
use crate::world::World;
use futures::io::{AsyncRead, AsyncWrite};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct TCfg {
    /// Bytes in transit before writes are suspended.
    pub cap: usize,
    /// Most bytes taken per write / handed out per read (0: no limit).
    pub wmax: usize,
    pub rmax: usize,
    /// Percentage of calls answered with Pending plus an immediate wake.
    pub pend: u64,
    /// Bytes stay in a local buffer of this size until flushed (0: unbuffered).
    pub buffered: usize,
    /// A flush takes two calls.
    pub slow_flush: bool,
    /// While the wire is blocked the local buffer still takes bytes; flushing and closing are suspended.
    pub soak: bool,
    pub latency: i64,
    /// Extra random latency.
    pub jitter: i64,
}

impl TCfg {
    pub fn plain() -> TCfg {
        TCfg { cap: 1 << 30, wmax: 0, rmax: 0, pend: 0, buffered: 0, slow_flush: false, soak: false, latency: 0, jitter: 0 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Read,
    Write,
    Flush,
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Err(io::ErrorKind),
    /// Read: end of input. Write: zero bytes accepted.
    Zero,
    /// Write: claims this many bytes more than offered.
    Over(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub call: Call,
    /// Number of that call (0-based) at which the fault happens.
    pub at: u64,
    pub what: What,
    /// The fault repeats on every later call (else the transport works again afterwards).
    pub sticky: bool,
}

pub struct DirS {
    pub q: VecDeque<u8>,
    /// Readable bytes at the front of `q`.
    pub vis: usize,
    /// Bytes at the back of `q` waiting for a flush.
    pub unfl: usize,
    pub eof: bool,
    pub reader_gone: bool,
    pub blocked: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
    flush_state: bool,
    last_arrival: i64,
    pub cfg: TCfg,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub reads: u64,
    pub writes: u64,
    pub flushes: u64,
    pub closes: u64,
    pub fault_hit: Option<&'static str>,
    /// Reads, writes and flushes after the fault (for faults that forbid them).
    pub after_fault: u64,
    /// Any call after a successful close.
    pub after_close: u64,
    pub close_ok: u64,
    pub bytes_after_fault: u64,
    pub moved: u64,
    /// Wakes the transport caused by itself.
    pub nudges: u64,
}

pub struct NetS {
    pub d: [DirS; 2],
    pub stats: [Stats; 2],
    pub faults: [Option<Fault>; 2],
    pub rng: Rng,
    pub timers: Timers,
}

#[derive(Clone)]
pub struct Net(pub Rc<RefCell<NetS>>, pub World);

impl DirS {
    fn new(cfg: TCfg) -> Self {
        DirS {
            q: VecDeque::new(),
            vis: 0,
            unfl: 0,
            eof: false,
            reader_gone: false,
            blocked: false,
            rw: None,
            ww: None,
            flush_state: false,
            last_arrival: 0,
            cfg,
        }
    }
    /// Bytes a raw peer could take (all that were accepted, unless the wire holds the unflushed ones back).
    fn there(&self) -> usize {
        if self.blocked && self.cfg.soak {
            self.q.len() - self.unfl
        } else {
            self.q.len()
        }
    }
    fn wake_r(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.ww.take() {
            w.wake()
        }
    }
}

impl Net {
    pub fn new(rng: Rng, timers: Timers, w: World, a: TCfg, b: TCfg) -> Net {
        Net(
            Rc::new(RefCell::new(NetS {
                d: [DirS::new(a), DirS::new(b)],
                stats: Default::default(),
                faults: [None, None],
                rng,
                timers,
            })),
            w,
        )
    }
    pub fn sock(&self, side: usize) -> Sock {
        Sock { net: self.clone(), side }
    }
    /// Moves `n` bytes of direction `s` into transit.
    fn launch(&self, s: usize, n: usize) {
        if n == 0 {
            return;
        }
        let mut g = self.0.borrow_mut();
        let g = &mut *g;
        let (lat, jit) = (g.d[s].cfg.latency, g.d[s].cfg.jitter);
        if lat == 0 && jit == 0 {
            g.d[s].vis += n;
            g.d[s].wake_r();
        } else {
            let mut t = vclock::now() + lat;
            if jit > 0 {
                t += g.rng.below(jit as u64) as i64
            }
            t = t.max(g.d[s].last_arrival);
            g.d[s].last_arrival = t;
            let me = self.clone();
            g.timers.at(t, move || {
                let mut g = me.0.borrow_mut();
                g.d[s].vis += n;
                g.d[s].wake_r();
            });
        }
    }
    /// Raw peer `from` sends bytes.
    pub fn inject(&self, from: usize, b: &[u8]) {
        self.0.borrow_mut().d[from].q.extend(b);
        self.launch(from, b.len());
    }
    /// Raw peer ends its direction.
    pub fn eof(&self, from: usize) {
        let mut g = self.0.borrow_mut();
        g.d[from].eof = true;
        g.d[from].wake_r();
    }
    /// Raw peer takes up to `n` bytes side `s` has sent (flushed or not).
    pub fn take(&self, s: usize, n: usize) -> usize {
        let mut g = self.0.borrow_mut();
        let d = &mut g.d[s];
        let k = n.min(d.there());
        d.q.drain(..k);
        d.vis = d.vis.saturating_sub(k).min(d.q.len());
        d.unfl = d.unfl.min(d.q.len());
        if k > 0 {
            d.wake_w();
        }
        k
    }
    pub fn block(&self, s: usize, on: bool) {
        let mut g = self.0.borrow_mut();
        g.d[s].blocked = on;
        if !on {
            g.d[s].wake_w();
        }
    }
    /// Bytes accepted from `s` but not flushed by it.
    pub fn unflushed(&self, s: usize) -> usize {
        self.0.borrow().d[s].unfl
    }
    /// Bytes readable by the other side of direction `s`.
    pub fn readable(&self, s: usize) -> usize {
        self.0.borrow().d[s].vis
    }
    /// Memory of the queues.
    pub fn held(&self) -> usize {
        let g = self.0.borrow();
        g.d[0].q.capacity() + g.d[1].q.capacity()
    }
    pub fn in_transit(&self, s: usize) -> usize {
        self.0.borrow().d[s].there()
    }
    pub fn stats(&self, s: usize) -> Stats {
        self.0.borrow().stats[s].clone()
    }
    /// Grows with everything the transport does.
    pub fn progress(&self) -> u64 {
        let g = self.0.borrow();
        g.stats.iter().map(|s| s.moved + s.closes).sum()
    }
    pub fn set_fault(&self, s: usize, f: Option<Fault>) {
        self.0.borrow_mut().faults[s] = f;
    }
}

pub struct Sock {
    net: Net,
    side: usize,
}

enum Pre {
    Go,
    Pend,
    Do(What),
}

impl Sock {
    fn pre(&self, c: Call, cx: &mut Context<'_>) -> Pre {
        let mut g = self.net.0.borrow_mut();
        let g = &mut *g;
        let s = self.side;
        let f = g.faults[s];
        let st = &mut g.stats[s];
        if st.close_ok > 0 {
            st.after_close += 1
        }
        if st.fault_hit.is_some() && c != Call::Close {
            st.after_fault += 1
        }
        let k = match c {
            Call::Read => &mut st.reads,
            Call::Write => &mut st.writes,
            Call::Flush => &mut st.flushes,
            Call::Close => &mut st.closes,
        };
        let n = *k;
        *k += 1;
        if let Some(f) = f {
            if f.call == c && (n == f.at || (f.sticky && n > f.at)) {
                if !(f.what == What::Zero && c == Call::Read) {
                    st.fault_hit = Some(match (c, f.what) {
                        (Call::Read, _) => "read error",
                        (Call::Write, What::Err(_)) => "write error",
                        (Call::Write, What::Zero) => "write of zero bytes",
                        (Call::Write, What::Over(_)) => "write count too large",
                        (Call::Flush, _) => "flush error",
                        (Call::Close, _) => "close error",
                    });
                }
                drop_note(&self.net, s, c, f.what);
                return Pre::Do(f.what);
            }
        }
        let p = match c {
            Call::Read => g.d[1 - s].cfg.pend,
            _ => g.d[s].cfg.pend,
        };
        if p > 0 && g.rng.pct(p) {
            g.stats[s].nudges += 1;
            cx.waker().wake_by_ref();
            return Pre::Pend;
        }
        Pre::Go
    }
}

fn drop_note(net: &Net, s: usize, c: Call, w: What) {
    net.1.on_fault(s, c, w);
}

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let s = self.side;
        match self.pre(Call::Read, cx) {
            Pre::Go => {}
            Pre::Pend => return Poll::Pending,
            Pre::Do(What::Err(k)) => return Poll::Ready(Err(k.into())),
            Pre::Do(_) => return Poll::Ready(Ok(0)),
        }
        let n = {
            let mut g = self.net.0.borrow_mut();
            let g = &mut *g;
            let d = &mut g.d[1 - s];
            if d.vis == 0 {
                if d.eof && d.q.is_empty() {
                    drop(d.rw.take());
                    0
                } else {
                    d.rw = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            } else {
                let mut n = d.vis.min(buf.len());
                if d.cfg.rmax > 0 {
                    n = n.min(g.rng.range(1, d.cfg.rmax as u64) as usize)
                }
                let (a, b) = d.q.as_slices();
                let k = a.len().min(n);
                buf[..k].copy_from_slice(&a[..k]);
                buf[k..n].copy_from_slice(&b[..n - k]);
                d.q.drain(..n);
                d.vis -= n;
                d.wake_w();
                g.stats[s].moved += n as u64;
                n
            }
        };
        if n == 0 {
            if !buf.is_empty() {
                self.net.1.on_rx_eof(s);
            }
        } else {
            self.net.1.on_rx(s, &buf[..n]);
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let s = self.side;
        match self.pre(Call::Write, cx) {
            Pre::Go => {}
            Pre::Pend => return Poll::Pending,
            Pre::Do(What::Err(k)) => return Poll::Ready(Err(k.into())),
            Pre::Do(What::Zero) => return Poll::Ready(Ok(0)),
            Pre::Do(What::Over(n)) => return Poll::Ready(Ok(buf.len() + n)),
        }
        let gone = self.net.0.borrow().d[s].reader_gone;
        if gone {
            let w = self.net.0.borrow_mut().d[s].ww.take();
            drop(w);
            self.net.1.on_fault(s, Call::Write, What::Err(io::ErrorKind::BrokenPipe));
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let (n, launch) = {
            let mut g = self.net.0.borrow_mut();
            let g = &mut *g;
            let d = &mut g.d[s];
            if d.eof {
                return Poll::Ready(Err(io::ErrorKind::NotConnected.into()));
            }
            let soak = d.blocked && d.cfg.soak && d.unfl < d.cfg.buffered;
            if d.blocked && !soak || d.q.len() >= d.cfg.cap {
                d.ww = Some(cx.waker().clone());
                // A buffering transport pushes its buffer out when it is full.
                let push = if d.blocked { 0 } else { std::mem::take(&mut d.unfl) };
                let _ = g;
                (usize::MAX, push)
            } else {
                let mut n = buf.len().min(d.cfg.cap - d.q.len());
                if d.cfg.wmax > 0 {
                    n = n.min(g.rng.range(1, d.cfg.wmax as u64) as usize)
                }
                if soak {
                    n = n.min(d.cfg.buffered - d.unfl);
                }
                d.q.extend(&buf[..n]);
                g.stats[s].moved += n as u64;
                if g.stats[s].fault_hit.is_some() {
                    g.stats[s].bytes_after_fault += n as u64
                }
                d.unfl += n;
                let push = if !d.blocked && (d.unfl > d.cfg.buffered || d.cfg.buffered == 0) { std::mem::take(&mut d.unfl) } else { 0 };
                (n, push)
            }
        };
        if n == usize::MAX {
            self.net.launch(s, launch);
            return Poll::Pending;
        }
        self.net.1.on_tx(s, &buf[..n]);
        self.net.launch(s, launch);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let s = self.side;
        match self.pre(Call::Flush, cx) {
            Pre::Go => {}
            Pre::Pend => return Poll::Pending,
            Pre::Do(What::Err(k)) => return Poll::Ready(Err(k.into())),
            Pre::Do(_) => return Poll::Ready(Ok(())),
        }
        let push = {
            let mut g = self.net.0.borrow_mut();
            let g = &mut *g;
            let d = &mut g.d[s];
            if d.unfl > 0 {
                if d.blocked {
                    d.ww = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                if d.cfg.slow_flush && !d.flush_state {
                    d.flush_state = true;
                    g.stats[s].nudges += 1;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                d.flush_state = false;
            }
            std::mem::take(&mut d.unfl)
        };
        self.net.launch(s, push);
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let s = self.side;
        match self.pre(Call::Close, cx) {
            Pre::Go => {}
            Pre::Pend => return Poll::Pending,
            Pre::Do(What::Err(k)) => return Poll::Ready(Err(k.into())),
            Pre::Do(_) => return Poll::Ready(Ok(())),
        }
        let push = {
            let mut g = self.net.0.borrow_mut();
            if g.d[s].blocked {
                g.d[s].ww = Some(cx.waker().clone());
                return Poll::Pending;
            }
            g.stats[s].close_ok += 1;
            std::mem::take(&mut g.d[s].unfl)
        };
        self.net.launch(s, push);
        let mut g = self.net.0.borrow_mut();
        g.d[s].eof = true;
        g.d[s].wake_r();
        Poll::Ready(Ok(()))
    }
}

impl Drop for Sock {
    fn drop(&mut self) {
        let s = self.side;
        let mut g = self.net.0.borrow_mut();
        let n = std::mem::take(&mut g.d[s].unfl);
        // Unflushed bytes are lost with the transport.
        let keep = g.d[s].q.len() - n;
        g.d[s].q.truncate(keep);
        g.d[s].eof = true;
        g.d[s].wake_r();
        g.d[1 - s].reader_gone = true;
        g.d[1 - s].wake_w();
        g.d[s].ww = None;
        g.d[1 - s].rw = None;
    }
}

impl std::fmt::Debug for Sock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sock{}", self.side)
    }
}
