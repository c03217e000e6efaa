//! Random simulations of two real endpoints: random stream programs, transports, schedules and ends.
use crate::exec::*;
use crate::handle::H;
use crate::pipe::*;
use crate::prng::{mix, Rng};
use crate::runner::Ctx;
use crate::vclock::{self, MS};
use crate::world::*;
use std::cell::RefCell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use yamux::{Connection, Mode};

/// What a family of pair simulations puts weight on.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flavor {
    Mix,
    /// Half-close, empty streams, request/response.
    Close,
    /// Split halves in separate tasks, strict wakers, buffered transports, openers in their own task.
    Wake,
    /// Large transfers.
    Bulk,
    /// Dropped handles.
    Drops,
    /// Many streams, some of them stalled.
    Fair,
    /// Connection close at random moments, tiny transports.
    Shut,
    /// One connection dropped or transports cut.
    Cut,
}

#[derive(Clone, Debug)]
enum WOp {
    Write(usize),
    Flush,
    Yield(u64),
    Sleep(i64),
    Gate,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fin {
    Close,
    CloseTwice,
    /// Waits for the end, leaving the half open.
    Leave,
    /// Drops the whole stream.
    Drop,
}

#[derive(Clone, Debug)]
struct Plan {
    w: Vec<WOp>,
    wfin: Fin,
    /// Read style: 0 = packets, 1 = mixed, n = byte reads up to n.
    rstyle: usize,
    /// Stop reading after this many bytes until the gate opens.
    rstall: Option<u64>,
    /// Stop for good after this many bytes and drop the stream.
    rdrop: Option<u64>,
    ryield: u64,
    rsleep: i64,
    /// Halves in separate tasks.
    split: bool,
    /// Write only after reading to the end.
    reply: bool,
}

struct Opts {
    fl: Flavor,
    max_write: u64,
    strict: bool,
}

fn plan(o: &Opts, rng: &mut Rng) -> Plan {
    let fl = o.fl;
    let total_ops = rng.range(0, if fl == Flavor::Bulk { 24 } else { 10 });
    let mut w = Vec::new();
    let sizes: [u64; 10] = [1, 7, 100, 1024, 4096, 16 * 1024, 16 * 1024 + 1, 40_000, 128 * 1024, 300_000];
    let mut budget = if fl == Flavor::Bulk { 1 << 20 } else { o.max_write };
    for _ in 0..total_ops {
        match rng.below(20) {
            0..=12 => {
                let mut n = rng.pick(&sizes);
                if rng.pct(50) {
                    n = rng.range(1, n)
                }
                let n = n.min(budget);
                budget -= n;
                if n > 0 {
                    w.push(WOp::Write(n as usize))
                } else if rng.pct(3) {
                    w.push(WOp::Write(0))
                }
            }
            13..=14 => w.push(WOp::Flush),
            15..=17 => w.push(WOp::Yield(rng.range(1, 20))),
            18 => w.push(WOp::Sleep(rng.range(1, 300) as i64 * MS)),
            _ => {
                if rng.pct(30) {
                    w.push(WOp::Gate)
                }
            }
        }
    }
    let (pc, pl, pd) = match fl {
        Flavor::Drops => (30, 10, 60),
        Flavor::Close => (85, 5, 10),
        _ => (65, 20, 15),
    };
    let x = rng.below(pc + pl + pd);
    let wfin = if x < pc {
        if rng.pct(15) {
            Fin::CloseTwice
        } else {
            Fin::Close
        }
    } else if x < pc + pl {
        Fin::Leave
    } else {
        Fin::Drop
    };
    let rsizes = [0usize, 1, 13, 512, 4096, 16 * 1024, 65_536, 400_000];
    let mut rstyle = rng.pick(&rsizes);
    if rstyle == 13 && o.max_write > 100_000 {
        rstyle = 777;
    }
    Plan {
        w,
        wfin,
        rstyle,
        rstall: match fl {
            Flavor::Fair if rng.pct(40) => Some(rng.below(400_000)),
            Flavor::Shut | Flavor::Cut if rng.pct(45) => Some(rng.below(2000)),
            _ if rng.pct(15) => Some(rng.below(400_000)),
            _ => None,
        },
        rdrop: if rng.pct(if fl == Flavor::Drops { 30 } else { 6 }) { Some(rng.below(100_000)) } else { None },
        ryield: if rng.pct(30) { rng.range(1, 10) } else { 0 },
        rsleep: if rng.pct(10) { rng.range(1, 50) as i64 * MS } else { 0 },
        split: rng.pct(if fl == Flavor::Wake { 85 } else { 50 }),
        reply: rng.pct(if fl == Flavor::Close { 40 } else { 15 }),
    }
}

#[derive(Clone)]
struct Env {
    sp: Spawner,
    timers: Timers,
    gate: Gate,
    end: Gate,
}

async fn reader(e: Env, h: H, p: Plan, mut rng: Rng) {
    let mut total = 0u64;
    let mut stalled = false;
    loop {
        if let Some(n) = p.rdrop {
            if total >= n {
                yields(rng.below(5)).await;
                h.drop_stream();
                return;
            }
        }
        if let Some(n) = p.rstall {
            if total >= n && !stalled {
                stalled = true;
                h.w.hit("stalls", 1);
                e.gate.wait().await;
            }
        }
        let r = match p.rstyle {
            0 => h.packet().await,
            1 if rng.pct(50) => h.packet().await,
            1 => {
                let n = rng.pick(&[1usize, 100, 5000, 20_000]);
                h.read(n).await
            }
            n => {
                let n = if rng.pct(30) { rng.range(1, n as u64) as usize } else { n };
                h.read(n).await
            }
        };
        match r {
            Ok(0) => break,
            Ok(n) => total += n as u64,
            Err(_) => return,
        }
        if p.ryield > 0 {
            yields(p.ryield).await
        }
        if p.rsleep > 0 {
            e.timers.sleep(p.rsleep).await
        }
    }
    // End-of-stream is final.
    for _ in 0..2 {
        yields(rng.below(4)).await;
        let r = if rng.pct(50) { h.read(100).await } else { h.packet().await };
        if !matches!(r, Ok(0)) {
            return;
        }
    }
}

async fn writer(e: Env, h: H, p: Plan, mut rng: Rng) {
    for op in &p.w {
        match op {
            WOp::Write(0) => {
                if h.write(0).await.is_err() {
                    return;
                }
            }
            WOp::Write(n) => {
                let mut left = *n;
                while left > 0 {
                    match h.write(left).await {
                        Ok(0) | Err(_) => return,
                        Ok(k) => left -= k.min(left),
                    }
                }
            }
            WOp::Flush => {
                if h.flush().await.is_err() {
                    return;
                }
            }
            WOp::Yield(n) => yields(*n).await,
            WOp::Sleep(d) => e.timers.sleep(*d).await,
            WOp::Gate => e.gate.wait().await,
        }
    }
    match p.wfin {
        Fin::Close | Fin::CloseTwice => {
            if rng.pct(20) {
                let _ = h.flush().await;
            }
            if h.close().await.is_ok() && p.wfin == Fin::CloseTwice {
                yields(rng.below(10)).await;
                let _ = h.close().await;
            }
            if rng.pct(10) {
                let _ = h.write(10).await;
            }
        }
        Fin::Leave => e.end.wait().await,
        Fin::Drop => {
            yields(rng.below(20)).await;
            h.drop_stream();
        }
    }
}

fn start(e: &Env, h: H, p: Plan, mut rng: Rng) {
    let (r1, r2) = (rng.fork(1), rng.fork(2));
    let (e1, e2) = (e.clone(), e.clone());
    if p.reply {
        let (sp, p2) = (e.sp.clone(), p.clone());
        sp.spawn("stream", async move {
            reader(e1, h.clone(), p, r1).await;
            if h.alive() {
                writer(e2, h, p2, r2).await
            }
        });
    } else if p.split {
        let (h2, p2) = (h.clone(), p.clone());
        e.sp.spawn("reader", async move { reader(e1, h, p, r1).await });
        e.sp.spawn("writer", async move { writer(e2, h2, p2, r2).await });
    } else {
        let p2 = p.clone();
        e.sp.spawn("stream", async move {
            // One task polls both halves, as `join` does.
            let h2 = h.clone();
            let a = reader(e1, h, p, r1);
            let b = writer(e2, h2, p2, r2);
            futures::future::join(a, b).await;
        });
    }
}

struct Ep {
    conn: Option<Connection<Sock>>,
    close: bool,
    close_done: bool,
    /// Waker of the driver task for requests made by the scenario.
    poke: Option<Waker>,
    inline_open: usize,
    ended: bool,
    ended_wakers: Vec<Waker>,
    stalled: bool,
}

impl Ep {
    fn poke(&mut self) {
        if let Some(w) = self.poke.take() {
            w.wake()
        }
    }
    fn end(&mut self) {
        self.ended = true;
        for w in self.ended_wakers.drain(..) {
            w.wake()
        }
    }
}

type EpR = Rc<RefCell<Ep>>;

/// Polls the connection of one side; `Ready` when there is nothing more to do.
/// An open request of the driver's own task is asked about once more when the connection has ended.
fn ask_again(w: &World, s: usize, g: &mut Ep, on: &dyn Fn(H)) {
    if g.inline_open == 0 || !w.b().side[s].pend_open {
        return;
    }
    match g.conn.as_mut().unwrap().poll_new_outbound(&mut Context::from_waker(std::task::Waker::noop())) {
        Poll::Pending => {}
        Poll::Ready(Ok(st)) => on(H::new(w, s, st, true)),
        Poll::Ready(Err(e)) => {
            w.m().side[s].pend_open = false;
            w.on_open_err(s, &e);
        }
    }
}

fn drive(w: &World, s: usize, ep: &EpR, cx: &mut Context<'_>, on: &dyn Fn(H)) -> Poll<()> {
    let mut g = ep.borrow_mut();
    g.poke = Some(cx.waker().clone());
    if g.stalled {
        return Poll::Pending;
    }
    if g.conn.is_none() {
        g.end();
        return Poll::Ready(());
    }
    if g.close {
        w.on_close_start(s);
        let r = match crate::lab::poll_closing(w, s, g.conn.as_mut().unwrap(), cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r,
        };
        w.on_close_done(s, &r);
        g.close_done = true;
        ask_again(w, s, &mut g, on);
        g.end();
        return Poll::Ready(());
    }
    while g.inline_open > 0 {
        match g.conn.as_mut().unwrap().poll_new_outbound(cx) {
            Poll::Pending => {
                w.m().side[s].pend_open = true;
                break;
            }
            Poll::Ready(Ok(st)) => {
                w.m().side[s].pend_open = false;
                g.inline_open -= 1;
                let h = H::new(w, s, st, true);
                on(h);
            }
            Poll::Ready(Err(e)) => {
                w.m().side[s].pend_open = false;
                g.inline_open = 0;
                w.on_open_err(s, &e);
            }
        }
    }
    loop {
        match g.conn.as_mut().unwrap().poll_next_inbound(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Some(Ok(st))) => {
                let h = H::new(w, s, st, false);
                on(h);
            }
            Poll::Ready(Some(Err(e))) => {
                w.on_end(s, Some(&e));
            }
            Poll::Ready(None) => {
                w.on_end(s, None);
                ask_again(w, s, &mut g, on);
                g.end();
                return Poll::Ready(());
            }
        }
    }
}

fn tcfg(fl: Flavor, rng: &mut Rng) -> TCfg {
    let mut t = TCfg::plain();
    let caps: &[usize] = if fl == Flavor::Shut || fl == Flavor::Wake { &[1, 5, 12, 13, 100, 4096, 1 << 30] } else { &[13, 1000, 4096, 65_536, 1 << 20, 1 << 30, 1 << 30] };
    t.cap = rng.pick(caps);
    if rng.pct(40) {
        t.wmax = rng.pick(&[1usize, 3, 11, 12, 13, 100, 5000, 50_000])
    }
    if rng.pct(40) {
        t.rmax = rng.pick(&[1usize, 3, 11, 12, 13, 100, 5000, 50_000])
    }
    if rng.pct(35) {
        t.pend = rng.range(1, 60)
    }
    if rng.pct(if fl == Flavor::Wake { 60 } else { 30 }) {
        t.buffered = rng.pick(&[1usize, 50, 1000, 8192, 1 << 20]);
        t.slow_flush = rng.pct(40);
    }
    if rng.pct(45) {
        t.latency = rng.pick(&[1i64, 5, 20, 100, 400]) * MS;
        if rng.pct(50) {
            t.jitter = t.latency
        }
    }
    t
}

pub fn run(c: &mut Ctx, fl: Flavor) {
    vclock::start();
    let mut rng = Rng::new(c.seed);
    let (mut ta, mut tb) = (tcfg(fl, &mut rng), tcfg(fl, &mut rng));
    if fl == Flavor::Bulk {
        for t in [&mut ta, &mut tb] {
            if t.wmax > 0 && t.wmax < 1000 {
                t.wmax = 5000
            }
            if t.rmax > 0 && t.rmax < 1000 {
                t.rmax = 5000
            }
            t.cap = t.cap.max(1000);
        }
    }
    // Bytes are moved one call at a time in slow transports; keep the run short.
    let slow = [&ta, &tb].iter().any(|t| t.cap < 1000 || (t.wmax > 0 && t.wmax < 200) || (t.rmax > 0 && t.rmax < 200));
    let vslow = [&ta, &tb].iter().any(|t| t.cap < 20 || (t.wmax > 0 && t.wmax < 20) || (t.rmax > 0 && t.rmax < 20));
    let o = Opts { fl, max_write: if vslow { 4_000 } else if slow { 60_000 } else { 700_000 }, strict: fl == Flavor::Wake || rng.pct(60) };
    let mut ca = SideCfg::dflt(true);
    let mut cb = SideCfg::dflt(false);
    for x in [&mut ca, &mut cb] {
        x.split = rng.pick(&[16 * 1024usize, 16 * 1024, 16 * 1024, 1, 100, 1000, 70_000, 1 << 20]);
        if x.split < 1000 && o.max_write > 60_000 {
            x.split = 1000
        }
        x.max_streams = 512;
        x.limit = rng.pick(&[Some(1usize << 30), None, Some(512 * 256 * 1024), Some(512 * 256 * 1024 + 700_000)]);
        x.rac = !rng.pct(20);
    }
    if rng.pct(50) {
        std::mem::swap(&mut ca, &mut cb)
    }
    let w = World::new(c.seed, ca, cb, c.verbose);
    w.say(|| format!("pair {fl:?} a={ca:?} b={cb:?} ta={ta:?} tb={tb:?} strict={}", o.strict));
    let policy = match rng.below(6) {
        0 | 1 => Policy::Random,
        2 => Policy::Fifo,
        3 => Policy::Lifo,
        4 => Policy::Prio(0),
        _ => Policy::Prio(5),
    };
    let spurious = if rng.pct(25) { rng.range(1, 20) } else { 0 };
    let mut ex = Exec::new(rng.fork(7), policy, o.strict, spurious);
    let net = Net::new(rng.fork(8), ex.timers.clone(), w.clone(), ta, tb);
    {
        let (n, w) = (net.clone(), w.clone());
        ex.probe = Some(Box::new(move || n.progress() + w.b().ev));
    }
    let env = Env { sp: ex.spawner.clone(), timers: ex.timers.clone(), gate: Gate::default(), end: Gate::default() };
    let nstreams = match fl {
        Flavor::Fair => rng.range(4, 40),
        Flavor::Bulk => rng.range(1, 6),
        _ => rng.range(1, 14),
    };
    let burst = rng.pct(2) && !slow;
    let eps: [EpR; 2] = std::array::from_fn(|s| {
        let cfg = w.cfg(s);
        let m = if cfg.client { Mode::Client } else { Mode::Server };
        Rc::new(RefCell::new(Ep {
            conn: Some(Connection::new(net.sock(s), cfg.yamux(c.seed), m)),
            close: false,
            close_done: false,
            poke: None,
            inline_open: 0,
            ended: false,
            ended_wakers: vec![],
            stalled: false,
        }))
    });
    let o = Rc::new(o);
    let seed = c.seed;
    let mk_on = |s: usize| {
        let (o, env) = (o.clone(), env.clone());
        move |h: H| {
            let mut r = Rng::new(mix(seed ^ 0x77) ^ mix(h.id as u64 * 2 + s as u64));
            let p = plan(&o, &mut r);
            start(&env, h, p, r)
        }
    };
    for s in 0..2 {
        let (w2, ep, on) = (w.clone(), eps[s].clone(), mk_on(s));
        env.sp.spawn(if s == 0 { "driver0" } else { "driver1" }, async move {
            poll_fn(|cx| drive(&w2, s, &ep, cx, &on)).await;
        });
        let mut n = if burst && s == 0 { rng.range(250, 330) } else { rng.range(0, nstreams) };
        if s == 0 && n == 0 {
            n = 1
        }
        if rng.pct(40) {
            eps[s].borrow_mut().inline_open = n as usize;
        } else {
            let (w2, ep, on) = (w.clone(), eps[s].clone(), mk_on(s));
            let mut r2 = rng.fork(33 + s as u64);
            let timers = env.timers.clone();
            env.sp.spawn("opener", async move {
                for _ in 0..n {
                    if r2.pct(20) {
                        yields(r2.range(1, 30)).await
                    }
                    if r2.pct(5) {
                        timers.sleep(r2.range(1, 500) as i64 * MS).await
                    }
                    let r = poll_fn(|cx| {
                        let mut g = ep.borrow_mut();
                        if g.conn.is_none() || (g.close && g.close_done && g.conn.is_none()) {
                            return Poll::Ready(None);
                        }
                        if g.close && !g.close_done {
                            // A closing connection belongs to its driver.
                            w2.m().side[s].pend_open = false;
                            g.ended_wakers.push(cx.waker().clone());
                            return Poll::Pending;
                        }
                        match g.conn.as_mut().unwrap().poll_new_outbound(cx) {
                            Poll::Pending => {
                                w2.m().side[s].pend_open = true;
                                Poll::Pending
                            }
                            Poll::Ready(Ok(st)) => {
                                w2.m().side[s].pend_open = false;
                                Poll::Ready(Some(H::new(&w2, s, st, true)))
                            }
                            Poll::Ready(Err(e)) => {
                                w2.m().side[s].pend_open = false;
                                w2.on_open_err(s, &e);
                                Poll::Ready(None)
                            }
                        }
                    })
                    .await;
                    match r {
                        Some(h) => on(h),
                        None => return,
                    }
                }
            });
        }
    }
    // Phase 1.
    let max_steps = if c.thorough { 1_000_000 } else { 150_000 };
    let far = vclock::EPOCH + 1_000_000 * vclock::SEC;
    let early = match fl {
        Flavor::Shut | Flavor::Cut => true,
        _ => rng.pct(15),
    };
    let act = |what: u64, s: usize| match what {
        0 => {
            let mut g = eps[s].borrow_mut();
            if w.b().side[s].ended.is_none() {
                g.close = true;
                g.poke();
            }
        }
        _ => {
            let c = eps[s].borrow_mut().conn.take();
            if let Some(c) = c {
                if w.b().side[s].ended.is_none() && !w.b().side[s].closing {
                    w.on_conn_dropped(s);
                }
                w.m().side[s].pend_close = false;
                w.m().side[s].pend_open = false;
                w.m().side[s].conn_dropped = true;
                drop(c);
                eps[s].borrow_mut().poke();
            }
        }
    };
    let mut capped = false;
    let mut full = |ex: &mut Exec, what: &str| {
        if ex.run(max_steps, far) == End::Steps || ex.timers.peek().is_some() {
            capped = true;
            if ex.spun() {
                w.find(&["C26", "C08"], format!("tasks keep being woken although nothing happens ({what})"));
                return false;
            }
            w.hit("step_cap", 1);
            w.say(|| format!("step cap in {what}"));
            false
        } else {
            w.say(|| format!("quiescent ({what})"));
            w.quiesce(&net, [true; 2], [true; 2]);
            !w.failed()
        }
    };
    let mut go = true;
    if early {
        let e = rng.range(4, 14);
        let k = 1 + rng.below(1 << e);
        ex.run(k, far);
    } else {
        go = full(&mut ex, "first phase");
        if go {
            env.gate.open();
            go = full(&mut ex, "gates open");
        }
        if go && rng.pct(30) {
            ex.run(rng.below(50), far);
        }
    }
    if go {
        let what = match fl {
            Flavor::Shut => 0,
            Flavor::Cut => 1,
            _ => rng.below(2),
        };
        let s = rng.below(2) as usize;
        act(what, s);
        if rng.pct(if fl == Flavor::Shut { 60 } else { 25 }) {
            if rng.pct(50) {
                ex.run(rng.below(200), far);
            }
            act(if rng.pct(80) { what } else { 1 - what }, 1 - s);
        }
        if rng.pct(50) {
            env.gate.open();
        }
        go = full(&mut ex, "after the end");
    }
    if go {
        env.gate.open();
        env.end.open();
        go = full(&mut ex, "final");
    }
    if go && !capped {
        let left = ex.unfinished();
        if !left.is_empty() {
            w.find(&["C03", "C16", "C17"], format!("tasks never finish: {left:?}"));
        }
        for s in 0..2 {
            let st = net.stats(s);
            if w.b().side[s].closed_ok && w.b().side[s].ended.is_none() && st.close_ok != 1 {
                w.find(&["C16"], format!("side {s}: transport closed {} times by a successful close", st.close_ok));
            }
            if st.after_close > 0 {
                w.find(&["C18", "C16"], format!("side {s}: {} transport calls after its close", st.after_close));
            }
        }
    }
    {
        let t = ex.trace;
        let mut m = w.m();
        m.hash = mix(m.hash ^ t);
        let steps = ex.steps;
        m.hit("steps", steps);
    }
    // Tear everything down before the handles' world goes away.
    drop(ex);
    for e in &eps {
        let c = e.borrow_mut().conn.take();
        drop(c);
    }
    c.finish(&w);
}
