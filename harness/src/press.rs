//! Slow and blocked transports (back-pressure), fairness between streams, and pings.
use crate::handle::H;
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::{self, MS, SEC};
use crate::wire::*;
use crate::world::*;

fn take(lab: &mut Lab, hs: &mut Vec<H>) {
    while let Some(h) = lab.e[0].inbox.pop_front() {
        hs.push(h)
    }
    while let Some(h) = lab.e[0].opened.pop_front() {
        hs.push(h)
    }
}

fn streams(lab: &mut Lab, rng: &mut Rng, n: u64, cf: SideCfg) -> Vec<H> {
    let mut hs = Vec::new();
    let mut pid: u32 = if cf.client { 2 } else { 1 };
    for _ in 0..n {
        if rng.pct(60) {
            lab.open(0);
        } else {
            lab.send(WIN, SYN, pid, 1 << 24);
            pid += 2;
        }
        lab.settle();
        take(lab, &mut hs);
    }
    hs
}

/// The transport takes nothing, or a few bytes at a time: how much is accepted?
pub fn block(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 1, 64, 3000]);
    let mut t = TCfg::plain();
    if rng.pct(30) {
        t.buffered = rng.pick(&[1usize, 1000, 1 << 20]);
        t.soak = rng.pct(50);
    }
    let mut lab = Lab::solo(c.seed, cf, t.clone(), TCfg::plain(), c.verbose);
    lab.settle();
    let m = rng.pick(&[1u64, 1, 2, 3, 8, 30]);
    let hs = streams(&mut lab, &mut rng, m, cf);
    let credit = rng.pct(70);
    for h in &hs {
        if rng.pct(50) {
            lab.now(h, LOp::Write(10));
        }
        if credit && lab.w.with(0, h.id, |t| t.tx_any || !t.local) {
            lab.send(WIN, 0, h.id, 1 << 26);
        }
    }
    lab.settle();
    for _ in 0..rng.range(1, 3) {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        lab.net.block(0, true);
        lab.flow[0] = false;
        let one = rng.pct(40) && t.buffered < 5000;
        // Write until suspended, in whatever order.
        let mut guard = 0;
        loop {
            let free: Vec<&H> = hs.iter().filter(|h| !lab.w.with(0, h.id, |t| t.pend[1] || t.close_called)).collect();
            if free.is_empty() || guard > 5000 || lab.w.failed() {
                break;
            }
            guard += 1;
            for h in free {
                if rng.pct(80) {
                    lab.op(h, LOp::Write(if one { 1 } else { rng.pick(&[cf.split, 1, 1 << 18]) }));
                }
            }
            if rng.pct(50) {
                lab.settle();
            }
        }
        lab.settle();
        lab.judge();
        if lab.w.failed() {
            break;
        }
        // Frames accepted beyond the wire, per stream.
        let un: Vec<(u32, u64)> = hs.iter().map(|h| lab.w.with(0, h.id, |t| (t.id, t.acc_writes.saturating_sub(t.tx_frames), )) ).collect();
        let sus: Vec<bool> = hs.iter().map(|h| lab.w.with(0, h.id, |t| t.pend[1] && t.credit() > 0)).collect();
        for (i, (id, k)) in un.iter().enumerate() {
            if *k >= 33 {
                lab.w.find(&["C22"], format!("stream {id}: {k} frames accepted beyond those on the wire"));
            }
            if sus[i] {
                lab.w.hit("suspended_by_transport", 1)
            } else if guard <= 5000 && lab.w.with(0, *id, |t| t.credit() > 0 && !t.close_called) {
                lab.w.find(&["C22"], format!("stream {id}: the writer is not suspended although the transport takes nothing"));
            }
        }
        // What one stream alone can have is the least seen; the rest is queued by the connection.
        if un.len() > 1 && sus.iter().all(|s| *s) {
            let min = un.iter().map(|u| u.1).min().unwrap();
            let extra: u64 = un.iter().map(|u| u.1 - min).sum();
            if extra > 4 {
                lab.w.find(&["C22"], format!("the connection holds {extra} frames of its streams"));
            }
            lab.w.hit("queues_measured", 1);
        }
        // What arrives can be read all the same, credit for it can not be sent.
        if rng.pct(60) {
            for _ in 0..rng.range(1, 12) {
                let known: Vec<&H> = hs.iter().filter(|h| h.alive() && lab.w.with(0, h.id, |t| t.tx_any || !t.local)).collect();
                if known.is_empty() || lab.w.failed() || lab.ended(0) {
                    break;
                }
                let h = known[rng.below(known.len() as u64) as usize];
                if rng.pct(80) && !lab.w.with(0, h.id, |t| t.pend[0]) {
                    let n = rng.pick(&[1usize, 100, 50_000, 1 << 17, 1 << 18]);
                    let op = if rng.pct(30) { LOp::Packet } else { LOp::Read(n) };
                    lab.op(h, op);
                }
                if rng.pct(70) {
                    let (off, left) = lab.w.with(0, h.id, |t| (t.rx_data, t.granted_left()));
                    let n = (left.max(0) as usize).min(rng.pick(&[1usize, 1000, 1 << 16, 1 << 17, 1 << 17, 1 << 18]));
                    if n > 0 && !lab.w.with(0, h.id, |t| t.rx_fin || t.rx_rst) {
                        lab.send_data(0, h.id, off, n);
                    }
                }
                lab.judge();
            }
            lab.w.hit("blocked_reads", 1);
            if lab.w.failed() {
                break;
            }
        }
        // Pings are not answered without bound either.
        let taken = |l: &Lab| l.w.b().side[0].frames_rx as i64 - l.w.b().side[0].frames_tx as i64;
        let f0 = taken(&lab);
        for i in 0..rng.pick(&[0u32, 5, 5, 40, 40, 2000]) {
            lab.send(PING, SYN, 0, i);
        }
        lab.settle();
        let eaten = taken(&lab) - f0;
        if eaten > 5 {
            lab.w.find(if eaten > 1000 { &["C22", "C10"] } else { &["C22"] }, format!("{eaten} pings taken in although no answer can be sent"));
        }
        // Streams closed or dropped while blocked.
        for h in &hs {
            if rng.pct(10) && h.alive() && !lab.w.with(0, h.id, |t| t.close_called) {
                lab.abandon_stream(h.id);
                lab.op(h, LOp::Close);
            }
        }
        lab.settle();
        // Slowly moving again.
        if rng.pct(60) {
            lab.drain[0] = false;
            let cap = rng.pick(&[1usize, 12, 13, 1000, 20_000]);
            lab.net.0.borrow_mut().d[0].cfg.cap = cap;
            lab.net.block(0, false);
            for _ in 0..rng.range(1, 60) {
                lab.net.take(0, cap);
                lab.settle();
                if lab.w.failed() {
                    break;
                }
            }
            lab.net.0.borrow_mut().d[0].cfg.cap = 1 << 30;
            lab.drain[0] = true;
            lab.net.take(0, 1 << 30);
        } else {
            lab.net.block(0, false)
        }
        lab.flow[0] = true;
        lab.judge();
        let still = hs.iter().filter(|h| h.alive() && lab.w.with(0, h.id, |t| t.pend[1] && t.credit() > 0)).count();
        if still > 0 && !lab.w.failed() && !lab.ended(0) {
            lab.w.find(&["C22", "C03"], format!("{still} writers stay suspended although the transport moves again"));
        }
        lab.w.hit("blocked_rounds", 1);
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Many busy streams, some without credit or readers, over a transport that is always full.
pub fn fair(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.split = rng.pick(&[16 * 1024usize, 1000, 1000, 100]);
    let mut t = TCfg::plain();
    t.cap = rng.pick(&[1usize, 12, 100, 1012, 1013, 5000, 16_396]);
    if cf.split > 1000 && t.cap < 100 {
        t.cap = 1000
    }
    if rng.pct(20) {
        t.pend = rng.range(1, 60)
    }
    let mut lab = Lab::solo(c.seed, cf, t.clone(), TCfg::plain(), c.verbose);
    lab.drain[0] = false;
    let pump = |lab: &mut Lab, n: u64| {
        for _ in 0..n {
            lab.net.take(0, 1 << 30);
            lab.settle();
        }
    };
    pump(&mut lab, 20);
    let m = rng.pick(&[2u64, 3, 5, 12, 40]);
    let mut hs = Vec::new();
    let mut pid: u32 = if cf.client { 2 } else { 1 };
    for _ in 0..m {
        if rng.pct(60) {
            lab.open(0);
        } else {
            lab.send(WIN, SYN, pid, 1 << 20);
            pid += 2;
        }
        pump(&mut lab, 1);
        take(&mut lab, &mut hs);
    }
    // Readers that stopped: the peer fills their windows.
    for h in &hs {
        if rng.pct(30) && lab.w.with(0, h.id, |t| t.rx_syn) {
            lab.send_data(0, h.id, 0, CREDIT as usize);
            lab.w.hit("stopped_readers", 1);
        }
    }
    let greedy = rng.pct(50);
    let steps = rng.range(20, if c.thorough { 600 } else { 150 });
    let mut waiting_ping: Option<(u64, u64)> = None;
    for i in 0..steps {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        for (k, h) in hs.iter().enumerate() {
            if !h.alive() || lab.w.with(0, h.id, |t| t.pend[1] || t.close_called) {
                continue;
            }
            if (greedy && k % 3 != 2) || rng.pct(15) {
                let n = if greedy && k % 3 == 0 { 100_000 } else { rng.range(1, 3000) };
                lab.op(h, LOp::WriteAll(n));
            } else if rng.pct(1) && !greedy {
                lab.op(h, LOp::Close);
            } else if rng.pct(1) {
                lab.abandon_stream(h.id);
                h.drop_stream();
            }
        }
        if rng.pct(20) {
            for h in &hs {
                if h.alive() && rng.pct(20) && lab.w.with(0, h.id, |t| t.tx_any && t.credit() < 1 << 24) {
                    lab.send(WIN, 0, h.id, rng.range(1, 100_000) as u32);
                }
            }
        }
        if rng.pct(10) {
            lab.send(PING, SYN, 0, i as u32);
        }
        if rng.pct(5) {
            lab.open(0);
        }
        pump(&mut lab, 1);
        take(&mut lab, &mut hs);
        // A ping is answered within a few frames, however busy the streams are.
        let owed = lab.w.b().side[0].pongs.iter().any(|p| p.1);
        let now = lab.w.b().side[0].frames_tx;
        let sent = lab.w.b().cov.get("pongs").copied().unwrap_or(0);
        match (owed, waiting_ping) {
            (false, _) => waiting_ping = None,
            (true, Some((k, f))) if k == sent => {
                if now > f + 40 {
                    lab.w.find(&["C21", "C20"], format!("a ping waits while {} frames are sent", now - f));
                }
            }
            _ => waiting_ping = Some((sent, now)),
        }
    }
    lab.w.hit("fair_steps", steps);
    lab.net.0.borrow_mut().d[0].cfg.cap = 1 << 30;
    lab.drain[0] = true;
    lab.net.take(0, 1 << 30);
    lab.judge();
    let w = lab.w.clone();
    let multi = w.b().side[0].st.values().filter(|t| t.tx_frames > 3).count();
    w.hit("busy_streams", multi as u64);
    c.finish(&lab.w);
}

/// One stream's reader has stopped, or its writer has no credit: everything else goes on.
pub fn stuck(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let a = SideCfg::dflt(rng.pct(50));
    let b = SideCfg::dflt(!a.client);
    let (mut ta, mut tb) = (TCfg::plain(), TCfg::plain());
    if rng.pct(50) {
        ta.cap = rng.pick(&[100usize, 1000, 20_000]);
        tb.cap = rng.pick(&[100usize, 1000, 20_000]);
    }
    let mut lab = Lab::new(c.seed, a, b, ta, tb, c.verbose);
    let n = rng.range(1, 6);
    let mut stuck: Vec<(H, H)> = Vec::new();
    for _ in 0..n {
        let s = rng.below(2) as usize;
        let Some(x) = lab.open_now(s) else { break };
        lab.now(&x, LOp::Write(1));
        let Some(y) = lab.e[1 - s].inbox.pop_front() else { break };
        // One or both directions are filled to the last byte; nobody reads.
        if rng.pct(70) {
            lab.op(&x, LOp::WriteAll(CREDIT + rng.range(0, 100_000)));
        }
        if rng.pct(70) {
            lab.op(&y, LOp::WriteAll(CREDIT + rng.range(0, 100_000)));
        }
        stuck.push((x, y));
    }
    lab.judge();
    // Everything else works.
    for _ in 0..rng.range(1, 6) {
        if lab.w.failed() {
            break;
        }
        let s = rng.below(2) as usize;
        let Some(x) = lab.open_now(s) else {
            lab.w.find(&["C21", "C03"], "no new stream while others are stuck".into());
            break;
        };
        let k = rng.range(1, 600_000);
        lab.op(&x, LOp::WriteAll(k));
        lab.settle();
        let Some(y) = lab.e[1 - s].inbox.pop_front() else {
            lab.w.find(&["C21", "C03"], "a new stream does not surface while others are stuck".into());
            break;
        };
        lab.op(&y, LOp::Drain(70_000, k));
        lab.judge();
        let (sent, read) = (lab.w.with(s, x.id, |t| t.accepted), lab.w.with(1 - s, y.id, |t| t.read));
        if sent != k || read != k {
            lab.w.find(&["C21", "C03"], format!("stream {} moved {read} of {k} bytes while others are stuck", x.id));
        }
        lab.w.hit("unhindered", 1);
        if rng.pct(50) {
            lab.now(&x, LOp::Close);
            lab.now(&y, LOp::Close);
        }
        if rng.pct(30) {
            let p = lab.w.b().cov.get("rtts").copied().unwrap_or(0);
            lab.pass(11 * SEC);
            lab.nudge(0);
            lab.nudge(1);
            let q = lab.w.b().cov.get("rtts").copied().unwrap_or(0);
            if q > p {
                lab.w.hit("pings_unhindered", 1)
            }
        }
    }
    // The stuck ones can go on.
    for (x, y) in &stuck {
        lab.op(x, LOp::Drain(70_000, u64::MAX));
        lab.op(y, LOp::Drain(70_000, u64::MAX));
    }
    lab.judge();
    for (x, y) in &stuck {
        for (h, o) in [(x, y), (y, x)] {
            let sent = lab.w.with(h.s, h.id, |t| (t.accepted, t.pend[1]));
            let read = lab.w.with(o.s, o.id, |t| t.read);
            if !lab.w.failed() && (sent.0 != read || sent.1) {
                lab.w.find(&["C03", "C21"], format!("stream {}: {} bytes written, {read} read at the end", h.id, sent.0));
            }
        }
    }
    c.finish(&lab.w);
}

/// Pings in both directions, with exact times.
pub fn ping(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let cf = SideCfg::dflt(rng.pct(50));
    let (mut t0, mut t1) = (TCfg::plain(), TCfg::plain());
    if rng.pct(40) {
        t0.wmax = rng.pick(&[1usize, 5, 12, 100]);
        t1.rmax = rng.pick(&[1usize, 5, 12, 13, 100]);
    }
    if rng.pct(30) {
        t0.buffered = rng.pick(&[1usize, 100, 1 << 20]);
        t0.slow_flush = rng.pct(50);
    }
    if rng.pct(30) {
        t0.pend = rng.range(1, 60)
    }
    let mut lab = Lab::solo(c.seed, cf, t0, t1, c.verbose);
    lab.settle();
    let m = rng.below(4);
    let hs = streams(&mut lab, &mut rng, m, cf);
    for _ in 0..rng.range(5, 50) {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        match rng.below(10) {
            0..=3 => {
                let k = rng.pick(&[1u64, 1, 2, 5, 30]);
                let mut b = Vec::new();
                for i in 0..k {
                    let v = rng.pick(&[0u32, 1, u32::MAX, i as u32, 1000 + i as u32]);
                    b.extend(frame(PING, SYN, 0, v));
                    if rng.pct(20) {
                        b.extend(data(0, 4_000_000, &[0; 9]));
                    }
                }
                let cut = rng.below(b.len() as u64 + 1) as usize;
                lab.inject(&b[..cut]);
                if rng.pct(40) {
                    lab.settle();
                }
                if let (true, Some(h)) = (rng.pct(50), hs.last()) {
                    if !lab.w.with(0, h.id, |t| t.pend[1]) {
                        lab.op(h, LOp::Write(2000))
                    }
                }
                lab.inject(&b[cut..]);
                lab.w.hit("ping_bursts", 1);
                lab.judge();
            }
            4..=6 => {
                let v = lab.w.b().side[0].own_ping;
                if let Some(v) = v {
                    if rng.pct(70) {
                        let d = rng.pick(&[0i64, 1, MS, 500 * MS, 30 * SEC]);
                        lab.pass(d);
                        lab.send(PING, ACK, 0, v);
                        lab.judge();
                    } else {
                        // An answer that takes forever: still no second ping.
                        lab.pass(100 * SEC);
                        for _ in 0..3 {
                            lab.nudge(0)
                        }
                    }
                }
            }
            7..=8 => {
                let last = lab.w.b().side[0].last_pong;
                let own = lab.w.b().side[0].own_ping;
                if let (Some(p), None) = (last, own) {
                    let due = p + 10 * SEC;
                    for t in [due - SEC, due - 1, due] {
                        if t > vclock::now() {
                            lab.run_until(t);
                            lab.nudge(0);
                        }
                    }
                    lab.w.hit("ping_intervals", 1);
                }
            }
            _ => {
                lab.pass(rng.range(0, 4000) as i64 * MS);
                lab.nudge(0);
            }
        }
    }
    lab.judge();
    c.finish(&lab.w);
}
