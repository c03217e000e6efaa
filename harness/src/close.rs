//! Closing a connection under pressure: full or blocked transports, a peer that writes before it reads,
//! both ends closing, pending open requests, operations started while closing.
use crate::handle::H;
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::MS;
use crate::wire::*;
use crate::world::*;

fn take(lab: &mut Lab, hs: &mut [Vec<H>; 2]) {
    for s in 0..2 {
        while let Some(h) = lab.e[s].inbox.pop_front() {
            hs[s].push(h)
        }
        while let Some(h) = lab.e[s].opened.pop_front() {
            hs[s].push(h)
        }
    }
}

fn start_ops(lab: &mut Lab, r: &mut Rng, s: usize, hs: &[H], pct: u64) {
    for h in hs.iter().filter(|h| h.alive()) {
        let p = lab.w.with(s, h.id, |t| t.pend);
        if !p[0] && r.pct(pct) {
            lab.op(h, if r.pct(50) { LOp::Drain(r.pick(&[10usize, 3000, 1 << 18]), u64::MAX) } else { LOp::Packet })
        }
        if !p[1] && !p[3] && r.pct(pct) {
            match r.below(4) {
                0 => lab.op(h, LOp::Close),
                _ => lab.op(h, LOp::WriteAll(r.range(1, 300_000))),
            }
        }
        if !p[2] && r.pct(pct / 3) {
            lab.op(h, LOp::Flush)
        }
    }
}

fn finish(lab: &mut Lab, s: usize, hs: &[H]) {
    // After the close: every operation ends, and using the connection again is safe.
    for h in hs.iter().filter(|h| h.alive()) {
        let p = lab.w.with(s, h.id, |t| t.pend);
        if p.iter().any(|x| *x) {
            continue;
        }
        if lab.now(h, LOp::Write(1)) != Some(Err(())) {
            lab.w.find(&["C16", "C17"], format!("side {s} stream {}: write after close does not fail", h.id));
        }
        lab.op(h, LOp::Drain(1 << 18, u64::MAX));
        for o in [LOp::Flush, LOp::Close] {
            if lab.now(h, o).is_none() {
                lab.w.find(&["C16"], format!("side {s} stream {}: {o:?} hangs after close", h.id));
            }
        }
    }
    lab.judge();
    let st = lab.net.stats(s);
    if lab.w.b().side[s].closed && lab.e[s].conn.is_some() {
        lab.open(s);
        lab.settle();
        if lab.e[s].want_open > 0 || !lab.e[s].opened.is_empty() {
            lab.w.find(&["C16"], format!("side {s}: opening after close does not fail"));
        }
        lab.poll_after_end(s);
        let st2 = lab.net.stats(s);
        if lab.w.b().side[s].closed_ok && lab.w.b().side[s].ended.is_none() {
            if st2.close_ok != 1 {
                lab.w.find(&["C16"], format!("side {s}: transport closed {} times", st2.close_ok));
            }
            lab.w.hit("closed_ok", 1);
        }
        if st2.after_close > 0 || st2.writes != st.writes || st2.flushes != st.flushes {
            lab.w.find(&["C18", "C16"], format!("side {s}: transport used after its close"));
        }
    }
}

/// One endpoint, scripted peer.
pub fn solo(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 100]);
    cf.rac = rng.pct(75);
    solo_with(c, rng, cf)
}

pub fn solo_with(c: &mut Ctx, mut rng: Rng, mut cf: SideCfg) {
    let (mut t0, mut t1) = (TCfg::plain(), TCfg::plain());
    if rng.pct(40) {
        t0.wmax = rng.pick(&[5usize, 12, 13, 1000]);
        if t0.wmax < 1000 {
            cf.split = cf.split.min(1000)
        }
    }
    if rng.pct(30) {
        t0.pend = rng.range(1, 50);
        t1.pend = rng.range(1, 50);
    }
    if rng.pct(40) {
        t0.buffered = rng.pick(&[1usize, 50, 2000, 1 << 20]);
        t0.slow_flush = rng.pct(50);
        t0.soak = rng.pct(60);
    }
    if rng.pct(30) {
        t1.rmax = rng.pick(&[1usize, 11, 12, 13, 500])
    }
    let mut lab = Lab::solo(c.seed, cf, t0, t1, c.verbose);
    let mut hs: [Vec<H>; 2] = [vec![], vec![]];
    let n = rng.range(0, 6);
    for _ in 0..n {
        lab.open(0);
        lab.settle();
        take(&mut lab, &mut hs);
    }
    let mut pid: u32 = if cf.client { 2 } else { 1 };
    for _ in 0..rng.range(0, 4) {
        let k = rng.below(5000) as usize;
        lab.send_data(SYN, pid, 0, k);
        pid += 2;
    }
    lab.settle();
    take(&mut lab, &mut hs);
    let v = hs[0].clone();
    if rng.pct(70) {
        start_ops(&mut lab, &mut rng, 0, &v, 60);
        lab.settle();
    }
    if rng.pct(30) {
        lab.judge();
    }
    // The transport stops taking bytes.
    let blocked = rng.pct(60);
    if blocked {
        lab.net.block(0, true);
        lab.flow[0] = false;
    }
    start_ops(&mut lab, &mut rng, 0, &v, 50);
    lab.settle();
    for h in &v {
        if rng.pct(15) && h.alive() {
            lab.abandon_stream(h.id);
            h.drop_stream();
        }
    }
    if rng.pct(50) {
        lab.settle();
    }
    if rng.pct(30) && blocked {
        // An answer is already waiting.
        for i in 0..rng.range(1, 4) {
            lab.send(PING, SYN, 0, i as u32);
        }
        lab.settle();
    }
    let opener = rng.pct(20);
    if opener && blocked && lab.w.b().side[0].st.len() < 100 {
        for _ in 0..257 {
            lab.open(0);
        }
        lab.settle();
        take(&mut lab, &mut hs);
    }
    lab.close(0);
    if rng.pct(50) {
        lab.judge();
    }
    // Operations during the close.
    if rng.pct(60) {
        start_ops(&mut lab, &mut rng, 0, &v, 40);
        lab.judge();
        for h in v.iter().filter(|h| h.alive()) {
            if !lab.w.with(0, h.id, |t| t.pend[1] || t.pend[3]) && lab.now(h, LOp::Write(5)) == Some(Ok(5)) {
                lab.w.find(&["C16"], format!("stream {}: write accepted while the connection is closing", h.id));
            }
        }
    }
    if rng.pct(20) {
        for h in v.iter().filter(|h| h.alive()) {
            if rng.pct(40) {
                lab.abandon_stream(h.id);
                h.drop_stream();
            }
        }
    }
    // The peer keeps sending; while our writes are blocked it must get rid of its bytes first.
    let flood = rng.pct(70);
    if flood {
        let ids: Vec<u32> = lab.w.b().side[0].st.keys().copied().collect();
        for _ in 0..rng.range(1, 60) {
            let id = if ids.is_empty() || rng.pct(20) { pid } else { rng.pick(&ids) };
            match rng.below(8) {
                0 => lab.send(PING, SYN, 0, rng.below(100) as u32),
                1 => lab.send(WIN, 0, id, rng.below(10_000) as u32),
                2 => {
                    lab.send_data(SYN, pid, 0, 100);
                    pid += 2
                }
                3 => lab.send(DATA, RST, id, 0),
                4 => lab.send(DATA, FIN, id, 0),
                _ => {
                    let n = rng.pick(&[0usize, 1, 1000, 16_384]);
                    lab.inject(&data(0, id, &vec![0; n]));
                }
            }
        }
        lab.settle();
        if !lab.w.b().side[0].closed {
            let left = lab.net.readable(1);
            lab.w.hit("closing_flooded", 1);
            if left > 0 {
                lab.w.find(&["C16"], format!("closing endpoint leaves {left} bytes of its peer unread while it cannot write"));
            }
        }
    }
    match rng.below(6) {
        0 => {
            lab.send(GOAWAY, 0, 0, 0);
            lab.w.hit("goaway_while_closing", 1);
        }
        1 => lab.net.eof(1),
        2 if rng.pct(30) => lab.inject(&[9; 30]),
        _ => {}
    }
    lab.settle();
    if blocked {
        // Moves again, in small steps at first.
        if rng.pct(50) {
            lab.drain[0] = false;
            lab.net.block(0, false);
            lab.net.0.borrow_mut().d[0].cfg.cap = rng.pick(&[1usize, 12, 100, 5000]);
            let cap = lab.net.0.borrow().d[0].cfg.cap;
            for _ in 0..rng.range(1, 200) {
                lab.net.take(0, cap);
                lab.settle();
            }
            lab.net.0.borrow_mut().d[0].cfg.cap = 1 << 30;
            lab.drain[0] = true;
            lab.net.take(0, 1 << 30);
        } else {
            lab.net.block(0, false);
        }
        lab.flow[0] = true;
    }
    lab.judge();
    if rng.pct(20) {
        lab.pass(100 * MS);
        lab.judge();
    }
    take(&mut lab, &mut hs);
    lab.w.hit("lab_closes", 1);
    if !lab.w.failed() {
        let v = hs[0].clone();
        finish(&mut lab, 0, &v);
    }
    c.finish(&lab.w);
}

/// Two endpoints with small transports, one or both closing.
pub fn duo(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut a = SideCfg::dflt(rng.pct(50));
    let mut b = SideCfg::dflt(!a.client);
    for x in [&mut a, &mut b] {
        x.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 100]);
        x.rac = rng.pct(75);
    }
    let t = |rng: &mut Rng| {
        let mut t = TCfg::plain();
        t.cap = rng.pick(&[1usize, 11, 12, 13, 100, 1000, 20_000, 1 << 30]);
        if rng.pct(30) {
            t.pend = rng.range(1, 50)
        }
        if rng.pct(30) {
            t.buffered = rng.pick(&[1usize, 50, 2000]);
            t.slow_flush = rng.pct(50);
        }
        t
    };
    let (ta, tb) = (t(&mut rng), t(&mut rng));
    let tiny = ta.cap < 100 || tb.cap < 100;
    let mut lab = Lab::new(c.seed, a, b, ta, tb, c.verbose);
    let mut hs: [Vec<H>; 2] = [vec![], vec![]];
    for s in 0..2 {
        for _ in 0..rng.range(0, 5) {
            lab.open(s);
            lab.settle();
            take(&mut lab, &mut hs);
        }
    }
    let rounds = rng.range(1, 4);
    for i in 0..rounds {
        for s in 0..2 {
            let v = hs[s].clone();
            for h in v.iter().filter(|h| h.alive()) {
                let p = lab.w.with(s, h.id, |t| t.pend);
                if !p[0] && rng.pct(60) {
                    lab.op(h, LOp::Drain(5000, u64::MAX))
                }
                if !p[1] && !p[3] && rng.pct(70) {
                    let n = if tiny { rng.range(1, 2000) } else { rng.range(1, 400_000) };
                    lab.op(h, if rng.pct(80) { LOp::WriteAll(n) } else { LOp::Close })
                }
                if rng.pct(5) {
                    lab.abandon_stream(h.id);
                    h.drop_stream();
                }
            }
        }
        if i + 1 < rounds {
            lab.settle();
            take(&mut lab, &mut hs);
        }
    }
    let first = rng.below(2) as usize;
    let both = rng.pct(50);
    lab.close(first);
    if both {
        lab.close(1 - first)
    }
    lab.judge();
    take(&mut lab, &mut hs);
    if !both && rng.pct(50) && !lab.w.failed() {
        lab.close(1 - first);
        lab.judge();
    }
    for s in 0..2 {
        let v = hs[s].clone();
        if lab.w.b().side[s].closed && !lab.w.failed() {
            finish(&mut lab, s, &v)
        }
    }
    lab.w.hit("lab_closes", 1);
    c.finish(&lab.w);
}
