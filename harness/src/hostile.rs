//! A scripted peer talks to one endpoint: valid conversations, protocol violations, arbitrary frames,
//! and the same bytes in different fragmentations.
use crate::handle::H;
use crate::lab::{LOp, Lab};
use crate::pipe::TCfg;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::{self, MS, SEC};
use crate::wire::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Valid,
    Violate,
    Limit,
    Free,
}

pub fn tcfg(rng: &mut Rng) -> TCfg {
    let mut t = TCfg::plain();
    if rng.pct(40) {
        t.wmax = rng.pick(&[1usize, 5, 11, 12, 13, 100, 5000])
    }
    if rng.pct(50) {
        t.rmax = rng.pick(&[1usize, 5, 11, 12, 13, 24, 100, 5000])
    }
    if rng.pct(30) {
        t.pend = rng.range(1, 60)
    }
    if rng.pct(30) {
        t.buffered = rng.pick(&[1usize, 50, 1000, 1 << 20]);
        t.slow_flush = rng.pct(40);
    }
    t
}

pub fn cfg(rng: &mut Rng, limit: bool) -> SideCfg {
    let mut c = SideCfg::dflt(rng.pct(50));
    c.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 40_000, 1 << 20]);
    c.max_streams = if limit { rng.range(1, 6) as usize } else { rng.pick(&[512usize, 512, 300, 64, 20]) };
    c.limit = rng.pick(&[Some(1usize << 30), None, Some(c.max_streams * 256 * 1024), Some(c.max_streams * 256 * 1024 + 500_000)]);
    c.rac = rng.pct(75);
    c
}

struct Loc {
    off: u64,
    left: i64,
    credit: u64,
}

struct Peer {
    batch: Vec<u8>,
    loc: BTreeMap<u32, Loc>,
    slots: usize,
    pong: bool,
    seed: u64,
    client: bool,
    next: u32,
    /// The batch contains something whose outcome later frames of the batch depend on.
    last: bool,
}

impl Peer {
    fn data(&mut self, flags: u16, id: u32, off: u64, n: usize) {
        let mut b = vec![0; n];
        crate::prng::fill(key(self.seed, 1, id), off, &mut b);
        self.batch.extend(data(flags, id, &b));
    }
    fn put(&mut self, ty: u8, flags: u16, id: u32, len: u32) {
        self.batch.extend(frame(ty, flags, id, len))
    }
}

fn live(lab: &Lab) -> Vec<u32> {
    // A peer cannot know a stream that was not announced to it.
    lab.w.b().side[0].st.values().filter(|t| t.table != Table::Gone && (!t.local || t.tx_any)).map(|t| t.id).collect()
}

fn gone(lab: &Lab) -> Vec<u32> {
    lab.w.b().side[0].st.values().filter(|t| t.table == Table::Gone).map(|t| t.id).collect()
}

fn len_upto(rng: &mut Rng, max: u64) -> u64 {
    let v = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max.saturating_sub(1),
        4 => rng.range(0, max),
        _ => rng.range(0, 3000),
    };
    v.min(max)
}

/// Adds one frame that violates no rule.
fn valid(lab: &Lab, rng: &mut Rng, p: &mut Peer) {
    let ids = live(lab);
    let k = rng.below(100);
    if k < 14 || ids.is_empty() && k < 60 {
        if p.slots == 0 {
            return;
        }
        let id = if rng.pct(6) {
            match gone(lab).into_iter().find(|i| *i != 0 && (i % 2 == 1) == p.client && !p.loc.contains_key(i)) {
                Some(i) => i,
                None => return,
            }
        } else {
            p.next = p.next.wrapping_add(if rng.pct(80) { 2 } else { 2 * rng.range(1, 1000) as u32 });
            if rng.pct(2) {
                p.next = u32::MAX - if p.client { 0 } else { 1 } - 2 * rng.below(50) as u32;
                while lab.w.b().side[0].st.contains_key(&p.next) || p.loc.contains_key(&p.next) {
                    p.next -= 2
                }
                let id = p.next;
                p.next = 200_000 + p.client as u32 + 2 * rng.below(1000) as u32 + 2 * p.loc.len() as u32 * 5000;
                id
            } else {
                p.next
            }
        };
        if lab.w.b().side[0].st.get(&id).map_or(false, |t| t.table != Table::Gone) || p.loc.contains_key(&id) {
            return;
        }
        p.slots -= 1;
        let fin = if rng.pct(10) { FIN } else { 0 };
        if rng.pct(50) {
            let n = len_upto(rng, CREDIT);
            p.data(SYN | fin, id, 0, n as usize);
            p.loc.insert(id, Loc { off: n, left: CREDIT as i64 - n as i64, credit: CREDIT });
        } else {
            let n = match rng.below(4) {
                0 => 0,
                1 => rng.range(1, 300_000) as u32,
                2 => u32::MAX - CREDIT as u32,
                _ => rng.range(0, 1 << 24) as u32,
            };
            p.put(WIN, SYN | fin, id, n);
            p.loc.insert(id, Loc { off: 0, left: CREDIT as i64, credit: CREDIT + n as u64 });
        }
        return;
    }
    if ids.is_empty() || (30..36).contains(&k) {
        // Streams the endpoint does not know.
        let id = match rng.below(3) {
            0 => rng.pick(&[77_777u32, 77_778, 0xFFFF_FFF0, 0xFFFF_FFF1]),
            _ => gone(lab).last().copied().unwrap_or(99_999),
        };
        if id == 0 || ids.contains(&id) || p.loc.contains_key(&id) {
            return;
        }
        let f = rng.pick(&[0, 0, ACK, FIN, RST]);
        if rng.pct(60) {
            let n = len_upto(rng, 300_000) as usize;
            p.data(f, id, 0, n)
        } else {
            p.put(WIN, f, id, rng.u64() as u32)
        }
        return;
    }
    if k < 24 {
        match rng.below(4) {
            0 => p.put(PING, SYN, rng.pick(&ids), rng.u64() as u32),
            _ => p.put(PING, SYN, 0, rng.u64() as u32),
        }
        return;
    }
    if k < 30 {
        let v = lab.w.b().side[0].own_ping;
        if let (Some(v), false) = (v, p.pong) {
            p.pong = true;
            p.put(PING, ACK, 0, v)
        }
        return;
    }
    let id = rng.pick(&ids);
    let ack = {
        let b = lab.w.b();
        let t = &b.side[0].st[&id];
        let l = p.loc.entry(id).or_insert(Loc { off: t.rx_data, left: t.granted_left(), credit: t.credit() });
        let _ = l;
        if t.local && rng.pct(40) {
            ACK
        } else {
            0
        }
    };
    let ended = {
        let b = lab.w.b();
        let t = &b.side[0].st[&id];
        t.rx_fin || t.rx_rst
    };
    match rng.below(20) {
        0 => p.put(rng.pick(&[DATA, WIN]), RST | ack, id, 0),
        1 => {
            p.put(WIN, FIN | ack, id, 0);
            p.last = true
        }
        2..=6 => {
            let l = p.loc.get_mut(&id).unwrap();
            let room = (u32::MAX as u64).saturating_sub(l.credit);
            let n = match rng.below(5) {
                0 => 0,
                1 => room,
                2 => room / 2,
                _ => rng.range(1, 500_000),
            }
            .min(room);
            l.credit += n;
            p.put(WIN, ack, id, n as u32)
        }
        7..=8 => p.put(WIN, ack, id, 0),
        _ => {
            let l = p.loc.get_mut(&id).unwrap();
            let n = len_upto(rng, (l.left.max(0) as u64).min(1 << 20));
            let (off, _) = (l.off, ());
            l.left -= n as i64;
            if !ended {
                l.off += n
            }
            let fin = if rng.pct(8) { FIN } else { 0 };
            p.data(ack | fin, id, off, n as usize);
            if fin != 0 {
                p.last = true
            }
        }
    }
}

/// Adds one frame that breaks a rule (or may do so); it is the last of its batch.
fn violation(lab: &mut Lab, rng: &mut Rng, p: &mut Peer) {
    p.last = true;
    let kind = rng.below(9);
    let reading = lab.w.b().side[0].st.values().any(|t| t.pend[Op::Read as usize] && t.table == Table::Live);
    if (kind == 5 && reading || kind == 7) && !p.batch.is_empty() {
        // What the batch makes the endpoint grant or ask must be on the wire before a frame is wrong.
        let b = std::mem::take(&mut p.batch);
        lab.inject(&b);
        lab.settle();
        p.loc.clear();
        p.pong = false;
        if lab.ended(0) {
            return;
        }
    }
    if kind == 7 {
        // A ping that is due goes out first; at times one or more are answered and the next one waited for.
        for _ in 0..rng.pick(&[0u64, 0, 1, 1, 2, 5]) {
            let v = lab.w.b().side[0].own_ping;
            if let Some(v) = v {
                lab.send(PING, ACK, 0, v);
                lab.settle();
            }
            lab.run_until(vclock::now() + 10_000_000_000 + rng.below(2) as i64);
            lab.nudge(0);
            lab.settle();
            if lab.ended(0) {
                return;
            }
        }
        if lab.w.b().side[0].own_ping.is_none() {
            lab.nudge(0);
            lab.settle();
            if lab.ended(0) {
                return;
            }
        }
        if lab.w.b().side[0].own_ping.map_or(false, |v| v > 0) {
            lab.w.hit("stale_pongs", 1);
        }
    }
    let lab = &*lab;
    let ids = live(lab);
    let cfg = lab.w.cfg(0);
    let right = p.next.wrapping_add(2);
    let wrong = if p.client { 2 * rng.range(1, 40) as u32 } else { 2 * rng.range(1, 40) as u32 + 1 };
    let syn = |rng: &mut Rng, p: &mut Peer, id: u32| {
        let f = SYN | rng.pick(&[0, 0, 0, FIN]);
        if rng.pct(50) {
            let n = rng.below(100) as usize;
            p.data(f, id, 0, n)
        } else {
            p.put(WIN, f, id, rng.below(1000) as u32)
        }
    };
    let fl = rng.pick(&[0, 0, 0, FIN, ACK, FIN | ACK]);
    match kind {
        0 => syn(rng, p, wrong),
        1 => syn(rng, p, 0),
        2 => {
            // In use: prefer streams of the right parity.
            // (A dropped stream stays in use until the peer has been told.)
            let l: Vec<u32> = ids.iter().copied().filter(|i| (i % 2 == 1) == p.client && lab.w.b().side[0].st[i].table == Table::Live).collect();
            if let Some(i) = l.last() {
                syn(rng, p, *i)
            }
        }
        3 => {
            let n = CREDIT as usize + rng.pick(&[1usize, 2, 1000, 500_000, (1 << 20) - CREDIT as usize]);
            p.data(SYN | fl, right, 0, n)
        }
        4 => p.put(WIN, SYN | fl, right, u32::MAX - CREDIT as u32 + 1 + rng.below(CREDIT) as u32),
        5 if !ids.is_empty() => {
            let id = rng.pick(&ids);
            let (off, left) = {
                let b = lab.w.b();
                let t = &b.side[0].st[&id];
                p.loc.get(&id).map_or((t.rx_data, t.granted_left()), |l| (l.off, l.left))
            };
            let n = (left.max(0) as u64 + rng.pick(&[1u64, 2, 100, 100_000])).min(1 << 20);
            p.data(fl, id, off, n as usize)
        }
        6 if !ids.is_empty() => {
            let id = rng.pick(&ids);
            let c = lab.w.b().side[0].st[&id].credit();
            let n = (u32::MAX as u64 - c) + 1 + rng.pick(&[0, 0, 5, 1000]);
            if n <= u32::MAX as u64 {
                p.put(WIN, fl, id, n as u32)
            } else {
                p.put(WIN, 0, id, u32::MAX)
            }
        }
        7 => {
            let v = lab.w.b().side[0].own_ping;
            if p.pong {
                return;
            }
            match v {
                Some(v) => {
                    let d = rng.pick(&[1u32, 2, 3, u32::MAX, u32::MAX, u32::MAX - 1, v.wrapping_neg(), 1 << 8, 1 << 16, 1 << 31]);
                    p.put(PING, ACK, 0, v.wrapping_add(if d == 0 { u32::MAX } else { d }))
                }
                // Also the answer to a ping answered before.
                None => {
                    let r = rng.u64() as u32;
                    let v = rng.pick(&[0, 1, 2, 3, r]);
                    p.put(PING, ACK, 0, v)
                }
            }
        }
        _ => {
            // Fill the table, then one too many.
            let (_, hi) = lab.w.b().slots(0);
            if cfg.max_streams > 64 && !rng.pct(10) || cfg.max_streams > 600 {
                return;
            }
            let mut id = right;
            for _ in hi..cfg.max_streams {
                p.put(WIN, SYN, id, 0);
                id += 2
            }
            syn(rng, p, id);
            p.next = id;
        }
    }
}

pub fn app_op(lab: &mut Lab, rng: &mut Rng, hs: &mut Vec<H>) {
    hs.retain(|h| h.alive());
    if hs.is_empty() {
        return;
    }
    let h = hs[rng.below(hs.len() as u64) as usize].clone();
    let pend = lab.w.with(0, h.id, |t| t.pend);
    match rng.below(24) {
        0..=9 => {
            if pend[Op::Read as usize] {
                return;
            }
            let op = match rng.below(6) {
                0 => LOp::Packet,
                1 => LOp::Drain(rng.pick(&[100usize, 5000, 70_000]), u64::MAX),
                2 => LOp::Read(1),
                3 => LOp::Read(rng.range(1, 300_000) as usize),
                _ => LOp::Read(rng.range(1, 3000) as usize),
            };
            lab.op(&h, op)
        }
        10..=16 => {
            if pend[Op::Write as usize] || pend[Op::Close as usize] {
                return;
            }
            let op = match rng.below(6) {
                0 => LOp::WriteAll(rng.range(1, 600_000)),
                1 => LOp::Write(1),
                2 => LOp::Write(rng.range(1, 100_000) as usize),
                _ => LOp::Write(rng.range(1, 3000) as usize),
            };
            lab.op(&h, op)
        }
        17..=18 => {
            if !pend[Op::Flush as usize] {
                lab.op(&h, LOp::Flush)
            }
        }
        19..=20 => {
            if !pend[Op::Write as usize] && !pend[Op::Close as usize] {
                lab.op(&h, LOp::Close)
            }
        }
        _ => {
            lab.abandon_stream(h.id);
            h.drop_stream();
        }
    }
}

fn collect(lab: &mut Lab, hs: &mut Vec<H>) {
    while let Some(h) = lab.e[0].inbox.pop_front() {
        hs.push(h)
    }
    while let Some(h) = lab.e[0].opened.pop_front() {
        hs.push(h)
    }
}

/// Reads everything left on all streams and looks at every operation once more.
pub fn aftermath(lab: &mut Lab, rng: &mut Rng, hs: &[H]) {
    for h in hs.iter().filter(|h| h.alive()) {
        let pend = lab.w.with(0, h.id, |t| t.pend);
        if !pend[Op::Read as usize] {
            let op = if rng.pct(50) { LOp::Drain(rng.pick(&[1000usize, 70_000]), u64::MAX) } else { LOp::Packet };
            lab.op(h, op);
        }
        if rng.pct(60) && !pend[Op::Write as usize] && !pend[Op::Close as usize] {
            lab.op(h, if rng.pct(60) { LOp::Write(10) } else { LOp::Close });
        }
        if rng.pct(30) && !pend[Op::Flush as usize] {
            lab.op(h, LOp::Flush);
        }
    }
    lab.judge();
    for _ in 0..200 {
        let mut more = false;
        for h in hs.iter().filter(|h| h.alive()) {
            let (p, eof) = lab.w.with(0, h.id, |t| (t.pend[0], t.eof));
            if !p && !eof {
                more = true;
                lab.op(h, LOp::Drain(70_000, u64::MAX));
            }
        }
        if !more {
            break;
        }
        lab.judge();
        if lab.w.failed() {
            break;
        }
    }
}

pub fn end_it(lab: &mut Lab, rng: &mut Rng) -> bool {
    match rng.below(11) {
        0 | 1 => lab.net.eof(1),
        2 => {
            lab.inject(&frame(DATA, 0, 1, 5)[..rng.range(1, 11) as usize].to_vec());
            lab.net.eof(1)
        }
        3 => {
            let mut b = frame(DATA, 0, 1, 50);
            b.extend(vec![0; rng.below(50) as usize]);
            lab.inject(&b);
            lab.net.eof(1)
        }
        4 => lab.send(GOAWAY, 0, 0, rng.below(4) as u32),
        5 => {
            let mut b = frame(rng.below(4) as u8, 0, rng.below(3) as u32, rng.below(3) as u32);
            b[0] = rng.range(1, 255) as u8;
            lab.inject(&b)
        }
        6 => {
            let b = frame(rng.range(4, 255) as u8, rng.below(16) as u16, rng.below(3) as u32, rng.below(3) as u32);
            lab.inject(&b)
        }
        7 => {
            let n = rng.pick(&[(1u32 << 20) + 1, 1 << 21, 1 << 24, u32::MAX, 1 << 31]);
            lab.send(DATA, rng.below(16) as u16, rng.below(5) as u32, n)
        }
        8 => lab.close(0),
        9 => lab.drop_conn(0),
        _ => return false,
    }
    true
}

pub fn run(c: &mut Ctx, mode: Mode) {
    let mut rng = Rng::new(c.seed);
    let cf = cfg(&mut rng, mode == Mode::Limit);
    run_with(c, mode, rng, cf)
}

pub fn run_with(c: &mut Ctx, mode: Mode, mut rng: Rng, cf: SideCfg) {
    let (t0, t1) = (tcfg(&mut rng), tcfg(&mut rng));
    let slow = t0.wmax > 0 && t0.wmax < 100 || t1.rmax > 0 && t1.rmax < 100;
    let mut lab = Lab::solo(c.seed, cf, t0.clone(), t1.clone(), c.verbose);
    lab.w.say(|| format!("hostile {mode:?} {cf:?} {t0:?} {t1:?}"));
    if mode == Mode::Free {
        lab.w.m().free = true;
        free(c, &mut lab, &mut rng);
        c.finish(&lab.w);
        return;
    }
    let mut hs: Vec<H> = Vec::new();
    let mut p = Peer {
        batch: vec![],
        loc: BTreeMap::new(),
        slots: 0,
        pong: false,
        seed: c.seed,
        client: !cf.client,
        next: if cf.client { 0 } else { 1u32.wrapping_sub(2) },
        last: false,
    };
    let steps = if slow { rng.range(5, 30) } else { rng.range(10, if c.thorough { 200 } else { 80 }) };
    let vio = match mode {
        Mode::Violate => 12,
        Mode::Limit => 10,
        _ => 0,
    };
    for _ in 0..steps {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        match rng.below(10) {
            0..=5 => {
                // Everything sent so far has been processed: the model knows what is in use.
                lab.settle();
                collect(&mut lab, &mut hs);
                if lab.ended(0) {
                    break;
                }
                let (_, hi) = lab.w.b().slots(0);
                p.slots = cf.max_streams.saturating_sub(hi);
                p.loc.clear();
                p.pong = false;
                p.last = false;
                let n = rng.pick(&[1u64, 1, 2, 4, 8]);
                for _ in 0..n {
                    if p.last {
                        break;
                    }
                    if rng.pct(vio) {
                        // Dropped streams must be gone before the rules can be told.
                        violation(&mut lab, &mut rng, &mut p)
                    } else {
                        valid(&lab, &mut rng, &mut p)
                    }
                }
                let b = std::mem::take(&mut p.batch);
                if slow && b.len() > 20_000 {
                    // Too slow to be worth it.
                    let k = 0;
                    lab.inject(&b[..k]);
                    continue;
                }
                if rng.pct(30) && b.len() > 1 {
                    let k = rng.range(1, b.len() as u64 - 1) as usize;
                    lab.inject(&b[..k]);
                    lab.settle();
                    if rng.pct(20) && !p.last {
                        app_op(&mut lab, &mut rng, &mut hs)
                    }
                    lab.inject(&b[k..]);
                } else {
                    lab.inject(&b)
                }
            }
            6..=8 => {
                for _ in 0..rng.range(1, 3) {
                    app_op(&mut lab, &mut rng, &mut hs)
                }
            }
            _ => {
                let (_, hi) = lab.w.b().slots(0);
                let pend = lab.w.b().side[0].pend_open;
                if (hi < cf.max_streams || mode == Mode::Limit && rng.pct(15)) && !pend && lab.e[0].want_open == 0 {
                    lab.open(0);
                }
                if rng.pct(20) {
                    let d = rng.pick(&[1, 100, 5000, 11_000]) * MS;
                    lab.pass(d)
                }
            }
        }
        lab.settle();
        collect(&mut lab, &mut hs);
        if rng.pct(50) {
            lab.judge()
        }
    }
    lab.judge();
    collect(&mut lab, &mut hs);
    if !lab.w.failed() && !lab.ended(0) {
        let ended = end_it(&mut lab, &mut rng);
        if rng.pct(30) {
            app_op(&mut lab, &mut rng, &mut hs)
        }
        if ended || lab.ended(0) {
            lab.judge();
            collect(&mut lab, &mut hs);
        }
    }
    if !lab.w.failed() && (lab.w.b().over(0)) {
        aftermath(&mut lab, &mut rng, &hs);
        if lab.ended(0) || lab.w.b().side[0].closed {
            lab.poll_after_end(0);
            let st = lab.net.stats(0);
            if st.after_close > 0 {
                lab.w.find(&["C18"], "transport used after its close".into());
            }
        }
    }
    c.finish(&lab.w);
}

/// A frame with arbitrary header fields (never undecodable), including its body.
fn any_frame(rng: &mut Rng, max: u32) -> Vec<u8> {
    let id = match rng.below(10) {
        0 => 0,
        1 => rng.u64() as u32,
        2 => u32::MAX - rng.below(3) as u32,
        _ => rng.range(0, 8) as u32,
    };
    let flags = match rng.below(12) {
        0 => rng.u64() as u16,
        1..=4 => 0,
        5..=6 => SYN,
        7 => ACK,
        8 => rng.below(16) as u16,
        9 => FIN,
        10 => RST,
        _ => SYN | ACK,
    };
    let ty = rng.pick(&[DATA, DATA, DATA, WIN, WIN, PING]);
    let len = match rng.below(10) {
        0 => 0,
        1 => u32::MAX,
        2 => rng.u64() as u32,
        3 => CREDIT as u32 + rng.below(3) as u32 - 1,
        4 => u32::MAX - CREDIT as u32 + rng.below(3) as u32 - 1,
        _ => rng.below(3000) as u32,
    };
    if ty == DATA {
        let n = len.min(max).min(1 << 20) as usize;
        let mut b = vec![0; n];
        crate::prng::fill(rng.u64(), 0, &mut b);
        data(flags, id, &b)
    } else {
        frame(ty, flags, id, len)
    }
}

fn free(c: &mut Ctx, lab: &mut Lab, rng: &mut Rng) {
    let mut hs: Vec<H> = Vec::new();
    let steps = rng.range(5, 40);
    for _ in 0..steps {
        if lab.ended(0) || lab.w.failed() {
            break;
        }
        let mut b = Vec::new();
        for _ in 0..rng.range(1, 10) {
            let m = if rng.pct(5) { 1 << 20 } else { 3000 };
            b.extend(any_frame(rng, m));
        }
        match rng.below(40) {
            0 => {
                // Pure noise.
                let mut x = vec![0; rng.range(1, 200) as usize];
                crate::prng::fill(rng.u64(), 0, &mut x);
                b = x;
            }
            1 => {
                // One byte flipped.
                let i = rng.below(b.len() as u64) as usize;
                b[i] ^= 1 << rng.below(8);
            }
            2 => b.extend(frame(GOAWAY, rng.u64() as u16, rng.below(3) as u32, rng.u64() as u32)),
            _ => {}
        }
        c.hit("free_bytes", b.len() as u64);
        lab.inject(&b);
        if rng.pct(50) {
            lab.settle()
        }
        for _ in 0..rng.below(5) {
            app_op(lab, rng, &mut hs)
        }
        if rng.pct(20) && lab.e[0].want_open == 0 {
            lab.open(0)
        }
        if rng.pct(10) {
            let d = rng.pick(&[1i64, 1000, 11_000]) * MS;
            lab.pass(d)
        }
        lab.judge();
        collect(lab, &mut hs);
    }
    if !lab.ended(0) {
        end_it(lab, rng);
    }
    lab.judge();
    collect(lab, &mut hs);
    if lab.ended(0) {
        aftermath(lab, rng, &hs);
        lab.poll_after_end(0);
    }
}

/// The same bytes and the same use, fragmented differently, give the same behaviour.
pub fn frag(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let cf = cfg(&mut rng, rng_pct(c.seed));
    // Phases: bytes from the peer, then uses of the streams.
    let nph = rng.range(1, 8);
    let mut phases: Vec<(Vec<u8>, u64)> = Vec::new();
    for _ in 0..nph {
        let mut b = Vec::new();
        for _ in 0..rng.range(1, 8) {
            let m = if rng.pct(3) { 300_000 } else { 500 };
            b.extend(any_frame(&mut rng, m));
        }
        phases.push((b, rng.u64()));
    }
    // What ends the connection comes on its own: replies not yet sent are lost with it.
    let last: Vec<u8> = match rng.below(8) {
        0 => vec![1u8, 0, 0, 0],
        1 => frame(DATA, 0, 1, (1 << 20) + 1 + rng.below(100) as u32).to_vec(),
        2 => frame(GOAWAY, 0, 0, 0).to_vec(),
        3 => frame(rng.range(0, 6) as u8, 0, 1, 10)[..rng.range(1, 11) as usize].to_vec(),
        _ => vec![],
    };
    phases.push((last, rng.u64()));
    let eof = rng.pct(70);
    let seed = c.seed;
    let total: usize = phases.iter().map(|p| p.0.len()).sum();
    let mut first: Option<(BTreeMap<(usize, &'static str, u32), u64>, Vec<u32>)> = None;
    let runs = if c.thorough { 6 } else { 4 };
    for k in 0..runs {
        let (mut t0, mut t1) = (TCfg::plain(), TCfg::plain());
        let mut r = Rng::new(seed ^ (k as u64 + 1) * 0x1234_5678_9ABC);
        match k {
            0 => {}
            1 if total < 20_000 => {
                t1.rmax = 1;
                t0.wmax = 1
            }
            2 => {
                t1.rmax = r.pick(&[11usize, 12, 13, 24, 25]);
                if total > 100_000 {
                    t1.rmax *= 100
                }
                t0.wmax = r.pick(&[11usize, 12, 13, 100]);
            }
            _ => {
                t1.rmax = r.range(1, 100) as usize * if total > 100_000 { 50 } else { 1 };
                t1.pend = r.below(50);
                t0.pend = r.below(50);
                t0.wmax = r.range(1, 300) as usize;
                t0.buffered = r.pick(&[0usize, 0, 100]);
            }
        }
        let mut lab = Lab::solo(seed, cf, t0, t1, c.verbose);
        lab.w.m().free = true;
        let mut hs: Vec<H> = Vec::new();
        for (b, uses) in &phases {
            if k == 0 {
                lab.inject(b)
            } else {
                let mut i = 0;
                while i < b.len() {
                    let n = match r.below(3) {
                        0 => r.range(1, 20) as usize,
                        1 => b.len() - i,
                        _ => r.range(1, 2000) as usize,
                    }
                    .min(b.len() - i);
                    lab.inject(&b[i..i + n]);
                    i += n;
                    if r.pct(50) {
                        lab.settle()
                    }
                }
            }
            lab.settle();
            collect(&mut lab, &mut hs);
            hs.sort_by_key(|h| h.id);
            // The uses do not depend on the fragmentation.
            let mut u = Rng::new(*uses);
            for _ in 0..u.below(8) {
                if hs.is_empty() {
                    if u.pct(50) && !lab.ended(0) {
                        lab.open(0);
                        lab.settle();
                        collect(&mut lab, &mut hs);
                    }
                    continue;
                }
                let h = hs[u.below(hs.len() as u64) as usize].clone();
                match u.below(12) {
                    0..=5 => lab.op(&h, if u.pct(50) { LOp::Packet } else { LOp::Read(u.range(1, 2000) as usize) }),
                    6..=8 => lab.op(&h, LOp::Write(u.range(1, 2000) as usize)),
                    9 => lab.op(&h, LOp::Close),
                    10 => {
                        h.drop_stream();
                        hs.retain(|x| x.alive());
                    }
                    _ => {
                        if !lab.ended(0) && u.pct(50) {
                            lab.open(0)
                        }
                    }
                }
                lab.settle();
                collect(&mut lab, &mut hs);
                lab.abandon();
            }
        }
        if eof {
            lab.net.eof(1);
        }
        lab.judge();
        collect(&mut lab, &mut hs);
        hs.sort_by_key(|h| h.id);
        for h in &hs {
            lab.op(h, LOp::Drain(1 << 20, u64::MAX));
        }
        lab.judge();
        let ids: Vec<u32> = hs.iter().map(|h| h.id).collect();
        // Reads of the remaining data are one per frame or not, so only totals are compared there.
        let dig = lab.w.b().dig.clone();
        match &first {
            None => first = Some((dig, ids)),
            Some((d, i)) => {
                c.hit("refragmented", 1);
                if *d != dig || *i != ids {
                    let mut why = Vec::new();
                    for k in d.keys().chain(dig.keys()) {
                        if d.get(k) != dig.get(k) {
                            why.push(format!("{}/{}", k.1, k.2))
                        }
                    }
                    why.sort();
                    why.dedup();
                    c.find(&["C08"], format!("fragmentation of the same bytes changes behaviour: {why:?}"));
                }
            }
        }
        c.finish(&lab.w);
        if !c.findings.is_empty() {
            break;
        }
    }
    let _ = (SEC, vclock::EPOCH);
}

fn rng_pct(seed: u64) -> bool {
    crate::prng::mix(seed ^ 5) % 3 == 0
}
