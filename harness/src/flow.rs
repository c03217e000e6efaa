//! Flow control by the rule: every window update is predicted exactly (receiver), every grant is used
//! exactly (sender), and the sum of windows stays within the connection limit.
use crate::handle::H;
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::{self, MS};
use crate::wire::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
struct Win {
    w: u64,
    last: i64,
    credit: u64,
}

fn cfg(rng: &mut Rng) -> SideCfg {
    let mut c = SideCfg::dflt(rng.pct(50));
    c.max_streams = rng.pick(&[1usize, 2, 3, 8, 512]);
    let base = c.max_streams * CREDIT as usize;
    c.limit = rng.pick(&[None, Some(base), Some(base + 1), Some(base + 100_000), Some(base + 262_144), Some(base + 262_145), Some(base + 1_000_000), Some(base + (1 << 23)), Some(1 << 30)]);
    c
}

/// A receiver, byte by byte predictable.
pub fn recv(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let cf = cfg(&mut rng);
    recv_with(c, rng, cf)
}

pub fn recv_with(c: &mut Ctx, mut rng: Rng, cf: SideCfg) {
    let mut lab = Lab::solo(c.seed, cf, TCfg::plain(), TCfg::plain(), c.verbose);
    lab.w.say(|| format!("flow {cf:?}"));
    let mut hs: Vec<H> = Vec::new();
    let mut win: BTreeMap<u32, Win> = BTreeMap::new();
    let mut pid: u32 = if cf.client { 2 } else { 1 };
    let answer = rng.pct(85);
    let rtts = [1 * MS, 10 * MS, 100 * MS, 1000 * MS, 0, 20_000 * MS];
    let rtt_pick = rng.pick(&rtts);
    let style = rng.below(3);
    let steps = rng.range(20, if c.thorough { 400 } else { 120 });
    let mut big = 0u64;
    lab.settle();
    for _ in 0..steps {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        hs.retain(|h| h.alive());
        match rng.below(100) {
            0..=7 => {
                if hs.len() >= cf.max_streams {
                    continue;
                }
                if rng.pct(50) {
                    if let Some(h) = lab.open_now(0) {
                        win.insert(h.id, Win { w: CREDIT, last: vclock::now(), credit: 0 });
                        hs.push(h);
                    }
                } else {
                    let n = rng.pick(&[0u64, 0, 1, 1000, CREDIT - 1, CREDIT]);
                    lab.send_data(SYN, pid, 0, n as usize);
                    lab.settle();
                    if let Some(h) = lab.e[0].inbox.pop_front() {
                        win.insert(h.id, Win { w: CREDIT, last: vclock::now(), credit: 0 });
                        hs.push(h);
                    }
                    pid += 2;
                }
            }
            8..=11 => {
                let r = lab.w.b().side[0].rtt.unwrap_or(rtt_pick);
                let d = match rng.below(6) {
                    0 => 2 * r,
                    1 => 2 * r - 1,
                    2 => r,
                    3 => 1,
                    4 => 3 * r,
                    _ => rng.range(0, 50) as i64 * MS,
                };
                lab.pass(d.max(0));
            }
            12..=15 => {
                // A round trip is measured.
                if lab.w.b().side[0].own_ping.is_none() {
                    if rng.pct(30) {
                        lab.pass(10_000 * MS);
                        lab.nudge(0);
                    }
                } else if answer {
                    lab.pass(if rng.pct(70) { rtt_pick } else { rng.pick(&rtts) });
                    let v = lab.w.b().side[0].own_ping;
                    if let Some(v) = v {
                        lab.send(PING, ACK, 0, v);
                        lab.settle();
                    }
                }
            }
            16..=18 => {
                if hs.is_empty() {
                    continue;
                }
                let k = rng.below(hs.len() as u64) as usize;
                let h = hs.remove(k);
                lab.abandon_stream(h.id);
                match rng.below(3) {
                    0 => {
                        lab.send(DATA, RST, h.id, 0);
                        lab.settle();
                        h.drop_stream();
                    }
                    1 => {
                        lab.now(&h, LOp::Close);
                        h.drop_stream();
                    }
                    _ => h.drop_stream(),
                }
                win.remove(&h.id);
                lab.settle();
            }
            19..=20 => {
                if let Some(h) = hs.last().cloned() {
                    // A writing half that is closed does not matter.
                    if !lab.w.with(0, h.id, |t| t.close_called) {
                        lab.now(&h, LOp::Close);
                    }
                }
            }
            21..=55 => {
                // Data within the credit.
                if hs.is_empty() {
                    continue;
                }
                let h = hs[rng.below(hs.len() as u64) as usize].clone();
                let (off, left) = lab.w.with(0, h.id, |t| (t.rx_data, t.granted_left().max(0) as u64));
                let n = match style {
                    0 => left,
                    _ => match rng.below(5) {
                        0 => left,
                        1 => left / 2,
                        2 => left.saturating_sub(1),
                        3 => rng.range(0, left.min(5000)),
                        _ => rng.range(0, left),
                    },
                };
                if big > 40 << 20 && n > 100_000 {
                    continue;
                }
                big += n;
                let mut o = off;
                let mut rest = n;
                while rest > 0 {
                    let k = rest.min(rng.pick(&[1 << 20, 1 << 20, 300_000, 65_536]));
                    lab.send_data(0, h.id, o, k as usize);
                    o += k;
                    rest -= k;
                }
                lab.settle();
            }
            _ => {
                if hs.is_empty() {
                    continue;
                }
                let h = hs[rng.below(hs.len() as u64) as usize].clone();
                let n = match rng.below(6) {
                    0 => 1,
                    1 => 1 << 23,
                    2 => rng.range(1, 1000) as usize,
                    3 => CREDIT as usize / 2,
                    _ => rng.range(1, 400_000) as usize,
                };
                let reads = rng.range(1, 3);
                for _ in 0..reads {
                    let rb = lab.w.with(0, h.id, |t| t.read);
                    if rng.pct(70) {
                        lab.op(&h, LOp::Read(n));
                    } else {
                        lab.op(&h, LOp::Packet);
                    }
                    lab.settle();
                    lab.abandon_stream(h.id);
                    judge_update(&lab, &mut win, &h, rb, cf);
                }
            }
        }
        // No update without a read.
        for (id, v) in &win {
            let b = lab.w.b();
            let Some(t) = b.side[0].st.get(id) else { continue };
            if t.tx_credit != v.credit {
                let m = format!("stream {id}: credit granted without a read");
                drop(b);
                lab.w.find(&["C05"], m);
                break;
            }
        }
        let gain: u64 = win.values().map(|w| w.w - CREDIT).sum();
        if let Some(l) = cf.limit {
            if gain > cf.spare() {
                lab.w.find(&["C06", "C27"], format!("windows of streams have gained {gain} bytes, the limit is {l}"));
            }
        }
        if rng.pct(20) {
            lab.judge()
        }
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Every update sent around a read follows the rule, whether it was issued just before the data was
/// taken or just after: `rb` is what had been read before.
fn judge_update(lab: &Lab, win: &mut BTreeMap<u32, Win>, h: &H, rb: u64, cf: SideCfg) -> u64 {
    let (ra, grants) = lab.w.with(0, h.id, |t| (t.read, std::mem::take(&mut t.grants)));
    let mut sum = 0;
    for got in grants {
        let now = vclock::now();
        let rtt = lab.w.b().side[0].rtt;
        let gain: u64 = win.values().map(|w| w.w - CREDIT).sum();
        let avail = cf.spare().saturating_sub(gain).min(u32::MAX as u64);
        let v = win.get_mut(&h.id).unwrap();
        sum += got as u64;
        v.credit += got as u64;
        let at = |r: u64| (CREDIT + v.credit).saturating_sub(r);
        let fast = rtt.map_or(false, |r| now - v.last < 2 * r);
        let want = if fast { (2 * v.w).min(v.w + avail).min(u32::MAX as u64) } else { v.w };
        let w = if at(ra) == want { at(ra) } else { at(rb) };
        lab.w.hit("updates_predicted", 1);
        if fast {
            lab.w.hit(if want == 2 * v.w { "windows_doubled" } else { "windows_capped" }, 1);
        } else {
            lab.w.hit("windows_kept", 1);
        }
        if w != want {
            let since = now - v.last;
            lab.w.find(
                if w > want && w > v.w && !fast { &["C06", "C05"] } else { &["C06", "C27"] },
                format!("stream {}: window after an update is {w}, expected {want} (was {}, {since} ns since the last update, rtt {rtt:?}, {avail} available)", h.id, v.w),
            );
        }
        v.w = w.max(v.w);
        v.last = now;
    }
    sum
}

/// A sender: uses exactly what it is granted.
pub fn send(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 5000, 1 << 20]);
    let mut t = TCfg::plain();
    if rng.pct(30) {
        t.wmax = rng.range(1000, 30_000) as usize;
    }
    let mut lab = Lab::solo(c.seed, cf, t, TCfg::plain(), c.verbose);
    let mut hs: Vec<H> = Vec::new();
    let mut pid: u32 = if cf.client { 2 } else { 1 };
    lab.settle();
    for _ in 0..rng.range(1, 4) {
        if rng.pct(50) {
            hs.extend(lab.open_now(0));
        } else {
            // Credit with the opening frame.
            let n = rng.pick(&[0u32, 1, 1000, 300_000, u32::MAX - CREDIT as u32]);
            lab.send(WIN, SYN, pid, n);
            lab.settle();
            hs.extend(lab.e[0].inbox.pop_front());
            pid += 2;
        }
    }
    let mut total = 0u64;
    for _ in 0..rng.range(5, if c.thorough { 200 } else { 60 }) {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        let h = hs[rng.below(hs.len() as u64) as usize].clone();
        let (pend, credit, closed, started) = lab.w.with(0, h.id, |t| (t.pend[1], t.credit(), t.close_called, t.tx_any || !t.local));
        match rng.below(10) {
            0..=4 => {
                if pend || closed || total > 30 << 20 {
                    continue;
                }
                let n = match rng.below(6) {
                    0 => 1,
                    1 => credit.min(4 << 20).max(1),
                    2 => credit.min(4 << 20) + 1,
                    3 => cf.split as u64 + rng.below(3) - 1,
                    _ => rng.range(1, 300_000),
                };
                total += n.min(credit);
                let op = if rng.pct(60) { LOp::WriteAll(n) } else { LOp::Write(n as usize) };
                lab.op(&h, op);
                lab.settle();
                let (acc, cr, p) = lab.w.with(0, h.id, |t| (t.accepted, CREDIT + t.rx_credit, t.pend[1]));
                if p && acc != cr {
                    lab.w.find(&["C04", "C03"], format!("stream {}: writer suspended at {acc} of {cr}", h.id));
                }
                if p {
                    lab.w.hit("writer_suspended", 1);
                }
            }
            5..=8 => {
                if !started {
                    continue;
                }
                let room = u32::MAX as u64 - credit;
                let n = match rng.below(7) {
                    0 => 0,
                    1 => 1,
                    2 => rng.range(1, 100),
                    3 if credit > 1 << 20 || rng.pct(5) => room,
                    _ => rng.range(1, 300_000),
                }
                .min(room);
                // A peer that has finished sending still grants credit, even with the frame that says so.
                let mut fl = if rng.pct(20) && h.id % 2 == cf.client as u32 { ACK } else { 0 };
                if rng.pct(8) {
                    fl |= FIN
                }
                lab.send(WIN, fl, h.id, n as u32);
                lab.settle();
                let (acc, cr, p, ops) = lab.w.with(0, h.id, |t| (t.accepted, CREDIT + t.rx_credit, t.pend[1], pend));
                if ops && n > 0 {
                    lab.w.hit("writer_resumed", 1);
                    if p && acc != cr {
                        lab.w.find(&["C04", "C03"], format!("stream {}: writer stays suspended at {acc} of {cr}", h.id));
                    }
                }
            }
            _ => {
                if rng.pct(20) && !pend && !closed {
                    lab.now(&h, LOp::Close);
                } else {
                    lab.judge()
                }
            }
        }
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Windows grown as far as they go: up to the limit of 32 bits, or to a large connection limit.
pub fn giant(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.max_streams = rng.pick(&[1usize, 4, 512]);
    let base = cf.max_streams * CREDIT as usize;
    let top = if c.thorough { rng.range(25, 33) } else { rng.range(25, 28) };
    cf.limit = rng.pick(&[None, None, Some(base + (1usize << top)), Some(base + (3usize << (top - 2)) + 12_345)]);
    giant_with(c, rng, cf, top)
}

pub fn giant_with(c: &mut Ctx, mut rng: Rng, cf: SideCfg, top: u64) {
    let target = (CREDIT + (1u64 << top)).min(u32::MAX as u64);
    let mut lab = Lab::solo(c.seed, cf, TCfg::plain(), TCfg::plain(), c.verbose);
    let mut win: BTreeMap<u32, Win> = BTreeMap::new();
    lab.settle();
    lab.pass(1000 * MS);
    let v = lab.w.b().side[0].own_ping;
    if let Some(v) = v {
        lab.send(PING, ACK, 0, v);
        lab.settle();
    }
    let pid: u32 = if cf.client { 2 } else { 1 };
    lab.send(WIN, SYN, pid, 0);
    lab.settle();
    let Some(h) = lab.e[0].inbox.pop_front() else {
        c.finish(&lab.w);
        return;
    };
    win.insert(h.id, Win { w: CREDIT, last: vclock::now(), credit: 0 });
    let step = rng.pick(&[1u64 << 20, 1 << 20, (1 << 20) - 1]);
    let mut still = 0;
    while !lab.w.failed() && !lab.ended(0) && still < 3 {
        let (off, left) = lab.w.with(0, h.id, |t| (t.rx_data, t.granted_left().max(0) as u64));
        let n = left.min(step);
        if n == 0 {
            lab.w.find(&["C05", "C03"], format!("stream {}: a drained reader leaves no credit", h.id));
            break;
        }
        lab.send_data(0, h.id, off, n as usize);
        lab.settle();
        // An update is issued when a read begins; the second one finds nothing.
        let before = win[&h.id].w;
        let mut granted = 0;
        for _ in 0..2 {
            let rb = lab.w.with(0, h.id, |t| t.read);
            lab.op(&h, LOp::Read(1 << 20));
            lab.settle();
            lab.abandon_stream(h.id);
            granted += judge_update(&lab, &mut win, &h, rb, cf);
        }
        let w = win[&h.id].w;
        if granted > 0 && w == before {
            still += 1
        }
        if w >= target && w == before {
            break;
        }
        if w > target {
            break;
        }
    }
    lab.w.hit("giant_windows", 1);
    // The whole of it can be used, unread.
    let left = lab.w.with(0, h.id, |t| t.granted_left().max(0) as u64);
    if left <= 64 << 20 && !lab.w.failed() {
        let mut off = lab.w.with(0, h.id, |t| t.rx_data);
        let mut rest = left;
        while rest > 0 {
            let k = rest.min(1 << 20);
            lab.send_data(0, h.id, off, k as usize);
            off += k;
            rest -= k;
            lab.settle();
        }
        lab.w.hit("giant_filled", 1);
    }
    lab.judge();
    c.finish(&lab.w);
}
