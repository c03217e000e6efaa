//! Memory: floods that carry no data, over-long frames, and leaks. The allocator counts per thread; the
//! harness's own share is constant after warm-up.
use crate::alloc;
use crate::handle::H;
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::wire::*;
use crate::world::*;

const KINDS: &[&str] = &[
    "empty data", "window update", "ping", "pong", "reset of a live stream", "unknown data", "unknown update", "dropped stream data",
    "empty data with FIN", "stream ping", "unknown reset", "syn and reset", "syn, surfaced and dropped", "refused syn", "overlong for window", "mixed",
];

fn frames(kind: usize, r: &mut Rng, n: usize, live: &[u32], dropped: u32, refuse: u32, next: &mut u32) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..n {
        let id = live[r.below(live.len() as u64) as usize];
        let kind = if kind == 15 { r.below(12) as usize } else { kind };
        match kind {
            0 => b.extend(frame(DATA, 0, id, 0)),
            1 => b.extend(frame(WIN, 0, id, 0)),
            2 => b.extend(frame(PING, SYN, 0, r.below(1000) as u32)),
            3 => b.extend(frame(PING, ACK, 0, 77_777)),
            4 => b.extend(frame(DATA, RST, id, 0)),
            5 => b.extend(data(0, dropped + 1000, &[1; 40])),
            6 => b.extend(frame(WIN, 0, dropped + 1000, 5)),
            7 => b.extend(data(0, dropped, &[1; 40])),
            8 => b.extend(frame(DATA, FIN, id, 0)),
            9 => b.extend(frame(PING, SYN, id, 3)),
            10 => b.extend(frame(WIN, RST, dropped + 1000, 5)),
            11 | 12 => {
                b.extend(frame(WIN, SYN, *next, 0));
                if kind == 11 {
                    b.extend(frame(WIN, RST, *next, 0))
                }
                *next += 2;
                if *next > 90_000 {
                    *next = 10_000 + *next % 2
                }
            }
            13 => b.extend(frame(WIN, SYN, refuse, 0)),
            _ => b.extend(data(0, id, &[0; 20])),
        }
    }
    b
}

/// Sends rounds of one kind of frame and watches the memory held.
pub fn flood(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.rac = rng.pct(80);
    if rng.pct(20) {
        cf.max_streams = 8;
    }
    let kind = rng.below(KINDS.len() as u64) as usize;
    let mut t = TCfg::plain();
    t.wmax = rng.pick(&[0usize, 0, 12, 100]);
    let mut lab = Lab::solo(c.seed, cf, t, TCfg::plain(), c.verbose);
    lab.w.m().free = true;
    lab.w.m().lean = true;
    lab.w.say(|| format!("flood of {}", KINDS[kind]));
    let mut hs: Vec<H> = Vec::new();
    let mut next: u32 = if cf.client { 10_000 } else { 10_001 };
    let peer_odd = next % 2;
    for i in 0..rng.range(1, 4) as u32 {
        lab.send(WIN, SYN, 2 * i + 2 + peer_odd, 100_000);
    }
    lab.settle();
    while let Some(h) = lab.e[0].inbox.pop_front() {
        hs.push(h)
    }
    let dropped = 200 + peer_odd;
    lab.send(WIN, SYN, dropped, 0);
    lab.settle();
    drop(lab.e[0].inbox.pop_front());
    lab.settle();
    let live: Vec<u32> = hs.iter().map(|h| h.id).collect();
    if kind == 14 {
        // Use up the window; more of it is refused.
        let id = live[0];
        lab.send_data(0, id, 0, CREDIT as usize);
        lab.settle();
    }
    let refuse = if rng.pct(50) { 2 + (1 - peer_odd) } else { live[0] };
    let live = if kind == 14 { vec![live[0]] } else { live };
    if kind == 12 {
        // Readers wait on the streams that stay.
        for h in &hs {
            lab.op(h, LOp::Read(100));
        }
    } else if rng.pct(50) && kind != 14 {
        for h in &hs {
            lab.op(h, LOp::Drain(100, u64::MAX));
        }
    }
    lab.settle();
    // Does the transport take what we send?
    let blocked = rng.pct(60);
    if blocked {
        lab.net.block(0, true);
        lab.flow[0] = false;
    }
    if rng.pct(30) {
        // Something is already waiting to be sent.
        for h in &hs {
            if lab.w.with(0, h.id, |t| !t.pend[1]) {
                lab.op(h, LOp::Write(3000));
            }
        }
        lab.settle();
    }
    let n = 500;
    let rounds = if c.thorough { 200 } else { 24 };
    let warm = 6;
    let mut base = 0;
    let mut sent = 0u64;
    let mut stuck = 0;
    for i in 0..rounds {
        let before = lab.net.readable(1);
        let b = if before > 200_000 { vec![] } else { frames(kind, &mut rng, n, &live, dropped, refuse, &mut next) };
        sent += b.len() as u64;
        lab.inject(&b);
        drop(b);
        lab.settle();
        while let Some(h) = lab.e[0].inbox.pop_front() {
            drop(h);
        }
        lab.settle();
        lab.w.prune();
        if lab.ended(0) {
            break;
        }
        if lab.net.readable(1) > 0 {
            stuck += 1;
        }
        if i == warm {
            base = alloc::live() - lab.net.held() as i64;
        } else if i > warm {
            let grown = alloc::live() - lab.net.held() as i64 - base;
            if grown > 48 * 1024 {
                lab.w.find(&["C10"], format!("memory grew by {grown} bytes over {} frames ({}, transport {})", (i - warm) * n, KINDS[kind], if blocked { "blocked" } else { "open" }));
                break;
            }
        }
    }
    lab.w.hit("flood_bytes", sent);
    lab.w.hit("floods", 1);
    if stuck == 0 {
        lab.w.hit("floods_consumed", 1)
    } else {
        lab.w.hit("floods_held_back", 1)
    }
    c.cov_hash(kind as u64 * 2 + blocked as u64);
    if blocked {
        lab.net.block(0, false);
        lab.flow[0] = true;
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Announced bodies of all sizes.
pub fn huge(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let cf = SideCfg::dflt(rng.pct(50));
    let mut t1 = TCfg::plain();
    t1.rmax = rng.pick(&[0usize, 0, 1, 12, 13, 5000]);
    let mut lab = Lab::solo(c.seed, cf, TCfg::plain(), t1, c.verbose);
    let odd = !cf.client as u32;
    lab.send(WIN, SYN, 2 + odd, 100_000);
    if rng.pct(50) {
        lab.send_data(0, 2 + odd, 0, 1000);
    }
    lab.settle();
    let h = lab.e[0].inbox.pop_front();
    let id = rng.pick(&[2 + odd, 2 + odd, 4 + odd, 0, 1 + odd, u32::MAX]);
    let over = rng.pct(75);
    let len: u32 = if over {
        match rng.below(5) {
            0 => (1 << 20) + 1,
            1 => u32::MAX,
            2 => 1 << 31,
            3 => (1 << 20) + rng.range(1, 1000) as u32,
            _ => rng.range((1 << 20) + 1, u32::MAX as u64) as u32,
        }
    } else {
        rng.pick(&[1u32 << 20, (1 << 20) - 1, 1 << 19, 900_000])
    };
    let flags = rng.pick(&[0, 0, SYN, FIN, RST, ACK, SYN | FIN, 0xFFFF]);
    let body = rng.pick(&[0usize, 1, 100, 5000]);
    let hd = frame(DATA, flags, id, len);
    alloc::reset_peak();
    let base = alloc::live();
    let cut = rng.range(1, 12) as usize;
    lab.inject(&hd[..cut]);
    lab.settle();
    lab.inject(&hd[cut..]);
    lab.inject(&vec![7; body]);
    lab.settle();
    let (peak, req) = (alloc::peak() - base, alloc::max_request());
    lab.w.hit("announced", 1);
    if over {
        lab.w.hit("too_large", 1);
        // The harness itself asks for less than this.
        if req > 256 * 1024 || peak > 512 * 1024 {
            lab.w.find(&["C10"], format!("{req} bytes requested ({peak} in total) for an announced body of {len} bytes"));
        }
        if !lab.ended(0) {
            lab.w.find(&["C10", "C08"], format!("a body of {len} bytes was not refused"));
        }
    } else {
        if req > (1 << 20) + 65536 || peak > 3 << 20 {
            lab.w.find(&["C10"], format!("{req} bytes requested ({peak} in total) for an announced body of {len} bytes"));
        }
        if lab.ended(0) {
            lab.w.find(&["C10"], format!("a body of {len} bytes was refused for its size"));
        } else {
            // The rest arrives.
            let rest = len as usize - body;
            lab.inject(&vec![7; rest]);
            lab.send(PING, SYN, 0, 5);
            lab.settle();
            if lab.ended(0) {
                lab.w.find(&["C10"], format!("a body of {len} bytes ended the connection"));
            } else if !lab.w.b().side[0].pongs.is_empty() {
                lab.w.find(&["C10", "C08"], "no answer to a ping after a large frame".into());
            }
            lab.w.hit("large_accepted", 1);
        }
    }
    c.cov_hash(len as u64 ^ ((id as u64) << 32) ^ ((flags as u64) << 20) ^ body as u64);
    if !lab.w.failed() {
        lab.judge();
    }
    drop(h);
    c.finish(&lab.w);
}

/// Unread data: it takes room for itself and a little for each frame it came in, and gives it back.
pub fn held(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.max_streams = rng.pick(&[1usize, 4, 512]);
    let mut lab = Lab::solo(c.seed, cf, TCfg::plain(), TCfg::plain(), c.verbose);
    lab.w.m().lean = true;
    let mut hs: Vec<H> = Vec::new();
    let mut id = 2 + !cf.client as u32;
    for _ in 0..rng.range(1, cf.max_streams.min(4) as u64) {
        lab.send(WIN, SYN, id, rng.below(5000) as u32);
        lab.settle();
        hs.extend(lab.e[0].inbox.pop_front());
        id += 2;
    }
    lab.settle();
    let room = |lab: &Lab| alloc::live() - lab.net.held() as i64;
    let base = room(&lab);
    let slack = 48 * 1024;
    let (mut frames, mut bytes) = (0i64, 0i64);
    let size = rng.pick(&[1usize, 2, 30, 1000, 16_384, 65_536, CREDIT as usize]);
    let cap = rng.pick(&[2000i64, 5000, 20_000]);
    let mut most = 0;
    for h in &hs {
        let mut left = lab.w.with(0, h.id, |t| t.granted_left().max(0) as usize);
        let mut n = 0;
        while left > 0 && n < cap && !lab.w.failed() {
            let off = lab.w.with(0, h.id, |t| t.rx_data);
            let k = if rng.pct(70) { size } else { rng.range(1, size as u64) as usize }.min(left);
            lab.send_data(0, h.id, off, k);
            lab.settle();
            lab.w.prune();
            left -= k;
            n += 1;
            frames += 1;
            bytes += k as i64;
            let now = room(&lab) - base;
            most = most.max(now);
            if now > 2 * bytes + 300 * frames + slack {
                lab.w.find(&["C10"], format!("{now} bytes are held for {bytes} unread bytes in {frames} frames"));
            }
        }
    }
    lab.w.hit("held_measured", 1);
    lab.w.hit("held_bytes", bytes as u64);
    c.cov_hash(size as u64 ^ ((frames as u64) << 20));
    // All of it is read, by bytes or by chunks, or goes away with its stream.
    for (i, h) in hs.iter().enumerate() {
        match (c.seed as usize + i) % 4 {
            0 => {}
            1 => {
                lab.op(h, LOp::Packet);
                lab.settle();
                lab.op(h, LOp::Drain(70_000, u64::MAX));
            }
            _ => lab.op(h, LOp::Drain(rng.pick(&[1000usize, 70_000]), u64::MAX)),
        }
        lab.settle();
        lab.abandon_stream(h.id);
    }
    let live = hs.len();
    hs.clear();
    lab.settle();
    lab.results.clear();
    lab.w.prune();
    let now = room(&lab) - base;
    if now > slack && !lab.w.failed() {
        lab.w.find(&["C10", "C19"], format!("{now} bytes are still held for {live} streams that are gone ({most} at most)"));
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Streams come and go: nothing of them stays behind.
pub fn churn(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut a = SideCfg::dflt(rng.pct(50));
    let mut b = SideCfg::dflt(!a.client);
    a.rac = rng.pct(80);
    b.rac = rng.pct(80);
    let mut lab = Lab::new(c.seed, a, b, TCfg::plain(), TCfg::plain(), c.verbose);
    lab.w.m().lean = true;
    let keep = lab.open_now(0);
    if let Some(h) = &keep {
        lab.now(h, LOp::Write(10));
    }
    let ways = rng.below(6);
    let rounds = if c.thorough { 400 } else { 60 };
    let mut base = 0;
    for i in 0..rounds {
        let mut mine: Vec<H> = Vec::new();
        for s in 0..2 {
            for _ in 0..5 {
                lab.open(s);
                lab.settle();
                while let Some(h) = lab.e[s].opened.pop_front() {
                    mine.push(h)
                }
            }
        }
        for h in &mine {
            if ways != 0 {
                lab.op(h, LOp::Write(700))
            }
        }
        lab.settle();
        let mut theirs: Vec<H> = Vec::new();
        for s in 0..2 {
            while let Some(h) = lab.e[s].inbox.pop_front() {
                theirs.push(h)
            }
        }
        match ways {
            2 => {
                for h in mine.iter().chain(&theirs) {
                    lab.op(h, LOp::Close)
                }
            }
            3 => {
                for h in &mine {
                    lab.op(h, LOp::Close)
                }
                lab.settle();
                theirs.clear()
            }
            4 => {
                for h in &theirs {
                    lab.op(h, LOp::Read(300));
                    lab.op(h, LOp::Write(100_000));
                }
            }
            5 => {
                for h in mine.iter().chain(&theirs) {
                    lab.op(h, LOp::Drain(100, u64::MAX));
                    lab.op(h, LOp::Flush);
                }
            }
            _ => {}
        }
        lab.settle();
        for h in mine.iter().chain(&theirs) {
            lab.abandon_stream(h.id);
        }
        if rng.pct(50) {
            mine.clear();
            lab.settle();
            theirs.clear();
        } else {
            theirs.clear();
            lab.settle();
            mine.clear();
        }
        lab.settle();
        if i % 10 == 0 {
            lab.judge();
        }
        while let Some(h) = lab.e[0].inbox.pop_front() {
            drop(h)
        }
        while let Some(h) = lab.e[1].inbox.pop_front() {
            drop(h)
        }
        lab.results.clear();
        lab.w.driven(0);
        lab.w.driven(1);
        lab.w.prune();
        lab.w.hit("churned", 20);
        let held = alloc::live() - lab.net.held() as i64;
        if i == 19 {
            base = held;
        } else if i > 19 && held - base > 24 * 1024 {
            lab.w.find(&["C19", "C10"], format!("{} bytes more are held after {} streams came and went", held - base, (i - 19) * 10));
            break;
        }
        if lab.w.failed() {
            break;
        }
    }
    c.cov_hash(ways);
    c.finish(&lab.w);
}

/// A whole case of another family, twice: the second time all memory must be given back.
pub fn leak(c: &mut Ctx) {
    let fams: &[fn(&mut Ctx)] = &[
        |c| crate::fault::run(c, false),
        |c| crate::fault::run(c, true),
        |c| crate::hostile::run(c, crate::hostile::Mode::Valid),
        |c| crate::hostile::run(c, crate::hostile::Mode::Free),
        |c| crate::pair::run(c, crate::pair::Flavor::Drops),
        |c| crate::pair::run(c, crate::pair::Flavor::Shut),
        |c| crate::pair::run(c, crate::pair::Flavor::Cut),
        crate::close::solo,
        crate::close::duo,
    ];
    let k = crate::prng::mix(c.seed) as usize % fams.len();
    let mut held = [0i64; 3];
    for x in held.iter_mut() {
        let before = alloc::live();
        {
            let mut inner = Ctx::new(c.seed, false, false);
            fams[k](&mut inner);
            c.cov_hash(inner.hash);
            for (k, v) in &inner.cov {
                if ["drops", "opened", "accepted", "faults", "ends"].contains(k) {
                    c.hit(k, *v)
                }
            }
            if !inner.findings.is_empty() {
                // Judged by its own family.
                return;
            }
        }
        *x = alloc::live() - before;
    }
    c.hit("leak_checks", 1);
    if held[1] > 0 && held[2] > 0 {
        c.find(&["C19"], format!("{} bytes are still held after connections and streams are gone", held[2]));
    }
}
