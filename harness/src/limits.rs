//! Stream limit, acknowledgement backlog and stream ids.
use crate::handle::H;
use crate::hostile::tcfg;
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::SEC;
use crate::wire::*;
use crate::world::*;

fn below(rng: &mut Rng, n: u64) -> usize {
    rng.below(n) as usize
}

fn take(lab: &mut Lab, s: usize, hs: &mut Vec<H>) {
    while let Some(h) = lab.e[s].inbox.pop_front() {
        hs.push(h)
    }
    while let Some(h) = lab.e[s].opened.pop_front() {
        hs.push(h)
    }
}

/// 256 streams await acknowledgement and one more is requested: exactly one event lets it through.
pub fn backlog(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = SideCfg::dflt(rng.pct(50));
    cf.max_streams = rng.pick(&[512usize, 2000, 512]);
    cf.limit = None;
    let (t0, t1) = if rng.pct(50) { (TCfg::plain(), TCfg::plain()) } else { (tcfg(&mut rng), tcfg(&mut rng)) };
    let mut lab = Lab::solo(c.seed, cf, t0, t1, c.verbose);
    let mut hs: Vec<H> = Vec::new();
    // Announce them, or leave some unannounced.
    let announce = rng.pick(&[0u64, 50, 100]);
    let extra = rng.range(0, 20);
    for i in 0..256 + extra {
        lab.open(0);
        lab.settle();
        take(&mut lab, 0, &mut hs);
        let Some(h) = hs.last().cloned() else { break };
        if rng.pct(announce) {
            lab.op(&h, LOp::Write(rng.range(1, 50) as usize));
            lab.settle();
        }
        if i < extra {
            // Leaves the backlog again.
            let a = rng.below(6);
            ack(&mut lab, &mut rng, &h, a);
            lab.settle();
        }
        if lab.w.failed() || lab.ended(0) {
            break;
        }
    }
    hs.retain(|h| h.alive());
    lab.judge();
    if lab.w.failed() {
        c.finish(&lab.w);
        return;
    }
    let rounds = rng.range(1, 6);
    for _ in 0..rounds {
        // Fill up again.
        while lab.w.b().backlog(0) < 256 && !lab.w.failed() {
            lab.open(0);
            lab.settle();
            take(&mut lab, 0, &mut hs);
        }
        let n = rng.range(1, 3);
        for _ in 0..n {
            lab.open(0);
        }
        lab.judge();
        if lab.e[0].want_open as u64 != n {
            lab.w.find(&["C15"], format!("{} of {n} open requests went through with 256 streams awaiting acknowledgement", n - lab.e[0].want_open as u64));
        }
        if lab.w.failed() {
            break;
        }
        // Events that change nothing.
        for _ in 0..rng.below(4) {
            let un: Vec<H> = hs.iter().filter(|h| h.alive() && lab.w.with(0, h.id, |t| t.unacked())).cloned().collect();
            let h = rng.pick(&(0..un.len()).collect::<Vec<_>>());
            let h = un[h].clone();
            let ann = lab.w.with(0, h.id, |t| t.tx_any);
            match rng.below(4) {
                0 if ann => {
                    let off = lab.w.with(0, h.id, |t| t.rx_data);
                    let left = lab.w.with(0, h.id, |t| t.granted_left()).max(0) as usize;
                    lab.send_data(0, h.id, off, left.min(10));
                }
                1 if ann => lab.send(WIN, 0, h.id, 10),
                2 => lab.send(PING, SYN, 0, 7),
                _ => {
                    if !lab.w.with(0, h.id, |t| t.pend[1]) {
                        lab.op(&h, LOp::Write(10))
                    }
                }
            }
            lab.judge();
        }
        if lab.e[0].want_open as u64 != n && !lab.w.failed() {
            lab.w.find(&["C15"], "an open request went through although nothing was acknowledged".into());
        }
        if lab.w.failed() {
            break;
        }
        let un: Vec<H> = hs.iter().filter(|h| h.alive() && lab.w.with(0, h.id, |t| t.unacked())).cloned().collect();
        let h = un[rng.below(un.len() as u64) as usize].clone();
        let kind = if rng.pct(12) { rng.range(6, 7) } else { rng.below(6) };
        lab.w.hit("backlog_triggers", 1);
        match kind {
            6 => match rng.below(4) {
                0 => lab.net.eof(1),
                1 => lab.send(GOAWAY, 0, 0, 0),
                2 => lab.inject(&[3; 20]),
                _ => {
                    let at = lab.net.stats(0).reads;
                    lab.net.set_fault(0, Some(Fault { call: Call::Read, at, what: What::Err(std::io::ErrorKind::Other), sticky: true }));
                    lab.send(PING, SYN, 0, 1);
                }
            },
            7 => lab.close(0),
            k => ack(&mut lab, &mut rng, &h, k),
        }
        lab.judge();
        take(&mut lab, 0, &mut hs);
        if lab.w.b().over(0) {
            if lab.e[0].want_open > 0 {
                lab.w.find(&["C15", "C17", "C16"], "an open request outlives the connection".into());
            }
            lab.w.hit("openers_failed", 1);
            break;
        }
        if lab.e[0].want_open as u64 != n - 1 && !lab.w.failed() {
            lab.w.find(&["C15", "C03"], format!("one stream left the backlog ({kind}) but {} of {n} open requests remain", lab.e[0].want_open));
        }
        // The others go the same way.
        while lab.e[0].want_open > 0 && !lab.w.failed() {
            let un: Vec<H> = hs.iter().filter(|h| h.alive() && lab.w.with(0, h.id, |t| t.unacked())).cloned().collect();
            let h = un[rng.below(un.len() as u64) as usize].clone();
            let k = rng.below(6);
            ack(&mut lab, &mut rng, &h, k);
            lab.judge();
            take(&mut lab, 0, &mut hs);
        }
        hs.retain(|h| h.alive());
        if lab.w.failed() || lab.ended(0) || hs.len() > 480 {
            break;
        }
    }
    c.finish(&lab.w);
}

fn ack(lab: &mut Lab, rng: &mut Rng, h: &H, kind: u64) {
    let ann = lab.w.with(0, h.id, |t| t.tx_any);
    match kind {
        0 | 1 | 2 | 3 if !ann => {
            lab.abandon_stream(h.id);
            h.drop_stream();
        }
        0 => {
            let off = lab.w.with(0, h.id, |t| t.rx_data);
            let left = lab.w.with(0, h.id, |t| t.granted_left()).max(0) as usize;
            let n = rng.below(20) as usize;
            lab.send_data(ACK, h.id, off, n.min(left))
        }
        1 => lab.send(WIN, ACK, h.id, rng.below(1000) as u32),
        2 => lab.send(DATA, FIN, h.id, 0),
        3 => lab.send(rng.pick(&[DATA, WIN]), RST, h.id, 0),
        4 => {
            lab.abandon_stream(h.id);
            lab.op(h, LOp::Close);
        }
        _ => {
            lab.abandon_stream(h.id);
            h.drop_stream();
        }
    }
}

/// Ids run out.
pub fn ids(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let a = SideCfg::dflt(rng.pct(50));
    let b = SideCfg::dflt(!a.client);
    let raw = rng.pct(50);
    let (t0, t1) = (TCfg::plain(), TCfg::plain());
    let mut lab = if raw { Lab::solo(c.seed, a, t0, t1, c.verbose) } else { Lab::new(c.seed, a, b, t0, t1, c.verbose) };
    let mut hs: Vec<H> = Vec::new();
    let mut peer: Vec<H> = Vec::new();
    for _ in 0..rng.below(4) {
        lab.open(0);
        lab.settle();
    }
    let k = rng.range(0, 12);
    #[cfg(feature = "hooks")]
    {
        let next = u32::MAX - !a.client as u32 - 2 * k as u32;
        lab.e[0].conn.as_mut().unwrap().verif_set_next_stream_id(next);
        lab.w.say(|| format!("next id is {next}"));
        lab.w.m().side[0].last_open = next - 2;
        lab.w.hit("near_exhaustion", 1);
    }
    let mut errs = 0;
    for _ in 0..k + 6 {
        if lab.w.failed() {
            break;
        }
        let n = lab.w.b().cov.get("open_errors").copied().unwrap_or(0);
        lab.open(0);
        lab.settle();
        take(&mut lab, 0, &mut hs);
        take(&mut lab, 1, &mut peer);
        let m = lab.w.b().cov.get("open_errors").copied().unwrap_or(0);
        if m > n {
            errs += 1;
            if errs == 1 {
                let e = lab.last_open_err.clone().unwrap_or_default();
                if !e.contains("identifiers") && !e.contains("id") {
                    lab.w.find(&["C13"], format!("opening fails with {e} when ids are used up"));
                }
                lab.w.hit("ids_exhausted", 1);
            }
        } else if errs > 0 {
            lab.w.find(&["C13"], "a stream was opened after ids ran out".into());
        }
        if let Some(h) = hs.last().cloned() {
            if h.alive() && errs == 0 && rng.pct(70) {
                lab.now(&h, LOp::Write(5));
                take(&mut lab, 1, &mut peer);
                if !raw && peer.last().map_or(true, |p| p.id != h.id) && !lab.w.failed() {
                    lab.w.find(&["C13"], format!("stream {} has id {:?} at the peer", h.id, peer.last().map(|p| p.id)));
                }
            }
            if rng.pct(30) {
                lab.abandon_stream(h.id);
                h.drop_stream();
                lab.settle();
            }
        }
        if rng.pct(20) && raw && errs == 0 {
            // Streams of the peer with ids at the edge.
            let id = (u32::MAX - if a.client { 1 } else { 0 }) - 2 * rng.below(100) as u32;
            if !lab.w.b().side[0].st.contains_key(&id) {
                lab.send(WIN, SYN, id, 0);
                lab.settle();
                take(&mut lab, 0, &mut hs);
            }
        }
    }
    if cfg!(feature = "hooks") && errs == 0 && !lab.w.failed() {
        lab.w.find(&["C13"], "ids never ran out".into());
    }
    lab.judge();
    c.finish(&lab.w);
}

/// The limit, with an exact account of slots, both directions, two endpoints or a scripted peer.
pub fn slots(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut a = SideCfg::dflt(rng.pct(50));
    a.max_streams = rng.pick(&[0usize, 1, 1, 2, 3, 5, 20]);
    a.limit = rng.pick(&[None, Some(a.max_streams * CREDIT as usize), Some(1 << 30)]);
    a.rac = rng.pct(80);
    let (t0, t1) = if rng.pct(60) { (TCfg::plain(), TCfg::plain()) } else { (tcfg(&mut rng), tcfg(&mut rng)) };
    let mut lab = Lab::solo(c.seed, a, t0, t1, c.verbose);
    let mut hs: Vec<H> = Vec::new();
    let mut pid: u32 = if a.client { 2 } else { 1 };
    for _ in 0..rng.range(10, 100) {
        if lab.w.failed() || lab.w.b().over(0) {
            break;
        }
        hs.retain(|h| h.alive());
        let full = hs.len() >= a.max_streams;
        match rng.below(20) {
            0..=4 => {
                if full && !rng.pct(5) {
                    continue;
                }
                let n = hs.len();
                lab.open(0);
                lab.settle();
                take(&mut lab, 0, &mut hs);
                if full {
                    lab.w.hit("opens_refused", 1);
                    let e = lab.last_open_err.clone().unwrap_or_default();
                    if hs.len() > n || !e.contains("maximum number of streams") {
                        lab.w.find(&["C14", "C27"], format!("open with {n} of {} streams: {} streams, error {e:?}", a.max_streams, hs.len()));
                    }
                } else if hs.len() != n + 1 {
                    lab.w.find(&["C14", "C27"], format!("open with {n} of {} streams fails: {:?}", a.max_streams, lab.last_open_err));
                } else {
                    lab.w.hit("opens_granted", 1);
                }
            }
            5..=9 => {
                let n = hs.len();
                let f = SYN | if rng.pct(15) { FIN } else { 0 };
                let d = rng.pct(50);
                if d {
                    let k = rng.below(50) as usize;
                    lab.send_data(f, pid, 0, k)
                } else {
                    lab.send(WIN, f, pid, 0)
                }
                pid += 2;
                let g = lab.w.b().side[0].tx_goaway.len();
                lab.settle();
                take(&mut lab, 0, &mut hs);
                if full {
                    lab.w.hit("remote_refused", 1);
                    let gs = lab.w.b().side[0].tx_goaway.clone();
                    let ok = gs.len() == g + 1 && (gs[g] == if d { 2 } else { 1 });
                    if hs.len() != n || !ok {
                        lab.w.find(&["C14", "C09"], format!("remote open with {n} of {} streams: {} streams, go-aways {:?}", a.max_streams, hs.len(), &gs[g..]));
                    }
                } else if hs.len() != n + 1 {
                    lab.w.find(&["C14", "C03"], format!("remote open with {n} of {} streams did not surface", a.max_streams));
                } else {
                    lab.w.hit("remote_granted", 1);
                }
            }
            10..=11 if !hs.is_empty() => {
                let h = hs[rng.below(hs.len() as u64) as usize].clone();
                lab.abandon_stream(h.id);
                h.drop_stream();
                if rng.pct(20) && full && !lab.w.b().side[0].violated {
                    // Not driven yet: the slot may be taken still. Nothing to check but that it frees.
                    lab.w.hit("drops_at_limit", 1);
                }
                lab.settle();
                lab.w.driven(0);
            }
            12..=14 if !hs.is_empty() => {
                let h = hs[rng.below(hs.len() as u64) as usize].clone();
                if !lab.w.with(0, h.id, |t| t.close_called || t.pend[1]) {
                    lab.now(&h, LOp::Close);
                }
            }
            15..=17 if !hs.is_empty() => {
                let h = hs[rng.below(hs.len() as u64) as usize].clone();
                if lab.w.with(0, h.id, |t| t.tx_any || !t.local) {
                    lab.send(DATA, rng.pick(&[FIN, RST]), h.id, 0);
                    lab.settle();
                }
            }
            18 => lab.pass(SEC),
            _ => lab.judge(),
        }
    }
    lab.judge();
    c.finish(&lab.w);
}

/// Limits of hundreds to tens of thousands of streams, filled to the last slot.
pub fn many(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut a = SideCfg::dflt(rng.pct(50));
    a.max_streams = match rng.below(if c.thorough { 8 } else { 6 }) {
        0 | 1 => 512,
        2 => rng.range(500, 800) as usize,
        3 => rng.pick(&[1000usize, 1023, 1024, 1025, 1500]),
        4 => rng.pick(&[2047usize, 2048, 2049, 3000]),
        5 => rng.pick(&[4095usize, 4096, 4097]),
        6 => rng.range(5000, 17_000) as usize,
        _ => rng.pick(&[32_769usize, 65_535, 65_536, 65_600]),
    };
    a.limit = if a.max_streams <= 4096 && rng.pct(60) { Some(1 << 30) } else { None };
    let mut lab = Lab::solo(c.seed, a, TCfg::plain(), TCfg::plain(), c.verbose);
    let mut hs: Vec<H> = Vec::new();
    let mut pid: u32 = if a.client { 2 } else { 1 };
    if rng.pct(30) {
        pid += 2 * rng.pick(&[100u32, 32_000, 1 << 20, 1 << 29]);
    }
    lab.settle();
    let inbound = match rng.below(4) {
        // Every open costs time proportional to the number of streams.
        _ if a.max_streams > 6000 => a.max_streams - rng.below(500) as usize,
        0 => a.max_streams,
        1 => 0,
        _ => rng.below(a.max_streams as u64) as usize,
    };
    let mut burst = |lab: &mut Lab, rng: &mut Rng, hs: &mut Vec<H>, n: usize| {
        let mut left = n;
        while left > 0 && !lab.w.failed() && !lab.ended(0) {
            let k = left.min(rng.pick(&[1usize, 64, 255, 256, 257, 1000]));
            let before = hs.len();
            for _ in 0..k {
                if rng.pct(10) {
                    lab.send_data(SYN, pid, 0, below(rng, 20));
                } else {
                    lab.send(WIN, SYN, pid, 0)
                }
                pid += 2;
            }
            lab.settle();
            take(lab, 0, hs);
            if hs.len() != before + k && !lab.w.failed() {
                lab.w.find(&["C14", "C03"], format!("{k} remote opens with {before} of {} streams: {} surfaced", a.max_streams, hs.len() - before));
            }
            left -= k;
        }
    };
    burst(&mut lab, &mut rng, &mut hs, inbound);
    let fill = |lab: &mut Lab, rng: &mut Rng, hs: &mut Vec<H>| {
        while hs.len() < a.max_streams && !lab.w.failed() && !lab.ended(0) {
            let k = (a.max_streams - hs.len()).min(rng.pick(&[1usize, 100, 255, 256]));
            let before = hs.len();
            for _ in 0..k {
                lab.open(0);
            }
            lab.settle();
            take(lab, 0, hs);
            if hs.len() != before + k && !lab.w.failed() {
                lab.w.find(&["C14", "C27"], format!("{k} opens with {before} of {} streams: {} granted ({:?})", a.max_streams, hs.len() - before, lab.last_open_err));
                break;
            }
            lab.w.hit("opens_granted", k as u64);
            // Announced and acknowledged, so that the backlog does not count.
            for h in hs[before..].iter().cloned().collect::<Vec<_>>() {
                lab.now(&h, LOp::Write(1 + below(rng, 30)));
            }
            lab.settle();
            for h in hs[before..].iter().cloned().collect::<Vec<_>>() {
                lab.send(WIN, ACK, h.id, 0);
            }
            lab.settle();
        }
    };
    fill(&mut lab, &mut rng, &mut hs);
    lab.judge();
    for _ in 0..rng.range(1, 3) {
        if lab.w.failed() || lab.ended(0) {
            break;
        }
        // Every stream is a stream of its own.
        for _ in 0..20 {
            if hs.is_empty() {
                break;
            }
            let h = hs[rng.below(hs.len() as u64) as usize].clone();
            if lab.w.with(0, h.id, |t| t.rx_fin || t.rx_rst || t.close_called) {
                continue;
            }
            let (off, left) = lab.w.with(0, h.id, |t| (t.rx_data, t.granted_left().max(0) as usize));
            let n = left.min(1 + below(&mut rng, 3000));
            lab.send_data(0, h.id, off, n);
            lab.settle();
            lab.now(&h, LOp::Read(4096));
            lab.now(&h, LOp::Write(1 + below(&mut rng, 2000)));
        }
        // Some go, as many can come.
        let k = rng.range(1, 300).min(hs.len() as u64 / 2) as usize;
        for _ in 0..k {
            let i = rng.below(hs.len() as u64) as usize;
            let h = hs.swap_remove(i);
            lab.abandon_stream(h.id);
            h.drop_stream();
            lab.w.hit("drops", 1);
        }
        lab.settle();
        lab.w.driven(0);
        lab.w.prune();
        let room = a.max_streams - hs.len();
        let n = rng.below(room as u64 + 1) as usize;
        burst(&mut lab, &mut rng, &mut hs, n);
        fill(&mut lab, &mut rng, &mut hs);
        lab.judge();
    }
    if !lab.w.failed() && !lab.ended(0) && hs.len() == a.max_streams {
        let n = hs.len();
        if rng.pct(50) {
            let g = lab.w.b().side[0].tx_goaway.len();
            lab.send(WIN, SYN, pid, 0);
            lab.settle();
            take(&mut lab, 0, &mut hs);
            lab.w.hit("remote_refused", 1);
            if hs.len() != n || lab.w.b().side[0].tx_goaway.len() != g + 1 {
                lab.w.find(&["C14", "C09"], format!("remote open with {n} of {} streams is not refused", a.max_streams));
            }
        }
        lab.open(0);
        lab.settle();
        take(&mut lab, 0, &mut hs);
        lab.w.hit("opens_refused", 1);
        let e = lab.last_open_err.clone().unwrap_or_default();
        if hs.len() > n || !e.contains("maximum number of streams") {
            lab.w.find(&["C14", "C27"], format!("open with {n} of {} streams: {} streams, error {e:?}", a.max_streams, hs.len()));
        }
    }
    lab.w.hit("many_streams", 1);
    lab.judge();
    c.finish(&lab.w);
}
