//! One scenario, run once without and then many times with a transport fault at a chosen call: the
//! failure is reported once and everything ends properly. Also other ends at chosen points.
use crate::handle::H;
use crate::hostile::{aftermath, app_op};
use crate::lab::{LOp, Lab};
use crate::pipe::*;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::vclock::MS;
use crate::wire::*;
use crate::world::*;
use std::io::ErrorKind;

#[derive(Clone, Copy, Debug)]
enum Stop {
    None,
    Fault(Fault),
    /// Before step n: the peer's end disappears / sends what ends the connection / local drop or close.
    Gone(u64),
    Bytes(u64, u8),
    Drop(u64),
    Close(u64),
}

struct Out {
    stats: Stats,
    steps: u64,
}

fn scfg(rng: &mut Rng, client: bool) -> SideCfg {
    let mut c = SideCfg::dflt(client);
    c.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1000, 100]);
    c.rac = rng.pct(60);
    c
}

fn scenario(c: &mut Ctx, stop: Stop, raw: bool) -> Out {
    let mut rng = Rng::new(c.seed);
    let a = scfg(&mut rng, rng_bit(c.seed));
    let b = scfg(&mut rng, !a.client);
    let t = |rng: &mut Rng| {
        let mut t = TCfg::plain();
        t.wmax = rng.pick(&[0usize, 0, 0, 5, 12, 100]);
        t.rmax = rng.pick(&[0usize, 0, 0, 5, 12, 100]);
        if rng.pct(30) {
            t.buffered = rng.pick(&[20usize, 1000, 1 << 20]);
            t.slow_flush = rng.pct(50);
        }
        if rng.pct(20) {
            t.cap = rng.pick(&[10usize, 100, 2000])
        }
        t
    };
    let (ta, tb) = (t(&mut rng), t(&mut rng));
    let slow = ta.wmax > 0 || tb.wmax > 0 || tb.rmax > 0 || ta.rmax > 0;
    let mut lab = if raw {
        Lab::solo(c.seed, a, ta, tb, c.verbose)
    } else {
        Lab::new(c.seed, a, b, ta, tb, c.verbose)
    };
    lab.w.say(|| format!("fault scenario {stop:?} {a:?} {b:?}"));
    if let Stop::Fault(f) = stop {
        lab.net.set_fault(0, Some(f));
    }
    let mut hs: [Vec<H>; 2] = [vec![], vec![]];
    let steps = rng.range(3, 25);
    let closing_at = if rng.pct(40) { steps - 1 } else { u64::MAX };
    let mut mute = false;
    let mut peer_id: u32 = if a.client { 2 } else { 1 };
    for i in 0..steps {
        // Each step has its own choices, so that scenarios stay alike after a fault.
        let mut r = rng.fork(i);
        match stop {
            Stop::Gone(k) if k == i => {
                if raw {
                    lab.net.eof(1)
                } else {
                    lab.drop_conn(1)
                }
            }
            Stop::Bytes(k, x) if k == i && raw => {
                mute = true;
                match x {
                0 => lab.send(GOAWAY, 0, 0, 0),
                1 => lab.inject(&[0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
                2 => lab.inject(&[7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
                3 => lab.send(DATA, 0, 1, (1 << 20) + 1),
                4 => {
                    lab.inject(&[0, 0, 0, 0, 0]);
                    lab.net.eof(1)
                }
                _ => {
                    lab.send(DATA, 0, 1, 100);
                    lab.inject(&[1, 2, 3]);
                    lab.net.eof(1)
                }
            }}
            Stop::Drop(k) if k == i => lab.drop_conn(0),
            Stop::Close(k) if k == i => lab.close(0),
            _ => {}
        }
        if i == closing_at {
            let s = if raw { 0 } else { r.below(2) as usize };
            lab.close(s);
        }
        for _ in 0..r.range(1, 4) {
            let s = if raw { 0 } else { r.below(2) as usize };
            match r.below(10) {
                0..=2 => {
                    if !lab.w.b().over(s) && lab.e[s].want_open == 0 && lab.e[s].conn.is_some() {
                        lab.open(s)
                    }
                }
                3 if raw && !mute => {
                    let n = r.below(2000) as usize;
                    lab.send_data(SYN, peer_id, 0, n);
                    peer_id += 2;
                }
                4 if raw && !mute => {
                    let t = lab.w.b().side[0].st.values().filter(|t| t.table == Table::Live && !t.rx_fin && !t.rx_rst && (t.tx_any || !t.local)).map(|t| (t.id, t.rx_data, t.granted_left())).last();
                    if let Some((id, off, left)) = t {
                        let n = r.range(1, 5000).min(left.max(0) as u64) as usize;
                        lab.settle();
                        let off2 = lab.w.b().side[0].st[&id].rx_data;
                        if off2 == off {
                            lab.send_data(0, id, off, n)
                        }
                    }
                }
                5 if r.pct(10) => lab.pass(11_000 * MS),
                _ => {
                    let v = &mut hs[s];
                    if slow && r.pct(70) {
                        v.retain(|h| h.alive());
                        if let Some(h) = v.last().cloned() {
                            let p = lab.w.with(s, h.id, |t| t.pend);
                            match r.below(3) {
                                0 if !p[1] && !p[3] => lab.op(&h, LOp::Write(r.range(1, 300) as usize)),
                                1 if !p[0] => lab.op(&h, LOp::Read(200)),
                                2 if !p[2] => lab.op(&h, LOp::Flush),
                                _ => {}
                            }
                        }
                    } else if !slow || r.pct(20) {
                        op(&mut lab, &mut r, v, s, slow)
                    }
                }
            }
        }
        lab.settle();
        for s in 0..2 {
            while let Some(h) = lab.e[s].inbox.pop_front() {
                hs[s].push(h)
            }
            while let Some(h) = lab.e[s].opened.pop_front() {
                hs[s].push(h)
            }
        }
        if lab.w.failed() {
            break;
        }
        if r.pct(30) {
            lab.judge()
        }
    }
    lab.judge();
    for s in 0..2 {
        while let Some(h) = lab.e[s].inbox.pop_front() {
            hs[s].push(h)
        }
        while let Some(h) = lab.e[s].opened.pop_front() {
            hs[s].push(h)
        }
    }
    let stats = lab.net.stats(0);
    if !matches!(stop, Stop::None) && !lab.w.failed() {
        after(&mut lab, &mut rng, &hs[0]);
        if !raw && lab.w.b().over(1) && !lab.w.failed() {
            // The other endpoint, which saw the transport end.
            let v: Vec<H> = hs[1].iter().filter(|h| h.alive()).cloned().collect();
            for h in v {
                let p = lab.w.with(1, h.id, |t| t.pend);
                if !p[0] {
                    lab.op(&h, LOp::Drain(5000, u64::MAX));
                }
                if !p[1] && !p[3] {
                    lab.op(&h, LOp::Write(1));
                }
            }
            lab.judge();
            lab.poll_after_end(1);
        }
    }
    c.finish(&lab.w);
    Out { stats, steps }
}

fn op(lab: &mut Lab, r: &mut Rng, v: &mut Vec<H>, s: usize, slow: bool) {
    if s == 0 && !slow {
        app_op(lab, r, v);
        return;
    }
    v.retain(|h| h.alive());
    if v.is_empty() {
        return;
    }
    let h = v[r.below(v.len() as u64) as usize].clone();
    let p = lab.w.with(s, h.id, |t| t.pend);
    match r.below(8) {
        0..=2 if !p[0] => lab.op(&h, LOp::Drain(3000, u64::MAX)),
        3..=5 if !p[1] && !p[3] => lab.op(&h, LOp::Write(r.range(1, 3000) as usize)),
        6 if !p[1] && !p[3] => lab.op(&h, LOp::Close),
        7 => {
            lab.abandon_stream(h.id);
            h.drop_stream();
        }
        _ => {}
    }
}

/// What must hold once side 0 is over.
fn after(lab: &mut Lab, rng: &mut Rng, hs: &[H]) {
    if !lab.w.b().over(0) {
        return;
    }
    lab.w.hit("ends_checked", 1);
    let dropped = lab.w.b().side[0].conn_dropped;
    let closing = lab.w.b().side[0].closing;
    if !dropped && !closing {
        let n = lab.w.b().cov.get("open_errors").copied().unwrap_or(0);
        lab.open(0);
        lab.settle();
        if lab.w.b().cov.get("open_errors").copied().unwrap_or(0) == n {
            lab.w.find(&["C17"], "opening a stream on an ended connection does not fail".into());
        }
    }
    let hs: Vec<H> = hs.iter().filter(|h| h.alive()).cloned().collect();
    // Streams are looked at in different orders, some twice.
    aftermath(lab, rng, &hs);
    for h in &hs {
        let wr = lab.now(h, LOp::Write(10));
        match wr {
            Some(Err(())) => {}
            x => lab.w.find(&["C17", "C16"], format!("stream {}: write after the end of the connection gives {x:?}", h.id)),
        }
        if lab.now(h, LOp::Read(10)) != Some(Ok(0)) {
            lab.w.find(&["C17", "C24"], format!("stream {}: no end-of-stream after the end of the connection", h.id));
        }
        for o in [LOp::Flush, LOp::Close, LOp::Packet] {
            if lab.now(h, o).is_none() {
                lab.w.find(&["C17", "C16"], format!("stream {}: {o:?} hangs after the end of the connection", h.id));
            }
        }
    }
    if !dropped && !lab.w.failed() {
        if closing && !lab.w.b().side[0].closed {
            return;
        }
        lab.poll_after_end(0);
    }
    let st = lab.net.stats(0);
    if let Some(f) = st.fault_hit {
        lab.w.hit("faults_hit", 1);
        if st.after_fault > 0 || st.bytes_after_fault > 0 {
            lab.w.find(&["C18"], format!("{} calls ({} bytes) on the transport after {f}", st.after_fault, st.bytes_after_fault));
        }
    }
    if st.after_close > 0 {
        lab.w.find(&["C18", "C16"], format!("{} calls on the transport after its close", st.after_close));
    }
    if st.close_ok > 1 {
        lab.w.find(&["C16", "C18"], "transport closed twice".into());
    }
}

fn rng_bit(seed: u64) -> bool {
    crate::prng::mix(seed ^ 77) & 1 == 0
}

pub fn run(c: &mut Ctx, raw: bool) {
    let base = scenario(c, Stop::None, raw);
    if !c.findings.is_empty() {
        return;
    }
    let mut rng = Rng::new(c.seed ^ 0xFA);
    let mut list: Vec<Stop> = Vec::new();
    let st = &base.stats;
    let kinds = [ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::WriteZero];
    let calls = [(Call::Read, st.reads), (Call::Write, st.writes), (Call::Flush, st.flushes), (Call::Close, st.closes)];
    let per = if c.thorough { 40 } else { 3 };
    for (call, n) in calls {
        if n == 0 {
            continue;
        }
        let all = n <= per;
        for j in 0..n.min(per) {
            let at = if all { j } else { rng.below(n) };
            let what = match (call, rng.below(4)) {
                (Call::Read, 0) => What::Zero,
                (Call::Write, 0) => What::Zero,
                (Call::Write, 1) => What::Over(rng.pick(&[1usize, 2, 1000, 1 << 40])),
                _ => What::Err(rng.pick(&kinds)),
            };
            list.push(Stop::Fault(Fault { call, at, what, sticky: rng.pct(40) }));
        }
    }
    for _ in 0..if c.thorough { 10 } else { 3 } {
        let k = rng.below(base.steps);
        list.push(match rng.below(5) {
            0 => Stop::Gone(k),
            1 | 2 => Stop::Bytes(k, rng.below(6) as u8),
            3 => Stop::Drop(k),
            _ => Stop::Close(k),
        });
    }
    for s in list {
        if matches!(s, Stop::Bytes(..)) && !raw {
            continue;
        }
        scenario(c, s, raw);
        c.hit("stops", 1);
        if !c.findings.is_empty() {
            break;
        }
    }
}
