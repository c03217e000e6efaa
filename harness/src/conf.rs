//! Configurations: which are accepted, that the last setting counts, and that every accepted one works.
use crate::close;
use crate::flow;
use crate::hostile::{self, Mode};
use crate::lab::{LOp, Lab};
use crate::pipe::TCfg;
use crate::prng::Rng;
use crate::runner::Ctx;
use crate::wire::*;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const C: usize = CREDIT as usize;
/// The largest number of streams whose minimum windows can be added up.
const TOP: usize = usize::MAX / C;

fn count(rng: &mut Rng) -> usize {
    let r = rng.range(0, 5000) as usize;
    let b = 1usize << rng.range(0, 63);
    rng.pick(&[0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 1 << 14, 1 << 32, TOP - 1, TOP, TOP + 1, usize::MAX - 1, usize::MAX, r, r, b, b.wrapping_sub(1)])
}

fn limit(rng: &mut Rng, n: usize) -> Option<usize> {
    let base = n.saturating_mul(C);
    let r = rng.u64() as usize;
    rng.pick(&[
        None,
        None,
        Some(1 << 30),
        Some(base),
        Some(base.saturating_sub(1)),
        Some(base.saturating_add(1)),
        Some(base.saturating_add(300_000)),
        Some(base.saturating_add(1 << 24)),
        Some(n.wrapping_mul(C)),
        Some(usize::MAX),
        Some(usize::MAX - 1),
        Some(0),
        Some(C - 1),
        Some(C),
        Some(r),
    ])
}

fn fitting(rng: &mut Rng) -> SideCfg {
    loop {
        let mut c = SideCfg::dflt(rng.pct(50));
        c.max_streams = count(rng);
        c.limit = limit(rng, c.max_streams);
        c.split = rng.pick(&[16 * 1024usize, 16 * 1024, 1, 1000, 1 << 18, 1 << 20, (1 << 20) + 1, 1 << 32, usize::MAX]);
        c.rac = rng.pct(50);
        if SideCfg::fits(c.max_streams, c.limit) && c.max_streams > 0 {
            return c;
        }
    }
}

/// Settings one by one against the documented rule.
pub fn setters(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    for _ in 0..200 {
        let mut y = yamux::Config::default();
        let mut m = SideCfg::dflt(true);
        for _ in 0..rng.range(1, 12) {
            let before = y.clone();
            let mut t = m;
            let what;
            let r = match rng.below(6) {
                0 | 1 => {
                    t.max_streams = count(&mut rng);
                    what = format!("set_max_num_streams({})", t.max_streams);
                    catch_unwind(AssertUnwindSafe(|| {
                        y.set_max_num_streams(t.max_streams);
                    }))
                }
                2 | 3 => {
                    t.limit = limit(&mut rng, m.max_streams);
                    what = format!("set_max_connection_receive_window({:?})", t.limit);
                    catch_unwind(AssertUnwindSafe(|| {
                        y.set_max_connection_receive_window(t.limit);
                    }))
                }
                4 => {
                    t.rac = rng.pct(50);
                    what = String::from("set_read_after_close");
                    catch_unwind(AssertUnwindSafe(|| {
                        y.set_read_after_close(t.rac);
                    }))
                }
                _ => {
                    t.split = count(&mut rng);
                    what = format!("set_split_send_size({})", t.split);
                    catch_unwind(AssertUnwindSafe(|| {
                        y.set_split_send_size(t.split);
                    }))
                }
            };
            crate::runner::clear_panic();
            let fits = SideCfg::fits(t.max_streams, t.limit);
            c.hit(if fits { "settings_accepted" } else { "settings_refused" }, 1);
            c.cov_hash(t.max_streams as u64 ^ (t.limit.unwrap_or(7) as u64).rotate_left(17));
            if r.is_ok() != fits {
                let v = if fits { "refuses a permitted setting" } else { "accepts a limit below 256 KiB per stream" };
                c.find(&["C27"], format!("{what} {v} (limit {:?}, {} streams before)", m.limit, m.max_streams));
                return;
            }
            if fits {
                m = t
            } else {
                y = before
            }
        }
        let _ = format!("{y:?}");
    }
}

/// What is accepted works, however extreme.
pub fn work(c: &mut Ctx) {
    let mut rng = Rng::new(c.seed);
    let mut cf = fitting(&mut rng);
    c.hit("configurations", 1);
    match rng.below(10) {
        0..=3 => flow::recv_with(c, rng, cf),
        4..=5 => {
            let top = rng.range(20, 25);
            flow::giant_with(c, rng, cf, top)
        }
        6..=7 => {
            if cf.split < 1000 {
                cf.split = 1000
            }
            let mode = if rng.pct(50) { Mode::Valid } else { Mode::Violate };
            hostile::run_with(c, mode, rng, cf)
        }
        8 => sizes(c, rng, cf),
        _ => {
            if cf.split < 1000 {
                cf.split = 100
            }
            close::solo_with(c, rng, cf)
        }
    }
}

/// Writes up to the split size go out as one frame, larger ones are split at it; streams up to the
/// limit are there; buffered data follows `read_after_close`.
pub fn sizes(c: &mut Ctx, mut rng: Rng, cf: SideCfg) {
    let mut lab = Lab::solo(c.seed, cf, TCfg::plain(), TCfg::plain(), c.verbose);
    lab.w.say(|| format!("sizes {cf:?}"));
    let pid: u32 = if cf.client { 2 } else { 1 };
    lab.settle();
    lab.send(WIN, SYN, pid, 8 << 20);
    lab.settle();
    let Some(h) = lab.e[0].inbox.pop_front() else {
        if !lab.w.failed() {
            lab.w.find(&["C27", "C14"], format!("the first of {} streams does not come in", cf.max_streams));
        }
        c.finish(&lab.w);
        return;
    };
    for _ in 0..rng.range(3, 12) {
        let room = lab.w.with(0, h.id, |t| t.credit());
        let s = cf.split as u64;
        let n = rng.pick(&[1, 2, 1000, 16 * 1024, 16 * 1024 + 1, 1 << 18, 1 << 20, s, s.saturating_sub(1), s.saturating_add(1), s.saturating_mul(2)]).clamp(1, 2 << 20);
        if n > room {
            break;
        }
        let (a, f) = lab.w.with(0, h.id, |t| (t.accepted, t.tx_frames));
        lab.now(&h, LOp::Write(n as usize));
        lab.settle();
        let (a, f) = lab.w.with(0, h.id, |t| (t.accepted - a, t.tx_frames - f));
        lab.w.hit("writes_sized", 1);
        if a != n.min(s) || f != 1 {
            lab.w.find(&["C27"], format!("a write of {n} bytes with {room} bytes of credit and split size {s}: {a} bytes in {f} frames"));
            break;
        }
    }
    // As many streams as fit, up to what is practical.
    let most = cf.max_streams.min(700);
    let mut hs = vec![h];
    let mut id = pid;
    while hs.len() < most && !lab.w.failed() && !lab.ended(0) {
        let k = rng.range(1, 200).min((most - hs.len()) as u64);
        for _ in 0..k {
            id += 2;
            lab.send(WIN, SYN, id, 0);
        }
        lab.settle();
        let n = hs.len();
        hs.extend(lab.e[0].inbox.drain(..));
        if hs.len() != n + k as usize && !lab.w.failed() {
            lab.w.find(&["C27", "C14"], format!("{k} streams come in with {n} of {} in use: {} surface", cf.max_streams, hs.len() - n));
        }
    }
    if cf.max_streams > most && !lab.w.failed() {
        let n = hs.len();
        hs.extend(lab.open_now(0));
        if hs.len() == n {
            lab.w.find(&["C27", "C14"], format!("cannot open a stream with {n} of {} in use", cf.max_streams));
        }
    }
    lab.judge();
    c.finish(&lab.w);
}
