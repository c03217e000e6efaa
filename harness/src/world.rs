//! The model and the monitors. Fed with every byte crossing a transport (taps), every result of an API
//! call, and every quiescent point; judges them against the properties. A finding carries the
//! properties it refutes.
use crate::prng::Rng;
use crate::pipe::{Call, Net, What};
use crate::prng::{check, mix};
use crate::vclock;
use crate::wire::*;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::{BTreeMap, VecDeque};
use std::rc::{Rc, Weak};

pub type Props = &'static [&'static str];

#[derive(Clone, Debug)]
pub struct Finding {
    pub props: Props,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read = 0,
    Write = 1,
    Flush = 2,
    Close = 3,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Table {
    Live,
    /// Handle dropped, the connection may not have noticed yet.
    Dropping,
    Gone,
}

#[derive(Debug)]
pub struct St {
    pub id: u32,
    /// Opened by this side.
    pub local: bool,
    pub surfaced: bool,
    pub table: Table,
    pub accepted: u64,
    pub acc_writes: u64,
    /// Empty writes accepted; payload-free data frames sent.
    pub acc_empty: u64,
    pub tx_empty: u64,
    pub read: u64,
    pub eof: bool,
    pub close_called: bool,
    pub close_ok: bool,
    pub dropped: bool,
    drop_fin: bool,
    drop_rst: bool,
    drop_closed: bool,
    pub tx_any: bool,
    pub tx_syn: bool,
    pub tx_ack: bool,
    pub tx_fin: bool,
    pub tx_rst: bool,
    pub tx_data: u64,
    pub tx_frames: u64,
    pub tx_credit: u64,
    /// Credit of the window updates sent since they were last looked at.
    pub grants: Vec<u32>,
    pub updates: u32,
    pub rx_syn: bool,
    pub rx_ack: bool,
    pub rx_fin: bool,
    pub rx_rst: bool,
    /// Bytes the application is entitled to.
    pub rx_data: u64,
    /// All bytes of data frames received, including those after the end.
    pub rx_total: u64,
    pub rx_credit: u64,
    over: BTreeMap<u32, u32>,
    pub pend: [bool; 4],
    key_in: u64,
}

impl St {
    fn new(id: u32, local: bool, key_in: u64) -> St {
        St {
            id,
            local,
            surfaced: local,
            table: Table::Live,
            accepted: 0,
            acc_writes: 0,
            acc_empty: 0,
            tx_empty: 0,
            read: 0,
            eof: false,
            close_called: false,
            close_ok: false,
            dropped: false,
            drop_fin: false,
            drop_rst: false,
            drop_closed: false,
            tx_any: false,
            tx_syn: false,
            tx_ack: false,
            tx_fin: false,
            tx_rst: false,
            tx_data: 0,
            tx_frames: 0,
            tx_credit: 0,
            grants: Vec::new(),
            updates: 0,
            rx_syn: false,
            rx_ack: false,
            rx_fin: false,
            rx_rst: false,
            rx_data: 0,
            rx_total: 0,
            rx_credit: 0,
            over: BTreeMap::new(),
            pend: [false; 4],
            key_in,
        }
    }
    /// Credit the application of this side can still use.
    pub fn credit(&self) -> u64 {
        (CREDIT + self.rx_credit).saturating_sub(self.accepted)
    }
    /// Credit the peer can still use.
    pub fn granted_left(&self) -> i64 {
        (CREDIT + self.tx_credit) as i64 - self.rx_total as i64
    }
    /// Counts towards the acknowledgement backlog.
    pub fn unacked(&self) -> bool {
        self.local && !self.rx_ack && !self.close_called && !self.rx_fin && !self.rx_rst && !self.dropped
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SideCfg {
    pub real: bool,
    pub client: bool,
    pub split: usize,
    pub max_streams: usize,
    pub limit: Option<usize>,
    pub rac: bool,
}

impl SideCfg {
    pub fn dflt(client: bool) -> SideCfg {
        SideCfg { real: true, client, split: 16 * 1024, max_streams: 512, limit: Some(1 << 30), rac: true }
    }
    pub fn raw(client: bool) -> SideCfg {
        SideCfg { real: false, ..SideCfg::dflt(client) }
    }
    /// Whether the documentation permits this combination.
    pub fn fits(max_streams: usize, limit: Option<usize>) -> bool {
        limit.map_or(true, |l| max_streams as u128 * CREDIT as u128 <= l as u128)
    }
    /// This configuration, arrived at by one of the many sequences of settings that lead to it. What
    /// equals the documented default may be left to it.
    pub fn yamux(&self, seed: u64) -> yamux::Config {
        let mut rng = Rng::new(seed ^ 0xC0F1_6000 ^ (self.client as u64) << 40);
        let mut c = yamux::Config::default();
        let d = SideCfg::dflt(self.client);
        let mut m = d;
        for _ in 0..rng.pick(&[0u64, 0, 0, 1, 3, 10]) {
            match rng.below(4) {
                0 => {
                    let l = rng.pick(&[None, self.limit, Some(1 << 30), Some(1 << 27), Some(usize::MAX), Some(256 << 10)]);
                    if SideCfg::fits(m.max_streams, l) {
                        m.limit = l;
                        c.set_max_connection_receive_window(l);
                    }
                }
                1 => {
                    let n = rng.pick(&[0, 1, 100, 512, 4096, 5000, self.max_streams, 1 << 40]);
                    if SideCfg::fits(n, m.limit) {
                        m.max_streams = n;
                        c.set_max_num_streams(n);
                    }
                }
                2 => {
                    m.split = rng.pick(&[1usize, 1000, 16 * 1024, 1 << 20, usize::MAX, self.split]);
                    c.set_split_send_size(m.split);
                }
                _ => {
                    m.rac = rng.pct(50);
                    c.set_read_after_close(m.rac);
                }
            }
            if rng.pct(10) {
                c = c.clone()
            }
        }
        while (m.max_streams, m.limit, m.split, m.rac) != (self.max_streams, self.limit, self.split, self.rac) {
            match rng.below(4) {
                0 if m.limit != self.limit => {
                    let l = if SideCfg::fits(m.max_streams, self.limit) { self.limit } else { None };
                    m.limit = l;
                    c.set_max_connection_receive_window(l);
                }
                1 if m.max_streams != self.max_streams && SideCfg::fits(self.max_streams, m.limit) => {
                    m.max_streams = self.max_streams;
                    c.set_max_num_streams(m.max_streams);
                }
                1 if m.max_streams != self.max_streams && m.limit == self.limit => {
                    // The target itself fits, so this does not happen.
                    panic!("harness: {self:?} does not fit")
                }
                2 if m.split != self.split => {
                    m.split = self.split;
                    c.set_split_send_size(m.split);
                }
                3 if m.rac != self.rac => {
                    m.rac = self.rac;
                    c.set_read_after_close(m.rac);
                }
                _ => {}
            }
        }
        c
    }
    /// What the windows of all streams may gain altogether.
    pub fn spare(&self) -> u64 {
        match self.limit {
            Some(l) => (l as u64).saturating_sub((self.max_streams as u64).saturating_mul(CREDIT)),
            None => u64::MAX,
        }
    }
    /// The largest receive window a stream can have under the connection limit.
    pub fn window_cap(&self) -> u64 {
        CREDIT.saturating_add(self.spare()).min(u32::MAX as u64)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EndKind {
    Clean,
    Io(std::io::ErrorKind),
    /// Decode error, described.
    Decode(String),
    Other(String),
}

pub struct Side {
    pub cfg: SideCfg,
    pub st: BTreeMap<u32, St>,
    /// What the connection reported as its end.
    pub ended: Option<EndKind>,
    /// What the model says the end must be.
    pub due: Option<EndKind>,
    pub closing: bool,
    pub closed: bool,
    pub close_polls: u64,
    pub closed_ok: bool,
    /// The peer's bytes do not decode, or end inside a frame.
    pub rx_bad: bool,
    pub conn_dropped: bool,
    pub fault: bool,
    /// The error the transport gave, if a definite one.
    fault_kind: Option<std::io::ErrorKind>,
    pub tx: Parser,
    pub rx: Parser,
    pub tx_goaway: Vec<u32>,
    pub tx_last_normal_goaway: bool,
    pub rx_goaway: bool,
    pub rx_eof: bool,
    pub last_open: u32,
    /// Go-aways the peer's frames call for: permitted codes, whether it must come, rule.
    pub exp_goaway: Vec<(Vec<u32>, bool, Props, String)>,
    pub violated: bool,
    /// Pongs owed: value, whether it must come.
    pub pongs: VecDeque<(u32, bool)>,
    pub own_ping: Option<u32>,
    pub own_ping_at: i64,
    pub last_pong: Option<i64>,
    pub pings_sent: u64,
    pub rtt: Option<i64>,
    pub pend_open: bool,
    pub pend_close: bool,
    pub frames_tx: u64,
    pub frames_rx: u64,
    /// Opened or surfaced in total.
    pub opened: u64,
    close_snap: Vec<(u32, u64, bool)>,
}

pub struct W {
    pub seed: u64,
    pub side: [Side; 2],
    pub findings: Vec<Finding>,
    pub cov: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    /// The peer's frames are arbitrary: only format and ends are judged.
    /// Events so far.
    pub ev: u64,
    pub free: bool,
    /// Keep no records per stream beyond what is live.
    pub lean: bool,
    /// What was observed per side, kind and stream, independent of how things interleave.
    pub dig: BTreeMap<(usize, &'static str, u32), u64>,
    handles: Vec<(usize, u32, Weak<RefCell<Option<yamux::Stream>>>)>,
}

#[derive(Clone)]
pub struct World(Rc<RefCell<W>>);

const ALLIVE: Props = &["C03"];

pub fn key(seed: u64, writer: usize, id: u32) -> u64 {
    mix(seed ^ mix(((id as u64) << 1) | writer as u64))
}

macro_rules! fnd {
    ($w:expr, $props:expr, $($a:tt)*) => {{
        let m = format!($($a)*);
        $w.find($props, m)
    }};
}

impl W {
    pub fn find(&mut self, props: Props, msg: String) {
        if let Some(l) = &mut self.log {
            l.push(format!("!! {props:?} {msg}"))
        }
        if self.findings.len() < 50 {
            self.findings.push(Finding { props, msg })
        }
    }
    pub fn hit(&mut self, k: &'static str, n: u64) {
        *self.cov.entry(k).or_default() += n;
    }
    fn mixin(&mut self, a: u64, b: u64) {
        self.ev += 1;
        self.hash = mix(self.hash ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32));
    }
    fn note(&mut self, s: usize, k: &'static str, id: u32, a: u64) {
        if self.lean {
            return;
        }
        let e = self.dig.entry((s, k, id)).or_default();
        *e = mix(*e ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(1);
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let t = vclock::now() - vclock::EPOCH;
            if l.len() >= 20000 {
                l.drain(..10000);
                l[0] = "... (trace cut)".into();
            }
            l.push(format!("{:>9.3}ms {}", t as f64 / 1e6, f()))
        }
    }
    pub fn over(&self, s: usize) -> bool {
        let d = &self.side[s];
        d.ended.is_some() || d.closing || d.conn_dropped
    }
    /// The side is certainly alive: nothing ended it, locally or on the wire.
    pub fn alive(&self, s: usize) -> bool {
        let d = &self.side[s];
        d.cfg.real && !self.over(s) && d.due.is_none() && !d.rx_goaway && !d.rx_eof && !d.fault
    }
    pub fn backlog(&self, s: usize) -> usize {
        self.side[s].st.values().filter(|t| t.unacked()).count()
    }
    /// Streams occupying a slot for certain, and at most.
    pub fn slots(&self, s: usize) -> (usize, usize) {
        let live = self.side[s].st.values().filter(|t| t.table == Table::Live).count();
        let dropping = self.side[s].st.values().filter(|t| t.table == Table::Dropping).count();
        (live, live + dropping)
    }
    /// Likewise, but quick and vague while there is room.
    fn slots_quick(&self, s: usize) -> (usize, usize) {
        let d = &self.side[s];
        if d.st.len() < d.cfg.max_streams {
            (0, d.st.len())
        } else {
            self.slots(s)
        }
    }
    pub fn window_bound(&self, s: usize, t: &St) -> u64 {
        let d = &self.side[s];
        if d.rtt.is_none() {
            CREDIT
        } else {
            let k = t.updates.min(24);
            (CREDIT << k).min(d.cfg.window_cap()).min(u32::MAX as u64)
        }
    }

    // ---- transmit side -------------------------------------------------------------------------

    fn tx_head(&mut self, s: usize, h: Hdr) {
        self.say(|| format!("{s} --> {h}"));
        self.hit("frames_tx", 1);
        self.side[s].frames_tx += 1;
        self.mixin(1 + s as u64 + ((h.ty as u64) << 8) + ((h.flags as u64) << 16), ((h.id as u64) << 32) | h.len as u64);
        self.note(s, "sent", h.id, ((h.ty as u64) << 48) | ((h.flags as u64) << 32) | h.len as u64);
        if h.ver != 0 || h.ty > 3 {
            fnd!(self, &["C11"], "side {s} sent an invalid header: {h}");
            return;
        }
        if self.side[s].tx_last_normal_goaway {
            fnd!(self, &["C16", "C11"], "side {s} sent {h} after its normal go-away");
        }
        match h.ty {
            PING => {
                if h.id != 0 || (h.flags != SYN && h.flags != ACK) {
                    fnd!(self, &["C11", "C20"], "side {s} sent a malformed ping: {h}");
                } else if h.flags == SYN {
                    self.hit("own_pings", 1);
                    let now = vclock::now();
                    let d = &mut self.side[s];
                    d.pings_sent += 1;
                    if self.free {
                        // A forged answer may have met a ping that was not on the wire yet.
                    } else if d.own_ping.is_some() {
                        fnd!(self, &["C20"], "side {s} sent a ping while another is outstanding");
                    } else if d.last_pong.map_or(false, |t| now < t + 10 * vclock::SEC) {
                        let g = now - d.last_pong.unwrap();
                        fnd!(self, &["C20"], "side {s} sent a ping {} ms after the previous answer", g / vclock::MS);
                    }
                    self.side[s].own_ping = Some(h.len);
                    self.side[s].own_ping_at = now;
                } else {
                    self.hit("pongs", 1);
                    loop {
                        match self.side[s].pongs.pop_front() {
                            Some((v, _)) if v == h.len => break,
                            Some((_, false)) => continue,
                            x => {
                                if !self.free {
                                    fnd!(self, &["C20", "C11"], "side {s} sent pong {} but owes {x:?}", h.len);
                                }
                                break;
                            }
                        }
                    }
                }
            }
            GOAWAY => {
                if h.id != 0 || h.flags != 0 || h.len > 2 {
                    fnd!(self, &["C11"], "side {s} sent a malformed go-away: {h}");
                }
                self.hit("goaways", 1);
                self.side[s].tx_goaway.push(h.len);
                if h.len == 0 {
                    if !self.side[s].closing {
                        fnd!(self, &["C09", "C16"], "side {s} sent a normal go-away although it was not asked to close");
                    }
                    self.side[s].tx_last_normal_goaway = true;
                    self.check_closed_streams(s);
                } else if !self.free {
                    let e = &mut self.side[s].exp_goaway;
                    let must = e.iter().position(|x| x.1 && x.0.contains(&h.len));
                    match must.or_else(|| e.iter().position(|x| x.0.contains(&h.len))) {
                        Some(i) => {
                            e.remove(i);
                        }
                        None => {
                            let exp = e.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>().join(" ");
                            fnd!(self, &["C09", "C07", "C08"], "side {s} sent go-away {} without a violation that allows that code (owed: {exp})", h.len)
                        }
                    }
                }
            }
            _ => self.tx_stream(s, h),
        }
    }

    /// At the normal go-away everything the streams had accepted before the close must be out.
    fn check_closed_streams(&mut self, s: usize) {
        if self.free {
            return;
        }
        let snap = std::mem::take(&mut self.side[s].close_snap);
        for (id, acc, fin) in snap {
            let Some(t) = self.side[s].st.get(&id) else { continue };
            if t.rx_rst {
                continue;
            }
            let (tx, f) = (t.tx_data, t.tx_fin || t.tx_rst);
            if tx < acc {
                fnd!(self, &["C16"], "side {s} said goodbye with {} of {acc} accepted bytes of stream {id} sent", tx);
            }
            if fin && !f {
                fnd!(self, &["C16", "C02"], "side {s} said goodbye without the close of stream {id}");
            }
        }
    }

    fn tx_stream(&mut self, s: usize, h: Hdr) {
        if h.id == 0 || h.flags & !15 != 0 || (h.has(SYN) && h.has(ACK)) {
            fnd!(self, &["C11"], "side {s} sent a malformed stream frame: {h}");
            return;
        }
        if self.free {
            return;
        }
        let (split, closing) = (self.side[s].cfg.split, self.over(s));
        if h.ty == DATA && h.len as usize > split {
            fnd!(self, &["C04", "C11", "C27"], "side {s} sent a data frame of {} bytes, split size is {split}", h.len);
        }
        let Some(t) = self.side[s].st.get_mut(&h.id) else {
            fnd!(self, &["C11", "C12", "C13"], "side {s} sent a frame for a stream it never had: {h}");
            return;
        };
        let mut bad: Vec<(Props, String)> = Vec::new();
        if t.tx_rst {
            bad.push((&["C12"], format!("side {s} sent {h} after its reset of the stream")));
        }
        let first = !t.tx_any;
        let bare_rst = h.has(RST) && h.ty == DATA && h.len == 0;
        let drop_caused = t.dropped && h.len == 0 && h.ty == DATA && h.has(FIN | RST);
        if t.local {
            if first && !h.has(SYN) && !bare_rst {
                bad.push((&["C12", "C02"], format!("side {s} opened stream {} with a frame without SYN: {h}", h.id)));
            }
            if !first && h.has(SYN) {
                bad.push((&["C12"], format!("side {s} sent a second SYN: {h}")));
            }
            if h.has(ACK) {
                bad.push((&["C12"], format!("side {s} acknowledged its own stream: {h}")));
            }
        } else {
            if h.has(SYN) {
                bad.push((&["C12"], format!("side {s} sent SYN on a stream of its peer: {h}")));
            }
            if first && !h.has(ACK) && !drop_caused {
                bad.push((&["C12"], format!("side {s} first frame on a stream of its peer lacks ACK: {h}")));
            }
            if !first && h.has(ACK) {
                bad.push((&["C12"], format!("side {s} acknowledged a stream again: {h}")));
            }
        }
        if h.has(RST) {
            if !t.dropped {
                bad.push((&["C12", "C19"], format!("side {s} reset a stream its application still holds: {h}")));
            } else if t.drop_closed {
                bad.push((&["C19", "C12"], format!("side {s} reset stream {} although its writing half was closed before the drop", h.id)));
            } else if t.drop_fin {
                bad.push((&["C19", "C12"], format!("side {s} reset stream {} although the peer had finished before the drop", h.id)));
            }
            if !t.rx_rst && t.tx_data != t.accepted {
                bad.push((&["C19", "C11"], format!("side {s} reset stream {} with {} of {} accepted bytes sent", h.id, t.tx_data, t.accepted)));
            }
        }
        if h.has(FIN) {
            if t.tx_fin {
                bad.push((&["C12", "C19"], format!("side {s} sent a second FIN: {h}")));
            }
            if !t.close_called && !t.dropped {
                bad.push((&["C12", "C02"], format!("side {s} sent FIN on a stream neither closed nor dropped: {h}")));
            }
            if t.dropped && !t.close_called && !t.rx_fin && !t.rx_rst {
                bad.push((&["C19"], format!("side {s} sent FIN instead of a reset for dropped stream {}", h.id)));
            }
            let l = if h.ty == DATA { h.len as u64 } else { 0 };
            if !t.rx_rst && t.tx_data + l != t.accepted {
                bad.push((&["C11", "C02", "C16", "C19"], format!("side {s} sent FIN on stream {} with {} of {} accepted bytes sent", h.id, t.tx_data + l, t.accepted)));
            }
        }
        if h.ty == DATA && h.len > 0 && t.tx_fin {
            bad.push((&["C12", "C02"], format!("side {s} sent data after FIN: {h}")));
        }
        if h.ty == DATA {
            let end = t.tx_data + h.len as u64;
            if end > CREDIT + t.rx_credit {
                bad.push((&["C04"], format!("side {s} sent {end} bytes on stream {}, credit was {}", h.id, CREDIT + t.rx_credit)));
            }
            if end > t.accepted {
                bad.push((&["C11", "C01"], format!("side {s} sent {end} bytes on stream {} but accepted {}", h.id, t.accepted)));
            }
        }
        if h.ty == DATA && h.len == 0 && !h.has(FIN | RST) {
            t.tx_empty += 1;
            if t.tx_empty > t.acc_empty {
                bad.push((&["C26", "C11"], format!("side {s} sent a frame without a purpose: {h}")));
            }
        }
        if h.ty == WIN && !h.has(SYN | ACK) && h.len == 0 && !h.has(FIN | RST) {
            bad.push((&["C26"], format!("side {s} sent a frame without a purpose: {h}")));
        }
        if h.ty == WIN && !h.has(SYN) && h.len > 0 && (h.len as u64) < CREDIT / 2 {
            bad.push((&["C26"], format!("side {s} granted a mere {} bytes on stream {}", h.len, h.id)));
        }
        t.tx_any = true;
        t.tx_syn |= h.has(SYN);
        t.tx_ack |= h.has(ACK);
        t.tx_fin |= h.has(FIN);
        t.tx_rst |= h.has(RST);
        if h.ty == WIN {
            t.tx_credit += h.len as u64;
            if h.len > 0 && t.grants.len() < 64 {
                t.grants.push(h.len)
            }
            t.updates += 1;
        }
        if h.has(FIN | RST) && t.dropped {
            t.table = Table::Gone;
        }
        if h.ty == WIN {
            self.hit("updates", 1);
            let t = &self.side[s].st[&h.id];
            let b = self.window_bound(s, t);
            let out = CREDIT + t.tx_credit - t.read;
            if out > b {
                bad.push((&["C05", "C06", "C27"], format!("side {s} granted {} bytes beyond the {} read on stream {}, window at most {b}", out, t.read, h.id)));
            }
            if CREDIT + t.tx_credit > t.rx_data + self.side[s].cfg.window_cap().max(CREDIT) {
                bad.push((&["C05"], format!("side {s} granted more unused credit than any window allows on stream {}", h.id)));
            }
        }
        // Overtaking: streams with accepted data that is not on the wire.
        let mut worst = None;
        if !closing {
            for (id, t) in self.side[s].st.iter_mut() {
                if *id == h.id || t.accepted <= t.tx_data {
                    t.over.clear();
                } else {
                    let k = t.over.entry(h.id).or_default();
                    *k += 1;
                    if *k > 8 {
                        worst = Some((*id, *k));
                    }
                }
            }
        }
        if let Some((id, k)) = worst {
            bad.push((&["C21"], format!("side {s}: stream {} put {k} frames on the wire while stream {id} had data waiting", h.id)));
        }
        for (p, m) in bad {
            self.find(p, m)
        }
    }

    fn tx_whole(&mut self, s: usize, f: Frame) {
        if f.h.ty == DATA {
            self.note(s, "sent", f.h.id, crate::prng::hash(&f.body));
        }
        if f.h.ty != DATA || f.h.id == 0 || self.free {
            return;
        }
        self.hit("bytes_tx", f.h.len as u64);
        let k = key(self.seed, s, f.h.id);
        let Some(t) = self.side[s].st.get_mut(&f.h.id) else { return };
        let off = t.tx_data;
        t.tx_data += f.h.len as u64;
        if f.h.len > 0 {
            t.tx_frames += 1;
        }
        if let Some(i) = check(k, off, &f.body) {
            fnd!(self, &["C11", "C01"], "side {s} stream {}: byte {} on the wire is not the byte written", f.h.id, off + i as u64);
        }
    }

    // ---- receive side --------------------------------------------------------------------------

    fn expect_goaway(&mut self, s: usize, codes: &[u32], must: bool, props: Props, why: String) {
        self.say(|| format!("{s}     model: violation ({why}), go-away {codes:?} must={must}"));
        if self.side[1 - s].cfg.real && must {
            fnd!(self, &["C09", "C04", "C07", "C12", "C13"], "side {} violates the protocol: {why}", 1 - s);
        }
        if must {
            self.side[s].violated = true;
            self.hit("violations", 1);
        }
        self.side[s].exp_goaway.push((codes.to_vec(), must, props, why));
    }

    fn due(&mut self, s: usize, k: EndKind) {
        if self.side[s].due.is_none() {
            self.say(|| format!("{s}     model: the connection must end: {k:?}"));
            self.side[s].due = Some(k);
        }
    }

    fn rx_head(&mut self, s: usize, h: Hdr) {
        if h.ver != 0 || h.ty > 3 || (h.ty == DATA && h.len > 1 << 20) {
            self.side[s].rx_bad = true;
        }
        if self.side[s].due.is_some() || self.over(s) {
            return;
        }
        if h.ver != 0 {
            self.due(s, EndKind::Decode(format!("version {}", h.ver)));
        } else if h.ty > 3 {
            self.due(s, EndKind::Decode(format!("type {}", h.ty)));
        } else if h.ty == DATA && h.len > 1 << 20 {
            self.due(s, EndKind::Decode(format!("too large {}", h.len)));
        }
    }

    fn rx_whole(&mut self, s: usize, f: Frame) {
        let h = f.h;
        self.say(|| format!("{s} <-- {h}"));
        self.hit("frames_rx", 1);
        self.side[s].frames_rx += 1;
        self.mixin(11 + s as u64 + ((h.ty as u64) << 8) + ((h.flags as u64) << 16), ((h.id as u64) << 32) | h.len as u64);
        if self.over(s) || self.side[s].due.is_some() {
            return;
        }
        if h.has(ACK) && h.ty <= WIN {
            if let Some(t) = self.side[s].st.get_mut(&h.id) {
                if t.table != Table::Gone && t.local {
                    t.rx_ack = true
                }
            }
        }
        match h.ty {
            GOAWAY => {
                self.side[s].rx_goaway = true;
                self.due(s, EndKind::Clean);
            }
            PING if h.has(ACK) => {
                let now = vclock::now();
                let d = &mut self.side[s];
                match d.own_ping {
                    Some(v) if v == h.len => {
                        d.own_ping = None;
                        d.last_pong = Some(now);
                        d.rtt = Some(now - d.own_ping_at);
                        self.hit("rtts", 1);
                    }
                    x => {
                        let wrong = format!("pong {} but outstanding ping is {x:?}", h.len);
                        self.expect_goaway(s, &[1], true, &["C09"], wrong)
                    }
                }
            }
            PING => {
                let known = self.side[s].st.get(&h.id).map_or(false, |t| t.table != Table::Gone);
                let must = h.id == 0;
                if must || known {
                    self.hit("pings_rx", 1);
                    self.side[s].pongs.push_back((h.len, must));
                }
            }
            _ => self.rx_stream(s, f),
        }
    }

    fn rx_stream(&mut self, s: usize, f: Frame) {
        let h = f.h;
        let cfg = self.side[s].cfg;
        let tab = self.side[s].st.get(&h.id).map(|t| t.table).unwrap_or(Table::Gone);
        let known = tab != Table::Gone;
        if h.has(RST) {
            if known {
                self.hit("resets_rx", 1);
                let t = self.side[s].st.get_mut(&h.id).unwrap();
                t.rx_rst = true;
            }
            return;
        }
        if h.has(SYN) {
            let (lo, hi) = self.slots_quick(s);
            let right = h.id != 0 && (h.id % 2 == 1) != cfg.client;
            let mut codes: Vec<u32> = Vec::new();
            let mut must = false;
            let mut why = String::new();
            if !right {
                codes.push(1);
                must = true;
                why = format!("SYN with invalid id {}", h.id);
            }
            if known {
                codes.push(1);
                must |= tab == Table::Live;
                why = format!("SYN for stream {} in use", h.id);
            }
            if hi >= cfg.max_streams {
                codes.push(if h.ty == DATA { 2 } else { 1 });
                must |= lo >= cfg.max_streams;
                why = format!("SYN beyond the limit of {} streams", cfg.max_streams);
            }
            if h.ty == DATA && h.len as u64 > CREDIT {
                codes.push(1);
                must = true;
                why = format!("first body of {} bytes", h.len);
            }
            if h.ty == WIN && h.len as u64 + CREDIT > u32::MAX as u64 {
                codes.push(1);
                must = true;
                why = format!("initial credit {} overflows", h.len);
            }
            if !codes.is_empty() {
                let props: Props = if hi >= cfg.max_streams { &["C09", "C14", "C27"] } else if !right { &["C09", "C13"] } else { &["C09"] };
                self.expect_goaway(s, &codes, must, props, why);
                if must {
                    return;
                }
            }
            let kin = key(self.seed, 1 - s, h.id);
            let mut t = St::new(h.id, false, kin);
            t.surfaced = false;
            t.rx_syn = true;
            if h.ty == DATA {
                t.rx_data = h.len as u64;
                t.rx_total = h.len as u64;
            } else {
                t.rx_credit = h.len as u64;
            }
            t.rx_fin = h.has(FIN);
            if h.has(FIN) {
                self.hit("fins_rx", 1);
            }
            self.side[s].st.insert(h.id, t);
            self.hit("syns_rx", 1);
            return;
        }
        if !known {
            self.hit("unknown_rx", 1);
            return;
        }
        let live = tab == Table::Live;
        let t = self.side[s].st.get_mut(&h.id).unwrap();
        let ended = t.rx_fin || t.rx_rst;
        if h.ty == DATA {
            let left = t.granted_left();
            if h.len as i64 > left {
                let must = live && !ended;
                let why = format!("{} bytes on stream {} with {} bytes of credit left", h.len, h.id, left);
                self.expect_goaway(s, &[1], must, &["C07", "C09"], why);
                return;
            }
            t.rx_total += h.len as u64;
            if ended && h.len > 0 {
                self.hit("data_after_end", 1);
                // Whether bytes after the end count as credit used is not specified.
            } else {
                t.rx_data += h.len as u64;
                if self.side[s].st[&h.id].granted_left() == 0 && h.len > 0 {
                    self.hit("window_filled", 1);
                }
            }
        } else {
            // The sender's remaining credit overflows 32 bits.
            let have = t.credit();
            if have + h.len as u64 > u32::MAX as u64 {
                let must = live;
                let why = format!("credit {} on top of {have} on stream {}", h.len, h.id);
                self.expect_goaway(s, &[1], must, &["C09"], why);
                return;
            }
            t.rx_credit += h.len as u64;
            self.hit("credit_rx", 1);
        }
        if h.has(FIN) {
            let t = self.side[s].st.get_mut(&h.id).unwrap();
            if !t.rx_rst {
                t.rx_fin = true;
            }
            self.hit("fins_rx", 1);
        }
    }
}

// ---- public interface ------------------------------------------------------------------------------

impl Side {
    fn new(cfg: SideCfg) -> Side {
        Side {
            cfg,
            st: BTreeMap::new(),
            ended: None,
            due: None,
            closing: false,
            closed: false,
            close_polls: 0,
            closed_ok: false,
            rx_bad: false,
            conn_dropped: false,
            fault: false,
            fault_kind: None,
            tx: Parser::default(),
            rx: Parser::default(),
            tx_goaway: Vec::new(),
            tx_last_normal_goaway: false,
            rx_goaway: false,
            rx_eof: false,
            last_open: 0,
            exp_goaway: Vec::new(),
            violated: false,
            pongs: VecDeque::new(),
            own_ping: None,
            own_ping_at: 0,
            last_pong: None,
            pings_sent: 0,
            rtt: None,
            pend_open: false,
            pend_close: false,
            frames_tx: 0,
            frames_rx: 0,
            opened: 0,
            close_snap: Vec::new(),
        }
    }
}

impl World {
    pub fn new(seed: u64, a: SideCfg, b: SideCfg, verbose: bool) -> World {
        World(Rc::new(RefCell::new(W {
            seed,
            side: [Side::new(a), Side::new(b)],
            findings: Vec::new(),
            cov: BTreeMap::new(),
            hash: 0,
            log: if verbose { Some(Vec::new()) } else { None },
            ev: 0,
            free: false,
            lean: false,
            dig: BTreeMap::new(),
            handles: Vec::new(),
        })))
    }
    pub fn b(&self) -> Ref<'_, W> {
        self.0.borrow()
    }
    pub fn m(&self) -> RefMut<'_, W> {
        self.0.borrow_mut()
    }
    pub fn find(&self, props: Props, msg: String) {
        self.m().find(props, msg)
    }
    pub fn hit(&self, k: &'static str, n: u64) {
        self.m().hit(k, n)
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        self.m().say(f)
    }
    pub fn failed(&self) -> bool {
        !self.b().findings.is_empty()
    }
    pub fn cfg(&self, s: usize) -> SideCfg {
        self.b().side[s].cfg
    }
    pub fn with<R>(&self, s: usize, id: u32, f: impl FnOnce(&mut St) -> R) -> R {
        f(self.m().side[s].st.get_mut(&id).expect("stream in the model"))
    }

    pub fn on_tx(&self, s: usize, b: &[u8]) {
        let mut w = self.m();
        if !w.side[s].cfg.real {
            return;
        }
        let mut p = std::mem::take(&mut w.side[s].tx);
        p.feed(b, |e| match e {
            Ev::Head(h) => w.tx_head(s, h),
            Ev::Whole(f) => w.tx_whole(s, f),
        });
        w.side[s].tx = p;
    }
    pub fn on_rx(&self, s: usize, b: &[u8]) {
        let mut w = self.m();
        if !w.side[s].cfg.real {
            return;
        }
        w.hit("bytes_rx", b.len() as u64);
        let mut p = std::mem::take(&mut w.side[s].rx);
        p.feed(b, |e| match e {
            Ev::Head(h) => w.rx_head(s, h),
            Ev::Whole(f) => w.rx_whole(s, f),
        });
        w.side[s].rx = p;
    }
    pub fn on_rx_eof(&self, s: usize) {
        let mut w = self.m();
        w.say(|| format!("{s} <-- end of input"));
        w.side[s].rx_eof = true;
        if !w.side[s].rx.at_boundary() {
            w.side[s].rx_bad = true;
        }
        if w.over(s) {
            return;
        }
        let k = if w.side[s].rx.at_boundary() { EndKind::Clean } else { EndKind::Io(std::io::ErrorKind::UnexpectedEof) };
        w.due(s, k);
    }
    pub fn on_fault(&self, s: usize, c: Call, what: What) {
        let mut w = self.m();
        w.say(|| format!("{s}     transport fault: {c:?} {what:?}"));
        w.hit("faults", 1);
        if !w.side[s].fault {
            w.side[s].fault_kind = match (c, what) {
                (_, What::Err(k)) => Some(k),
                (Call::Write, What::Zero) => Some(std::io::ErrorKind::WriteZero),
                _ => None,
            };
        }
        w.side[s].fault = true;
        if c == Call::Read && what == What::Zero {
            drop(w);
            self.on_rx_eof(s);
        }
    }

    pub fn on_stream(&self, s: usize, id: u32, local: bool, handle: Weak<RefCell<Option<yamux::Stream>>>) {
        let mut w = self.m();
        w.say(|| format!("{s}     {} stream {id}", if local { "opened" } else { "accepted" }));
        w.hit(if local { "opened" } else { "accepted" }, 1);
        w.mixin(21 + s as u64 + local as u64 * 2, id as u64);
        w.note(s, "streams", 0, id as u64);
        w.handles.retain(|h| h.2.strong_count() > 0);
        w.handles.push((s, id, handle));
        let cfg = w.side[s].cfg;
        w.side[s].opened += 1;
        if w.over(s) {
            fnd!(w, &["C16", "C17"], "side {s} produced stream {id} after the connection ended");
        }
        if local {
            if id == 0 || (id % 2 == 1) != cfg.client {
                fnd!(w, &["C13"], "side {s} opened stream with id {id}, wrong parity");
            }
            if id <= w.side[s].last_open {
                fnd!(w, &["C13"], "side {s} opened stream {id} after {}", w.side[s].last_open);
            }
            w.side[s].last_open = id;
            let kin = key(w.seed, 1 - s, id);
            w.side[s].st.insert(id, St::new(id, true, kin));
            let n = w.backlog(s);
            if n > 256 && !w.free {
                fnd!(w, &["C15"], "side {s} has {n} opened streams awaiting acknowledgement");
            }
        } else if !w.free {
            match w.side[s].st.get_mut(&id) {
                Some(t) if t.rx_syn && !t.surfaced => t.surfaced = true,
                Some(_) => fnd!(w, &["C09", "C08", "C13"], "side {s} surfaced stream {id} a second time"),
                None => {
                    fnd!(w, &["C09", "C08", "C13"], "side {s} surfaced stream {id} which no valid frame opened");
                    let kin = key(w.seed, 1 - s, id);
                    w.side[s].st.insert(id, St::new(id, false, kin));
                }
            }
        } else {
            let kin = key(w.seed, 1 - s, id);
            let mut t = St::new(id, false, kin);
            t.surfaced = true;
            w.side[s].st.insert(id, t);
        }
        let (live, _) = w.slots_quick(s);
        if live > cfg.max_streams && !w.free {
            fnd!(w, &["C14", "C27"], "side {s} has {live} live streams, limit {}", cfg.max_streams);
        }
    }

    pub fn on_open_err(&self, s: usize, e: &yamux::ConnectionError) {
        World::kind(e);
        self.m().ev += 1;
        let mut w = self.m();
        w.say(|| format!("{s}     open failed: {e}"));
        w.note(s, "open error", 0, 1);
        w.hit("open_errors", 1);
        let (_, hi) = w.slots_quick(s);
        let lim = w.side[s].cfg.max_streams;
        match e {
            yamux::ConnectionError::TooManyStreams => {
                if hi < lim {
                    fnd!(w, &["C14", "C27"], "side {s} refused to open a stream with {hi} of {lim} in use");
                }
            }
            yamux::ConnectionError::NoMoreStreamIds => {
                if w.side[s].last_open < u32::MAX - 4 {
                    fnd!(w, &["C13"], "side {s} ran out of ids after {}", w.side[s].last_open);
                }
            }
            _ => {
                if w.alive(s) {
                    fnd!(w, &["C14", "C15", "C03"], "side {s} failed to open a stream: {e}");
                }
            }
        }
        // The error is reported to the opener and ends the connection.
        if w.side[s].ended.is_none() && !w.side[s].closing {
            w.side[s].ended = Some(EndKind::Other(format!("{e}")));
        }
    }

    pub fn kind(e: &yamux::ConnectionError) -> EndKind {
        use yamux::{ConnectionError as E, FrameDecodeError as F, HeaderDecodeError as H};
        std::hint::black_box((format!("{e} {e:?}"), std::error::Error::source(e).map(|e| format!("{e} {e:?} {}", std::error::Error::source(e).is_some()))));
        match e {
            E::Io(e) => EndKind::Io(e.kind()),
            E::Decode(F::Io(e)) => EndKind::Io(e.kind()),
            E::Decode(F::FrameTooLarge(n)) => EndKind::Decode(format!("too large {n}")),
            E::Decode(F::Header(H::Version(v))) => EndKind::Decode(format!("version {v}")),
            E::Decode(F::Header(H::Type(v))) => EndKind::Decode(format!("type {v}")),
            e => EndKind::Other(format!("{e}")),
        }
    }

    /// `poll_next_inbound` (or an open request) reported the end.
    pub fn on_end(&self, s: usize, e: Option<&yamux::ConnectionError>) {
        let k = e.map_or(EndKind::Clean, World::kind);
        let mut w = self.m();
        w.say(|| format!("{s}     connection ended: {k:?}"));
        w.hit("ends", 1);
        w.mixin(31 + s as u64, 0);
        w.note(s, "end", 0, crate::runner::hash_str(&format!("{k:?}")));
        if w.side[s].closing {
            return;
        }
        if let Some(p) = &w.side[s].ended {
            if k != EndKind::Clean {
                let p = p.clone();
                fnd!(w, &["C17"], "side {s} reported its end again: {k:?} after {p:?}");
            }
            return;
        }
        {
            match w.side[s].due.clone() {
                None if w.free && matches!(k, EndKind::Other(_)) => {}
                None if !w.side[s].fault && w.side[s].violated => {}
                None if !w.side[s].fault => fnd!(w, &["C17", "C08", "C03", "C09"], "side {s} ended ({k:?}) although nothing ended the connection"),
                Some(d) if !w.side[s].fault && d != k => {
                    fnd!(w, &["C08", "C10", "C17"], "side {s} ended with {k:?}, expected {d:?}")
                }
                None => {
                    if let Some(f) = w.side[s].fault_kind {
                        if k != EndKind::Io(f) {
                            fnd!(w, &["C17", "C18"], "side {s} reported {k:?} for transport error {f:?}");
                        }
                    }
                }
                _ => {}
            }
        }
        w.side[s].ended = Some(k);
    }
    /// `poll_close` is about to be called for the first time.
    pub fn on_close_start(&self, s: usize) {
        let mut w = self.m();
        if w.side[s].closing {
            return;
        }
        w.say(|| format!("{s}     close requested"));
        w.hit("closes", 1);
        w.mixin(41 + s as u64, 0);
        let snap = w.side[s].st.values().map(|t| (t.id, t.accepted, t.close_ok && !t.rx_rst)).collect();
        w.side[s].close_snap = snap;
        w.side[s].closing = true;
        w.side[s].pend_close = true;
    }
    pub fn on_close_done(&self, s: usize, r: &Result<(), yamux::ConnectionError>) {
        r.as_ref().map_err(World::kind).err();
        let mut w = self.m();
        w.say(|| format!("{s}     close finished: {}", r.is_ok()));
        w.side[s].pend_close = false;
        w.side[s].closed = true;
        w.side[s].closed_ok = r.is_ok();
        w.hit(if r.is_ok() { "closes_succeeded" } else { "closes_failed" }, 1);
        let d = &w.side[s];
        if d.ended.is_none() {
            match r {
                Ok(()) if !d.tx_last_normal_goaway && d.due.is_none() => {
                    fnd!(w, &["C16"], "side {s}: close succeeded without a normal go-away on the wire");
                }
                Err(e) if !d.fault && !d.rx_bad => {
                    let e = World::kind(e);
                    fnd!(w, &["C16"], "side {s}: close failed on a working transport: {e:?}");
                }
                _ => {}
            }
        }
        w.mixin(43 + s as u64, r.is_ok() as u64);
    }
    pub fn on_conn_dropped(&self, s: usize) {
        let mut w = self.m();
        w.say(|| format!("{s}     connection dropped"));
        w.mixin(47 + s as u64, 0);
        w.side[s].conn_dropped = true;
    }

    /// An application got `buf` (end-of-stream if empty).
    pub fn on_read(&self, s: usize, id: u32, r: &std::io::Result<usize>, buf: &[u8], cap: usize, packet: bool) {
        let mut w = self.m();
        let over = w.over(s);
        let (rac, ending) = (w.side[s].cfg.rac, over || w.side[s].due.is_some() || w.side[s].fault);
        w.mixin(51 + s as u64, ((id as u64) << 32) ^ buf.len() as u64);
        let h = if r.is_err() { 1 } else { crate::prng::hash(buf) };
        w.note(s, "read", id, h);
        let free = w.free;
        let Some(t) = w.side[s].st.get_mut(&id) else { return };
        t.pend[Op::Read as usize] = false;
        match r {
            Err(e) => {
                fnd!(w, &["C24", "C17", "C16", "C03"], "side {s} stream {id}: read failed: {:?}", e.kind());
            }
            Ok(_) if buf.is_empty() && cap > 0 => {
                if free {
                    t.eof = true;
                    return;
                }
                let (rd, rx, fin, rst, was) = (t.read, t.rx_data, t.rx_fin, t.rx_rst, t.eof);
                t.eof = true;
                w.say(|| format!("{s}     stream {id}: end-of-stream after {rd}"));
                w.hit("eofs", 1);
                if was {
                    w.hit("eofs_again", 1);
                    return;
                }
                if !ending && !fin && !rst {
                    fnd!(w, &["C02", "C03"], "side {s} stream {id}: end-of-stream although the peer has not ended the stream");
                }
                if over && rd < rx {
                    w.hit("cut_off", 1);
                }
                if rd < rx && !(over && !rac) {
                    let p: Props = if over { &["C24", "C17", "C16", "C27"] } else if rst { &["C19", "C02", "C01"] } else { &["C02", "C01"] };
                    fnd!(w, p, "side {s} stream {id}: end-of-stream after {rd} of {rx} bytes");
                }
            }
            Ok(_) => {
                let off = t.read;
                t.read += buf.len() as u64;
                let (eof, rd, rx, kin) = (t.eof, t.read, t.rx_data, t.key_in);
                w.hit("bytes_read", buf.len() as u64);
                w.hit(if packet { "packet_reads" } else { "byte_reads" }, 1);
                if over {
                    w.hit("reads_after_end", 1);
                }
                if free {
                    return;
                }
                w.say(|| format!("{s}     stream {id}: read {} (total {rd})", buf.len()));
                if eof {
                    fnd!(w, &["C02", "C24"], "side {s} stream {id}: {} bytes after end-of-stream", buf.len());
                } else if rd > rx {
                    fnd!(w, &["C01", "C09", "C07", "C02"], "side {s} stream {id}: read {rd} bytes, only {rx} were delivered");
                } else if let Some(i) = check(kin, off, buf) {
                    fnd!(w, &["C01"], "side {s} stream {id}: byte {} differs from what was written", off + i as u64);
                }
                if over && !rac {
                    fnd!(w, &["C24", "C27"], "side {s} stream {id}: read data after the end with read_after_close disabled");
                }
            }
        }
    }
    pub fn on_write(&self, s: usize, id: u32, asked: usize, r: &std::io::Result<usize>) {
        let mut w = self.m();
        let over = w.over(s);
        let ending = over || w.side[s].due.is_some() || w.side[s].fault;
        let split = w.side[s].cfg.split as u64;
        w.mixin(61 + s as u64, ((id as u64) << 32) ^ *r.as_ref().unwrap_or(&(1 << 30)) as u64);
        w.note(s, "write", id, *r.as_ref().unwrap_or(&(1 << 30)) as u64);
        let free = w.free;
        let Some(t) = w.side[s].st.get_mut(&id) else { return };
        t.pend[Op::Write as usize] = false;
        match r {
            Ok(n) => {
                let n = *n;
                t.accepted += n as u64;
                t.acc_writes += 1;
                t.acc_empty += (asked == 0) as u64;
                let (acc, cr, cc, rst, tx) = (t.accepted, CREDIT + t.rx_credit, t.close_ok, t.rx_rst, t.tx_data);
                w.hit("bytes_written", n as u64);
                w.say(|| format!("{s}     stream {id}: wrote {n} of {asked} (total {acc})"));
                if free {
                    return;
                }
                if n > asked {
                    fnd!(w, &["C01", "C04"], "side {s} stream {id}: write of {asked} bytes returned {n}");
                }
                if n == 0 && asked > 0 {
                    fnd!(w, &["C04"], "side {s} stream {id}: write returned 0");
                }
                if acc > cr {
                    let p: Props = if w.side[s].violated { &["C04", "C09"] } else { &["C04"] };
                    fnd!(w, p, "side {s} stream {id}: accepted {acc} bytes with a total credit of {cr}");
                }
                if acc == cr {
                    w.hit("credit_exhausted", 1);
                }
                if cc {
                    fnd!(w, &["C12", "C02"], "side {s} stream {id}: write accepted after close");
                }
                if rst && n > 0 {
                    fnd!(w, &["C19"], "side {s} stream {id}: write accepted after the peer's reset");
                }
                if over {
                    fnd!(w, &["C17", "C16"], "side {s} stream {id}: write accepted after the connection ended");
                }
                let split = split.max(1);
                if acc - tx.min(acc) >= split.saturating_mul(32) {
                    fnd!(w, &["C22"], "side {s} stream {id}: {} bytes accepted beyond those on the wire (split size {split})", acc - tx);
                }
            }
            Err(e) => {
                let ok = ending || t.close_called || t.rx_rst;
                let fin = t.rx_fin;
                w.hit("write_errors", 1);
                w.say(|| format!("{s}     stream {id}: write failed: {e}"));
                if !ok && !free {
                    let p: Props = if fin { &["C02", "C04"] } else { &["C04", "C03"] };
                    fnd!(w, p, "side {s} stream {id}: write failed on an open stream: {:?}", e.kind());
                }
            }
        }
    }
    pub fn on_flush(&self, s: usize, id: u32, r: &std::io::Result<()>) {
        self.m().ev += 1;
        let mut w = self.m();
        let ending = w.over(s) || w.side[s].due.is_some() || w.side[s].fault;
        let free = w.free;
        let Some(t) = w.side[s].st.get_mut(&id) else { return };
        t.pend[Op::Flush as usize] = false;
        let rst = t.rx_rst;
        if let Err(e) = r {
            if !ending && !free && !rst {
                fnd!(w, &["C03"], "side {s} stream {id}: flush failed on an open stream: {:?}", e.kind());
            }
        }
        w.hit("flushes", 1);
    }
    pub fn on_close_call(&self, s: usize, id: u32) {
        self.m().ev += 1;
        let mut w = self.m();
        if let Some(t) = w.side[s].st.get_mut(&id) {
            t.close_called = true;
        }
    }
    pub fn on_close(&self, s: usize, id: u32, r: &std::io::Result<()>) {
        let mut w = self.m();
        let ending = w.over(s) || w.side[s].due.is_some() || w.side[s].fault;
        w.mixin(71 + s as u64, id as u64);
        let free = w.free;
        w.say(|| format!("{s}     stream {id}: close {}", if r.is_ok() { "ok" } else { "failed" }));
        w.hit("stream_closes", 1);
        let Some(t) = w.side[s].st.get_mut(&id) else { return };
        t.pend[Op::Close as usize] = false;
        match r {
            Ok(()) => t.close_ok = !ending,
            Err(e) => {
                if !ending && !free {
                    fnd!(w, &["C02", "C03"], "side {s} stream {id}: close failed on an open stream: {:?}", e.kind());
                }
            }
        }
    }
    pub fn on_drop(&self, s: usize, id: u32) {
        let mut w = self.m();
        w.mixin(81 + s as u64, id as u64);
        w.say(|| format!("{s}     stream {id}: dropped"));
        w.hit("drops", 1);
        let Some(t) = w.side[s].st.get_mut(&id) else { return };
        t.dropped = true;
        t.drop_fin = t.rx_fin;
        t.drop_rst = t.rx_rst;
        t.drop_closed = t.close_ok;
        t.table = Table::Dropping;
        t.pend = [false; 4];
    }
    pub fn pend(&self, s: usize, id: u32, op: Op, on: bool) {
        let mut w = self.m();
        if on {
            w.hit(["read_pending", "write_pending", "flush_pending", "close_pending"][op as usize], 1);
        }
        if let Some(t) = w.side[s].st.get_mut(&id) {
            t.pend[op as usize] = on;
        }
    }
    /// The connection of side `s` has been driven to quiescence with nothing blocking its writes.
    pub fn driven(&self, s: usize) {
        let mut w = self.m();
        for t in w.side[s].st.values_mut() {
            if t.table == Table::Dropping {
                t.table = Table::Gone
            }
        }
    }

    /// Forgets streams that are gone.
    pub fn prune(&self) {
        let mut w = self.m();
        for s in 0..2 {
            if w.free {
                // Nothing is modelled but that they exist.
                let d = &mut w.side[s];
                d.pongs.clear();
                d.exp_goaway.clear();
                d.tx_goaway.clear();
                d.st.retain(|_, t| !t.dropped);
            } else {
                w.side[s].st.retain(|_, t| t.table != Table::Gone);
            }
        }
        w.handles.retain(|h| h.2.strong_count() > 0);
    }
    /// Judges a quiescent point. `flow[s]`: bytes written by side `s` move freely;
    /// `driven[s]`: the connection of side `s` is being driven.
    pub fn quiesce(&self, net: &Net, driven: [bool; 2], flow: [bool; 2]) {
        for s in 0..2 {
            if self.cfg(s).real && driven[s] {
                self.quiesce_side(net, s, driven, flow)
            }
        }
    }

    fn quiesce_side(&self, net: &Net, s: usize, driven: [bool; 2], flow: [bool; 2]) {
        let (unfl, readable, transit) = (net.unflushed(s), net.readable(1 - s), net.in_transit(1 - s));
        if flow[s] && self.b().alive(s) {
            self.driven(s);
        }
        let mut w = self.m();
        w.hit("quiescent", 1);
        let (over, alive) = (w.over(s), w.alive(s));
        if w.free {
            let d = &w.side[s];
            if !over && d.due.is_some() {
                let m = format!("side {s} must have ended ({:?}) but has not", d.due);
                w.find(&["C17", "C08"], m);
            } else if !over && readable > 0 && flow[s] && d.rx_eof == false {
                let m = format!("side {s} does not read {readable} available bytes");
                w.find(&["C08", "C03"], m);
            }
            return;
        }
        let d = &w.side[s];
        let mut bad: Vec<(Props, String)> = Vec::new();
        if !over && d.due.is_some() && !(d.violated) {
            bad.push((&["C17", "C08"], format!("side {s} must have ended ({:?}) but has not", d.due)));
        }
        if !over && d.fault {
            bad.push((&["C18", "C17"], format!("side {s} has not reported the failure of its transport")));
        }
        if d.pend_close && flow[s] && (driven[1 - s] || !w.side[1 - s].cfg.real) {
            bad.push((&["C16", "C03"], format!("side {s}: close does not complete")));
        }
        if d.pend_open {
            let n = w.backlog(s);
            if d.closing && d.pend_close {
            } else if over {
                bad.push((&["C15", "C16", "C17", "C03"], format!("side {s}: open request still pending after the connection ended")));
            } else if alive && n < 256 {
                bad.push((&["C15", "C03"], format!("side {s}: open request pending with {n} streams awaiting acknowledgement")));
            }
        }
        if alive && flow[s] {
            if unfl > 0 {
                bad.push((&["C03"], format!("side {s} left {unfl} bytes unflushed")));
            }
            if !d.violated {
                if let Some((v, _)) = d.pongs.iter().find(|p| p.1) {
                    bad.push((&["C20", "C03"], format!("side {s} has not answered ping {v}")));
                }
            }
            if readable > 0 {
                bad.push((ALLIVE, format!("side {s} does not read {readable} available bytes ({transit} in transit)")));
            }
            if !d.tx.at_boundary() {
                bad.push((&["C03", "C11"], format!("side {s} left a frame half written")));
            }
            for x in d.exp_goaway.iter().filter(|x| x.1) {
                bad.push((x.2, format!("side {s} did not answer a violation with go-away {:?}: {}", x.0, x.3)));
            }
        }
        for t in d.st.values() {
            let id = t.id;
            let (pr, pw, pf, pc) = (t.pend[0], t.pend[1], t.pend[2], t.pend[3]);
            if over {
                if pr || pw || pf || pc {
                    bad.push((&["C16", "C17", "C03", "C24"], format!("side {s} stream {id}: operation still pending after the connection ended (read {pr} write {pw} flush {pf} close {pc})")));
                }
                continue;
            }
            if !alive || d.violated {
                continue;
            }
            if pr {
                if t.read < t.rx_data {
                    bad.push((ALLIVE, format!("side {s} stream {id}: read pending with {} bytes available", t.rx_data - t.read)));
                } else if t.rx_fin {
                    bad.push((&["C03", "C02"], format!("side {s} stream {id}: read pending although the peer has finished")));
                } else if t.rx_rst {
                    bad.push((&["C03", "C19"], format!("side {s} stream {id}: read pending although the stream was reset")));
                } else if flow[s] && t.granted_left() < CREDIT as i64 / 2 {
                    bad.push((&["C05", "C03"], format!("side {s} stream {id}: drained and waiting, but the sender has only {} bytes of credit", t.granted_left())));
                }
            }
            if pw {
                if t.rx_rst {
                    bad.push((&["C03", "C19"], format!("side {s} stream {id}: write pending although the stream was reset")));
                } else if t.credit() > 0 && (flow[s] || t.tx_data == t.accepted) {
                    bad.push((&["C03", "C04", "C22"], format!("side {s} stream {id}: write pending with {} bytes of credit", t.credit())));
                }
            }
            if (pf || pc) && flow[s] {
                bad.push((ALLIVE, format!("side {s} stream {id}: flush or close does not complete")));
            }
            if t.rx_syn && !t.surfaced && flow[s] {
                bad.push((&["C03", "C14", "C09"], format!("side {s} has not surfaced stream {id}")));
            }
            if flow[s] && !t.rx_rst {
                if t.tx_data < t.accepted {
                    bad.push((&["C03", "C01", "C11"], format!("side {s} stream {id}: only {} of {} accepted bytes are on the wire", t.tx_data, t.accepted)));
                }
                if t.close_ok && !t.tx_fin {
                    bad.push((&["C02", "C03"], format!("side {s} stream {id}: closed but no FIN on the wire")));
                }
                if t.dropped && t.tx_any && !t.tx_fin && !t.tx_rst {
                    bad.push((&["C19"], format!("side {s} stream {id}: dropped but neither FIN nor reset on the wire")));
                }
            }
        }
        // State queries.
        let mut queries = 0;
        let hs: Vec<_> = w.handles.iter().filter(|h| h.0 == s).filter_map(|h| h.2.upgrade().map(|r| (h.1, r))).collect();
        if (alive && flow[s] && !d.violated) || over {
            for (id, h) in hs {
                let Ok(g) = h.try_borrow() else { continue };
                let Some(x) = g.as_ref() else { continue };
                let Some(t) = w.side[s].st.get(&id) else { continue };
                let closed = over || t.rx_rst || (t.close_ok && t.rx_fin);
                let wc = !closed && t.close_ok && !t.rx_fin;
                let open = !closed && !t.close_ok && !t.rx_fin;
                let pa = open && if t.local { !t.rx_ack } else { !t.tx_ack };
                if t.close_called && !t.close_ok && !over {
                    continue;
                }
                let got = (x.is_closed(), x.is_write_closed(), x.is_pending_ack());
                queries += 1;
                if got != (closed, wc, pa) {
                    bad.push((&["C25"], format!("side {s} stream {id}: (closed, write closed, pending ack) is {got:?}, expected {:?}", (closed, wc, pa))));
                }
            }
        }
        if queries > 0 {
            w.hit("queries", queries);
        }
        for (p, m) in bad {
            w.find(p, m)
        }
    }
}
