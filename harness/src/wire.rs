//! Independent codec for the yamux wire format (from the specification, not from the crate).
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const DATA: u8 = 0;
pub const WIN: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const CREDIT: u64 = 256 * 1024;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub ver: u8,
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub h: Hdr,
    pub body: Vec<u8>,
}

impl Hdr {
    pub fn new(ty: u8, flags: u16, id: u32, len: u32) -> Hdr {
        Hdr { ver: 0, ty, flags, id, len }
    }
    pub fn encode(&self) -> [u8; 12] {
        let mut b = [0; 12];
        b[0] = self.ver;
        b[1] = self.ty;
        b[2..4].copy_from_slice(&self.flags.to_be_bytes());
        b[4..8].copy_from_slice(&self.id.to_be_bytes());
        b[8..12].copy_from_slice(&self.len.to_be_bytes());
        b
    }
    pub fn decode(b: &[u8]) -> Hdr {
        Hdr {
            ver: b[0],
            ty: b[1],
            flags: u16::from_be_bytes([b[2], b[3]]),
            id: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
            len: u32::from_be_bytes([b[8], b[9], b[10], b[11]]),
        }
    }
    pub fn has(&self, f: u16) -> bool {
        self.flags & f != 0
    }
}

impl std::fmt::Display for Hdr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let ty = match self.ty {
            DATA => "Data".into(),
            WIN => "Window".into(),
            PING => "Ping".into(),
            GOAWAY => "GoAway".into(),
            t => format!("type{t}"),
        };
        let mut fl = String::new();
        for (b, n) in [(SYN, "SYN"), (ACK, "ACK"), (FIN, "FIN"), (RST, "RST")] {
            if self.has(b) {
                fl.push(' ');
                fl.push_str(n)
            }
        }
        if self.flags & !15 != 0 {
            fl.push_str(&format!(" 0x{:x}", self.flags & !15))
        }
        if self.ver != 0 {
            fl.push_str(&format!(" ver{}", self.ver))
        }
        write!(f, "{ty} id={} len={}{fl}", self.id, self.len)
    }
}

pub fn frame(ty: u8, flags: u16, id: u32, len: u32) -> Vec<u8> {
    Hdr::new(ty, flags, id, len).encode().to_vec()
}

pub fn data(flags: u16, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = frame(DATA, flags, id, body.len() as u32);
    v.extend_from_slice(body);
    v
}

#[derive(Debug)]
pub enum Ev {
    /// The header of a frame is complete.
    Head(Hdr),
    /// The whole frame is complete.
    Whole(Frame),
}

/// Incremental parser. After an unknown version or type it stops (`broken`).
#[derive(Default)]
pub struct Parser {
    head: Vec<u8>,
    cur: Option<Hdr>,
    body: Vec<u8>,
    pub broken: bool,
    pub bytes: u64,
}

impl Parser {
    pub fn feed(&mut self, mut b: &[u8], mut f: impl FnMut(Ev)) {
        self.bytes += b.len() as u64;
        while !b.is_empty() && !self.broken {
            if let Some(h) = self.cur {
                let want = h.len as usize - self.body.len();
                let k = want.min(b.len());
                self.body.extend_from_slice(&b[..k]);
                b = &b[k..];
                if k == want {
                    self.cur = None;
                    f(Ev::Whole(Frame { h, body: std::mem::take(&mut self.body) }));
                }
            } else {
                let k = (12 - self.head.len()).min(b.len());
                self.head.extend_from_slice(&b[..k]);
                b = &b[k..];
                if self.head.len() == 12 {
                    let h = Hdr::decode(&self.head);
                    self.head.clear();
                    f(Ev::Head(h));
                    if h.ver != 0 || h.ty > 3 {
                        self.broken = true;
                        return;
                    }
                    if h.ty == DATA && h.len > 0 {
                        self.cur = Some(h);
                        if h.len as usize <= 1 << 20 {
                            self.body.reserve(h.len as usize);
                        }
                    } else {
                        f(Ev::Whole(Frame { h, body: Vec::new() }));
                    }
                }
            }
        }
    }
    /// True between frames.
    pub fn at_boundary(&self) -> bool {
        self.head.is_empty() && self.cur.is_none()
    }
}
