//! Small deterministic generator; every random choice of a run derives from one seed.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x1234_5678_9ABC_DEF0))
    }
    pub fn fork(&mut self, tag: u64) -> Rng {
        let s = self.u64();
        Rng::new(s ^ mix(tag))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in `0..n` (0 if n is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// The byte at offset `off` of the position-coded payload identified by `key`.
pub fn coded(key: u64, off: u64) -> u8 {
    (mix(key.wrapping_add((off >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15))) >> ((off & 7) * 8)) as u8
}

pub fn fill(key: u64, off: u64, buf: &mut [u8]) {
    let mut i = 0;
    while i < buf.len() {
        let o = off + i as u64;
        let w = mix(key.wrapping_add((o >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        let mut k = o & 7;
        if k == 0 && buf.len() - i >= 8 {
            buf[i..i + 8].copy_from_slice(&w.to_le_bytes());
            i += 8;
            continue;
        }
        while k < 8 && i < buf.len() {
            buf[i] = (w >> (k * 8)) as u8;
            k += 1;
            i += 1;
        }
    }
}

/// Compares `buf` with the coded payload; returns the first mismatching index.
pub fn check(key: u64, off: u64, buf: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < buf.len() {
        let o = off + i as u64;
        let w = mix(key.wrapping_add((o >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        let mut k = o & 7;
        if k == 0 && buf.len() - i >= 8 && buf[i..i + 8] == w.to_le_bytes() {
            i += 8;
            continue;
        }
        while k < 8 && i < buf.len() {
            if buf[i] != (w >> (k * 8)) as u8 {
                return Some(i);
            }
            k += 1;
            i += 1;
        }
    }
    None
}

/// A content hash.
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    for c in it.remainder() {
        h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3).rotate_left(9);
    }
    mix(h)
}
