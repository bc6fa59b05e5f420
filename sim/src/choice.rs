//! Recorded choices. Value 0 is always the simplest choice: a replay that runs out of recorded values
//! continues with zeros, so shrinking a recording always simplifies the run.
use crate::shared::*;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Stream {
    idx: usize,
    state: u64,
    replay: Option<Vec<u32>>,
    pos: usize,
}
impl Stream {
    pub fn new(idx: usize, seed: u64, replay: Option<Vec<u32>>) -> Self {
        Stream { idx, state: mix(seed ^ mix(idx as u64 + 77)), replay, pos: 0 }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let z = self.state;
        mix(z)
    }
    fn record(&mut self, sh: &mut Shared, v: u32) {
        let n = sh.len[self.idx] as usize;
        if n < CAP {
            sh.rec[self.idx][n] = v;
            sh.len[self.idx] = n as u32 + 1;
        } else {
            sh.overflow = 1;
        }
    }
    /// A value in 0..n.
    pub fn draw(&mut self, sh: &mut Shared, n: u32) -> u32 {
        self.draw_from(sh, n, 0)
    }
    /// A value in 1..=n when generating; 0 possible only in a replay.
    pub fn draw_nz(&mut self, sh: &mut Shared, n: u32) -> u32 {
        self.draw_from(sh, n + 1, 1)
    }
    fn draw_from(&mut self, sh: &mut Shared, n: u32, lo: u32) -> u32 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 {
                    0
                } else {
                    v.min(n - 1)
                }
            }
            None => {
                if n <= lo {
                    0
                } else {
                    lo + (self.next() % (n - lo) as u64) as u32
                }
            }
        };
        self.record(sh, v);
        v
    }
}

/// Constants the code under test was seen to compare with in the first seeded runs, sorted.
pub static mut DICT: Vec<u64> = vec![];
#[allow(static_mut_refs)]
pub fn dict() -> &'static mut Vec<u64> {
    unsafe { &mut DICT }
}

/// The workload generator: draws from the `gen` stream.
pub struct Gen;
impl Gen {
    /// Uniform in 0..n.
    pub fn u(&self, n: u32) -> u32 {
        let s = crate::sim::sim();
        s.streams[GEN].draw(s.sh, n)
    }
    /// True with probability num/den; 0 is false.
    pub fn p(&self, num: u32, den: u32) -> bool {
        self.u(den) >= den - num
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.u(v.len() as u32) as usize]
    }
    pub fn u32(&self) -> u32 {
        (self.u(1 << 16) << 16) | self.u(1 << 16)
    }
    pub fn u64(&self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 1);
        while v.len() < n {
            let x = self.u(1 << 16);
            v.push(x as u8);
            v.push((x >> 8) as u8);
        }
        v.truncate(n);
        v
    }
    /// Index by weights.
    pub fn w(&self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.u(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    /// A constant the code compares with, or one next to it, within `lo..=hi`.
    pub fn known(&self, lo: u64, hi: u64) -> Option<u64> {
        let d = dict();
        let a = d.partition_point(|v| *v < lo);
        let b = d.partition_point(|v| *v <= hi);
        if a >= b {
            return None;
        }
        let c = d[a + self.u((b - a) as u32) as usize];
        let v = match self.u(8) {
            5 => c + 1,
            6 => c - 1,
            7 => (c as u32).swap_bytes() as u64,
            _ => c,
        };
        Some(if (lo..=hi).contains(&v) { v } else { c })
    }
    /// A length: mostly one of the given, at times one next to a power of two or a constant of the code.
    pub fn len(&self, common: &[usize], max: usize) -> usize {
        match self.w(&[30, 1, 1]) {
            1 => {
                let top = 63 - (max as u64).leading_zeros();
                let p = 1usize << self.u(top + 1);
                (p + self.u(3) as usize).saturating_sub(1).min(max)
            }
            2 => self.known(0, max as u64).map_or(common[0], |v| v as usize),
            _ => *self.pick(common),
        }
    }
    /// Bytes that take few recorded choices however many they are.
    pub fn blob(&self, n: usize) -> Vec<u8> {
        let mut v;
        if n <= 40 {
            v = self.bytes(n);
        } else {
            let seed = self.u32() as u64;
            v = Vec::with_capacity(n + 8);
            let mut i = 0;
            while v.len() < n {
                v.extend(mix(seed << 20 | i).to_le_bytes());
                i += 1;
            }
            v.truncate(n);
        }
        // Runs of one byte are what special treatment looks for.
        if n > 0 && self.p(1, 6) {
            let b = *self.pick(&[0u8, 0, 0xff, b' ', b'\n', b'\r', 0x1a]);
            let (from, to) = match self.u(4) {
                0 | 1 => (0, n),
                2 => (0, self.u(n as u32) as usize),
                _ => (self.u(n as u32) as usize, n),
            };
            v[from..to].fill(b);
        }
        v
    }
}
