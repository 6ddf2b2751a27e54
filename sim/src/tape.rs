//! The tape: every choice of a run, drawn from one PRNG or replayed from a file.
//!
//! 0 is always the simplest choice; a replay that runs off the end of its tape reads 0.
//! The state lives in the run's shared memory block, so it survives simulated crashes
//! (a crashed "life" of the process is a killed child; the next life draws on).

use crate::world::{sh, TAPE_CAP};

/// splitmix64
#[derive(Clone)]
pub struct Prng(pub u64);

impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut p = Prng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    p.next()
}

/// Bulk data generator (payload bytes): one tape entry each; seed 0 yields only zeros.
pub struct Bulk(Option<Prng>);

impl Bulk {
    pub fn new(seed: u64) -> Self {
        Self(if seed == 0 { None } else { Some(Prng(seed)) })
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.0.as_mut().map_or(0, |p| p.below(n))
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        num > 0 && self.below(den) + num >= den
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

/// A choice in 0..n.
pub fn below(n: u64) -> u64 {
    let s = sh();
    let n = n.max(1);
    let v = if s.mode == 0 {
        let mut p = Prng(s.prng);
        let v = if n == 1 { 0 } else { p.below(n) };
        s.prng = p.0;
        v
    } else {
        let p = s.replay_pos as usize;
        s.replay_pos += 1;
        if p < s.replay_len as usize {
            s.replay[p].min(n - 1)
        } else {
            0
        }
    };
    let r = s.rec_len as usize;
    if r < TAPE_CAP {
        s.rec[r] = v;
        s.rec_len += 1;
    } else {
        s.rec_overflow += 1;
    }
    v
}
/// A choice in lo..=hi, lo being the simplest.
pub fn range(lo: u64, hi: u64) -> u64 {
    if hi <= lo {
        return lo;
    }
    let span = (hi - lo).wrapping_add(1);
    if span == 0 {
        let a = below(1 << 32);
        let b = below(1 << 32);
        return (a << 32) | b;
    }
    lo + below(span)
}
pub fn urange(lo: usize, hi: usize) -> usize {
    range(lo as u64, hi as u64) as usize
}
/// True with probability num/den; false is the simplest.
pub fn chance(num: u64, den: u64) -> bool {
    below(den) + num >= den && num > 0
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[below(xs.len() as u64) as usize]
}
/// Index chosen by weight.
pub fn weighted(ws: &[u64]) -> usize {
    let total: u64 = ws.iter().sum();
    let mut v = below(total);
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    ws.len() - 1
}
/// A bulk generator seeded by one choice (0: all zeros).
pub fn bulk() -> Bulk {
    Bulk::new(below(1 << 48))
}
/// An integer in lo..=hi, biased to small values, to the given edge values and to the top.
pub fn edgy(lo: u64, hi: u64, edges: &[u64]) -> u64 {
    match weighted(&[4, 3, 2, 1]) {
        0 => range(lo, hi.min(lo.saturating_add(20))),
        1 => range(lo, hi),
        2 => {
            if edges.is_empty() {
                return lo;
            }
            let e = pick(edges);
            let d = below(3);
            e.wrapping_add(d).wrapping_sub(1).clamp(lo, hi)
        }
        _ => hi - range(0, (hi - lo).min(3)),
    }
}
