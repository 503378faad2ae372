//! Deterministic random numbers (splitmix64 seeding, xoshiro256** stream).

use std::sync::OnceLock;

/// Numbers and words that occur in the code under test (and the neighbours of
/// the numbers), from the environment. Inputs that mention them reach special
/// cases that no distribution would find. They shape inputs, never verdicts.
struct Dict {
    numbers: Vec<u64>,
    words: Vec<String>,
}

fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let var = |k: &str| std::env::var(k).unwrap_or_default();
        let mut numbers: Vec<u64> = var("VH_NUMBERS")
            .split(',')
            .filter_map(|x| x.parse::<u64>().ok())
            .flat_map(|v| [v.wrapping_sub(1), v, v.wrapping_add(1)])
            .collect();
        numbers.sort();
        numbers.dedup();
        let words = var("VH_WORDS").split('\x1f').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
        Dict { numbers, words }
    })
}

pub fn dict_size() -> (usize, usize) {
    (dict().numbers.len(), dict().words.len())
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut words = data.chunks_exact(8);
    for w in &mut words {
        h ^= u64::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
        h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    for &b in words.remainder() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut x = h ^ (data.len() as u64).wrapping_mul(0x9e37_79b9);
    splitmix(&mut x)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut acc = 0x1234_5678_9abc_def0u64;
    for &p in parts {
        acc ^= p;
        acc = splitmix(&mut acc).wrapping_add(p.rotate_left(17));
    }
    splitmix(&mut acc)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }

    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let r = ((self.u64() as u128 * span) >> 64) as i128;
        (lo as i128 + r) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }

    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        if n > 0 && self.chance(1, 8) {
            self.plant(&mut v);
        }
        v
    }

    /// A number from the dictionary in lo..=hi.
    pub fn magic(&mut self, lo: u64, hi: u64) -> Option<u64> {
        let d = &dict().numbers;
        let a = d.partition_point(|&x| x < lo);
        let b = d.partition_point(|&x| x <= hi);
        if a < b {
            Some(d[self.usize(a, b - 1)])
        } else {
            None
        }
    }

    pub fn word(&mut self) -> Option<&'static str> {
        let w = &dict().words;
        if w.is_empty() {
            None
        } else {
            Some(&w[self.below(w.len() as u64) as usize])
        }
    }

    /// Overwrites a few bytes by an encoding of a number or word of the
    /// dictionary.
    pub fn plant(&mut self, data: &mut [u8]) {
        let mut piece = match self.below(5) {
            0 => self.word().unwrap_or("").as_bytes().to_vec(),
            _ => {
                let bits = *self.pick(&[8u32, 16, 24, 32, 64]);
                let v = self.magic(0, u64::MAX >> (64 - bits)).unwrap_or(0);
                let mut b = v.to_be_bytes()[8 - bits as usize / 8..].to_vec();
                if self.chance(1, 4) {
                    b.reverse();
                }
                b
            }
        };
        piece.truncate(data.len());
        let at = self.usize(0, data.len() - piece.len());
        data[at..at + piece.len()].copy_from_slice(&piece);
    }

    /// A size in 0..=max, small values much more likely.
    pub fn log_size(&mut self, max: u64) -> u64 {
        if self.chance(1, 16) {
            if let Some(v) = self.magic(0, max) {
                return v;
            }
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(0, bits);
        if self.chance(1, 12) {
            // A power of two, or next to one.
            let v = if b == 64 { u64::MAX } else { (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1) };
            return v.min(max);
        }
        let v = if b == 0 { 0 } else { self.range(1 << (b - 1), ((1u128 << b) - 1) as u64) };
        v.min(max)
    }
}
