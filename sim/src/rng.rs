//! The only source of randomness. One integer decides everything.

pub use httprec::mix;

pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = mix(seed ^ bytes.len() as u64);
    for chunk in bytes.chunks(8) {
        let mut v = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        h = mix(h ^ v);
    }
    h
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { s: [mix(seed), mix(mix(seed) ^ 0xA5A5_5A5A)] }
    }

    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.s[0];
        let mut s1 = self.s[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.s[1] = s1.rotate_left(37);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (((self.next() >> 32) as u128 * n as u128) >> 32) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True once in n.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }

    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }

    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        let i = self.below(from.len());
        &from[i]
    }

    pub fn byte(&mut self) -> u8 {
        (self.next() >> 40) as u8
    }
}
