//! Small deterministic generator (splitmix64), so that every case is a function of (seed, stream, index).
#[derive(Clone)]
pub struct Rng(pub u64);

#[inline]
/// (overflow wraps: this crate is built without overflow checks)
pub fn mix(mut z: u64) -> u64 {
    z += 0x9E37_79B9_7F4A_7C15;
    z = (z ^ (z >> 30)) * 0xBF58_476D_1CE4_E5B9;
    z = (z ^ (z >> 27)) * 0x94D0_49BB_1331_11EB;
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn derive(seed: u64, stream: u64, idx: u64) -> Rng {
        Rng(mix(mix(mix(seed) ^ stream) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93)))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let z = mix(self.0);
        self.0 += 0x9E37_79B9_7F4A_7C15;
        z
    }
    /// 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform integer in lo..=hi (lo >= 1)
    pub fn logint(&mut self, lo: usize, hi: usize) -> usize {
        let l = (lo as f64).ln();
        let h = (hi as f64 + 1.0).ln();
        let x = l + (h - l) * self.f01();
        (x.exp() as usize).clamp(lo, hi)
    }
    #[inline]
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
}
