//! Deterministic PRNG (xoshiro256**, seeded by splitmix64).  Every choice of a run is drawn from one of these.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }
    pub fn derive(seed: u64, tag: u64, idx: u64) -> Self {
        let mut x = seed ^ 0xD6E8_FEB8_6659_FD93;
        let a = splitmix(&mut x);
        let mut y = a ^ tag.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let b = splitmix(&mut y);
        let mut z = b ^ idx.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
        Rng::new(splitmix(&mut z))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool {
        self.below(100) < pct as u64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    /// index drawn with the given weights; None when all are zero
    pub fn weighted(&mut self, w: &[u32]) -> Option<usize> {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        if tot == 0 {
            return None;
        }
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return Some(i);
            }
            r -= *x as u64;
        }
        unreachable!()
    }
}
