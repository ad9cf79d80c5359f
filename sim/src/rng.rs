//! The one source of choice: a splitmix64 generator.  Every generated operation, world, schedule
//! and fault is drawn from one of these, seeded from VERIF_SEED, the property and the case number.

#[derive(Clone)]
pub struct Rng {
    s: u64,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng { s: a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15) };
    r.next();
    r.next()
}

pub fn hash_bytes(mut h: u64, bs: &[u8]) -> u64 {
    for b in bs {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01B3);
    }
    h ^ (h >> 29)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng { s: seed };
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (u128::from(self.next()) << 64) | u128::from(self.next())
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.idx(i + 1);
            xs.swap(i, j);
        }
    }
    /// A size between 1 and max, small ones more likely.
    pub fn skewed(&mut self, max: u64) -> u64 {
        let m = self.range(1, max);
        self.range(1, m)
    }
}
