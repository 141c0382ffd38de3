//! Deterministic PRNG (splitmix64 seeded xoshiro256**).
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *x = mix(z);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.below(den as usize) as u32) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// A word biased towards boundary patterns.
    pub fn word(&mut self) -> u32 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 1u32 << self.below(32),
            4 => (1u32 << self.below(32)).wrapping_sub(1),
            5 => !(1u32 << self.below(32)),
            6 => self.below(16) as u32,
            7 => 0u32.wrapping_sub(self.below(16) as u32),
            _ => self.u32(),
        }
    }
    /// Mostly small, sometimes around powers of two, up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let v = match self.below(8) {
            0..=3 => self.below(5),
            4 | 5 => self.below(17),
            6 => {
                let p = 1usize << self.below(17);
                (p + self.below(3)).saturating_sub(1)
            }
            _ => self.below(max + 1),
        };
        v.min(max)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Words to start from.
pub fn garbage(r: &mut Rng, n: usize) -> Vec<u32> {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![u32::MAX; n],
        2 => vec![1; n],
        3 => {
            let s = r.u32();
            (0..n as u32).map(|i| s.wrapping_add(i)).collect()
        }
        _ => (0..n).map(|_| r.word()).collect(),
    }
}
