//! The only source of randomness: splitmix64-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// FNV-1a, used for trace and shape hashes (never for decisions).
pub fn fnv(mut h: u64, data: &[u8]) -> u64 {
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Rng(s)
    }
    /// Seed of run `run` of property `prop`.
    pub fn for_run(seed: u64, prop: &str, run: u64) -> Self {
        Rng::new(mix(mix(seed) ^ fnv(FNV0, prop.as_bytes())) ^ mix(run.wrapping_mul(0xD134_2543_DE82_EF95)))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Geometric-ish small number, mean about `m`, capped.
    pub fn small(&mut self, m: usize, cap: usize) -> usize {
        let mut n = 0;
        while n < cap && self.below(m + 1) != 0 {
            n += 1;
        }
        n
    }
    pub fn u16(&mut self) -> u16 {
        self.u64() as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
}
