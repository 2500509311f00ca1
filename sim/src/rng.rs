//! The only source of randomness: a seeded splitmix64 generator and a stateless hash.

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[inline]
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

#[inline]
pub fn hash3(a: u64, b: u64, c: u64) -> u64 {
    hash2(hash2(a, b), c)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 40) as u8
    }
    #[inline]
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 40) as u16
    }
    /// Uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    /// A byte biased to corner values.
    pub fn corner8(&mut self) -> u8 {
        if self.chance(1, 2) {
            *self.pick(&[0, 1, 2, 0x0F, 0x10, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x99, 0x9A, 0x55, 0xAA])
        } else {
            self.u8()
        }
    }
    /// A word biased to corner values.
    pub fn corner16(&mut self) -> u16 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 2, 0xFF, 0x100, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0xFFFD]),
            1 => u16::from_be_bytes([self.corner8(), self.corner8()]),
            _ => self.u16(),
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |h, x| hash2(h, *x as u64))
}
