//! A small deterministic generator: every case is a function of (seed, property, case number).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Self {
        let mut h = seed ^ 0x9E37_79B9_7F4A_7C15;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
        }
        let mut r = Rng(h ^ case.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0..n (0 if n is 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize].clone()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// An integer with a random bit width, often next to a power of two.
    pub fn wide(&mut self) -> u64 {
        let w = self.below(65) as u32;
        if w == 0 {
            return 0;
        }
        let base = if self.chance(1, 2) { self.u64() >> (64 - w) } else { 1u64 << (w - 1) };
        match self.below(6) {
            0 => base.wrapping_sub(1),
            1 => base.wrapping_add(1),
            2 => base.wrapping_neg(),
            _ => base,
        }
    }
    /// A value near one of the given landmarks.
    pub fn near(&mut self, marks: &[u64]) -> u64 {
        let m = self.pick(marks);
        match self.below(6) {
            0 => m.wrapping_sub(1),
            1 => m.wrapping_add(1),
            2 => m.wrapping_sub(self.below(9)),
            3 => m.wrapping_add(self.below(9)),
            _ => m,
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
