//! Seeded generator for everything the harness chooses.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15)))
    }
    pub fn sub(&mut self, tag: u64) -> Rng {
        Rng(mix(self.u64() ^ mix(tag)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())].clone()
    }
    /// log-uniform in 1..=max
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        (self.below(1u64 << b.min(62)) + 1).min(max)
    }
    /// A 32-bit value biased to corners: carry chains, sign boundaries, runs of ones, single bits.
    pub fn word(&mut self) -> u32 {
        match self.below(12) {
            0 => 0,
            1 => self.pick(&[1, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0xffff_fffe, 2, 0x8000_0001]),
            2 => 1 << self.below(32),
            3 => !(1 << self.below(32)),
            4 => {
                let l = self.below(32);
                let n = self.below(33 - l).max(1);
                ((((1u64 << n) - 1) << l) & 0xffff_ffff) as u32
            }
            5 => !((1u64 << self.below(33)) - 1) as u32,
            6 => self.pick(&[0x80, 0x7f, 0xff, 0x100, 0x8000, 0x7fff, 0xffff, 0x1_0000, 0xffff_ff80, 0xffff_8000, 0xffff_ff7f, 0x0101_0101, 0x8080_8080, 0x7f7f_7f7f, 0xff00_ff00, 0x00ff_00ff, 0xaaaa_aaaa, 0x5555_5555]),
            7 => self.below(64) as u32,
            8 => (self.below(64) as u32).wrapping_neg(),
            9 => 0x40000 + self.below(4096) as u32,
            _ => self.u32(),
        }
    }
    /// A second operand, often related to the first (equal, off by one, one bit apart, negated).
    pub fn word_near(&mut self, a: u32) -> u32 {
        match self.below(11) {
            0 => a,
            1 => a.wrapping_add(1),
            2 => a.wrapping_sub(1),
            3 => a ^ (1 << self.below(32)),
            4 => a.wrapping_neg(),
            5 => !a,
            6 => a ^ 0x8000_0000,
            7 | 8 => {
                // the same down to some bit
                let k = self.below(32);
                a ^ 1 << k ^ (self.u32() & ((1u64 << k) - 1) as u32)
            }
            _ => self.word(),
        }
    }
}
