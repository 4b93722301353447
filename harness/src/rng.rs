//! Deterministic random numbers (xoshiro256**), seeded from VERIF_SEED only.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo)
    }

    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }

    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }

    /// A value biased to the edges of the given width.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << (bits - 1),
            4 => (1 << (bits - 1)) - 1,
            5 => {
                // around a power of two
                let p = 1u64 << self.below(bits as u64);
                p.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            6 => {
                // sign-extended smaller value
                let w = self.pick(&[8, 12, 16, 20, 31, 32, 33]);
                let v = self.u64();
                ((v << (64 - w)) as i64 >> (64 - w)) as u64
            }
            7 => self.below(16),
            8 => self.below(16).wrapping_neg(),
            9 => self.pick(&[
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0x1_0000_0000,
                0xffff_ffff_8000_0000,
                0xffff_ffff_7fff_ffff,
                0x8000_0000_0000_0000,
                0x7fff_ffff_ffff_ffff,
                0x8000_0000_8000_0000,
                0xffff_ffff_0000_0000,
                0x0000_0001_ffff_ffff,
                0xaaaa_aaaa_aaaa_aaaa,
                0x5555_5555_5555_5555,
                0x80,
                0x7f,
                0xff,
                0x8000,
                0x7fff,
            ]),
            _ => self.u64(),
        };
        v & m
    }
}
