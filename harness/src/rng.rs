//! Deterministic per-case PRNG (splitmix64 seeding, xoshiro256**).
use crate::dict::{dict, within};
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// the last numbers of this execution, to be repeated at times: equal or opposite operands
    last: [f64; 8],
    n: usize,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
            last: [0.; 8],
            n: 0,
        }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64)
    }
    fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    fn keep(&mut self, x: f64) -> f64 {
        self.last[self.n % 8] = x;
        self.n += 1;
        x
    }
    /// uniform in [lo, hi], at times at or around a number of the sources under test, at times
    /// equal or opposite to one of the previous numbers
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        let x = match self.known(lo, hi) {
            Some(x) => x,
            None => self.uniform(lo, hi),
        };
        self.keep(x)
    }
    /// log-uniform in [lo, hi], lo > 0
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        let x = match self.known(lo, hi) {
            Some(x) => x,
            None => (self.uniform(lo.ln(), hi.ln())).exp(),
        };
        self.keep(x)
    }
    fn known(&mut self, lo: f64, hi: f64) -> Option<f64> {
        let k = self.below(64);
        if (9..=10).contains(&k) && self.n > 0 {
            let i = self.usize(self.n.min(8));
            let y = self.last[i] * self.sign();
            return (y >= lo && y < hi).then_some(y);
        }
        let d = dict()?;
        let t = match k {
            0..=1 => &d.all,
            2..=8 if !d.new.is_empty() => &d.new,
            _ => return None,
        };
        let t = within(t, lo, hi);
        if t.is_empty() {
            return None;
        }
        let x = *self.pick(t);
        let y = match self.below(4) {
            0 => x,
            1 => {
                let n = self.below(3);
                (0..n).fold(x, |y, _| if k & 1 == 0 { y.next_up() } else { y.next_down() })
            }
            2 => x + x * self.uniform(-36., -2.).exp() * self.sign(),
            _ => x * self.uniform(0.8, 1.25),
        };
        (y >= lo && y < hi).then_some(y)
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.
        } else {
            -1.
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
}
