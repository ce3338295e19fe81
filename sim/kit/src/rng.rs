//! The only source of randomness of the simulator.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// byte strings given out before, for later ones that are almost the same
    past: Vec<Vec<u8>>,
}
pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            *v = mix64(x);
        }
        Rng { s, past: vec![] }
    }
    /// The generator of run `run` of property `prop` under `seed`.
    pub fn for_run(seed: u64, prop: &str, run: u64) -> Self {
        let mut h = mix64(seed ^ 0x5eed);
        for b in prop.bytes() {
            h = mix64(h ^ b as u64);
        }
        Rng::new(mix64(h ^ mix64(run)))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usz(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usz(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Bytes with structure: uniform, all zero, all ones, one bit set, one bit clear, small, sparse,
    /// or almost those given out before.
    pub fn special_bytes(&mut self, n: usize) -> Vec<u8> {
        let v = if self.chance(1, 6) { self.relative(n) } else { self.fresh_bytes(n) };
        self.remember(&v);
        v
    }
    /// Keep a byte string for `relative`.
    pub fn remember(&mut self, v: &[u8]) {
        if v.len() >= 4 && v.len() <= 4096 {
            if self.past.len() < 8 {
                self.past.push(v.to_vec());
            } else {
                let i = self.usz(8);
                self.past[i] = v.to_vec();
            }
        }
    }
    /// Bytes that agree with earlier ones in most places.
    pub fn relative(&mut self, n: usize) -> Vec<u8> {
        if self.past.is_empty() || n == 0 {
            return self.fresh_bytes(n);
        }
        let same: Vec<usize> = (0..self.past.len()).filter(|i| self.past[*i].len() == n).collect();
        let i = if !same.is_empty() && self.chance(7, 8) { *self.pick(&same) } else { self.usz(self.past.len()) };
        let mut v = self.past[i].clone();
        if v.len() != n {
            let fill = self.next() as u8 & (self.below(2) as u8).wrapping_neg();
            v.resize(n, fill);
        }
        let fresh = self.bytes(n);
        let cut = [8, 16, n / 2, 1 + self.usz(n)][self.usz(4)].min(n);
        match self.below(8) {
            0 | 1 => {
                let b = self.usz(n * 8);
                v[b / 8] ^= 1 << (b % 8);
            }
            2 => v[self.usz(n)] = fresh[0],
            // the same start, the same end, another start, another end
            3 => v[cut..].copy_from_slice(&fresh[cut..]),
            4 => v[..n - cut].copy_from_slice(&fresh[cut..]),
            5 => {
                let (i, j) = (self.usz(n), self.usz(n));
                v.swap(i, j);
            }
            6 => v.reverse(),
            _ => {}
        }
        v
    }
    fn fresh_bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let b = self.usz(n * 8);
                    v[b / 8] |= 1 << (b % 8);
                }
                v
            }
            3 => {
                let mut v = vec![0xff; n];
                if n > 0 {
                    let b = self.usz(n * 8);
                    v[b / 8] &= !(1 << (b % 8));
                }
                v
            }
            4 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[0] = self.next() as u8;
                }
                v
            }
            5 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[n - 1] = self.next() as u8;
                }
                v
            }
            6 => {
                let a = self.next() as u8;
                vec![a; n]
            }
            _ => self.bytes(n),
        }
    }
    /// A length biased to 0, 1, and the neighbourhood of multiples of the given block sizes.
    pub fn len(&mut self, max: usize, blocks: &[usize]) -> usize {
        let r = match self.below(10) {
            0 => 0,
            1 => self.usz(4),
            2 | 3 | 4 | 5 => {
                let b = *self.pick(blocks);
                let k = 1 + self.usz(std::cmp::max(1, std::cmp::min(6, max / b)));
                let base = (k * b) as i64 + [-1, 0, 0, 0, 1, -8, -9, -7][self.usz(8)];
                base.max(0) as usize
            }
            6 => self.usz(max + 1),
            _ => self.usz(std::cmp::min(max, 200) + 1),
        };
        std::cmp::min(r, max)
    }
    /// A long length, mostly next to a power of two (times a small number) between 512 and max.
    pub fn long(&mut self, max: usize) -> usize {
        let top = 64 - (max as u64).leading_zeros() as u64;
        let base = (1usize << self.range(9, top.max(10))) * *self.pick(&[1usize, 1, 1, 3]) / *self.pick(&[1usize, 1, 2]);
        let x = match self.below(8) {
            0 => base + self.usz(base),
            1 => base,
            2 => base - 1,
            6 | 7 => base + 1 + self.usz(2),
            3 => base + 16 * self.usz(4),
            4 => base + self.usz(80),
            _ => base - self.usz(80),
        };
        std::cmp::min(x, max)
    }
    /// u64 with extremes.
    pub fn special_u64(&mut self) -> u64 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1u64 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1),
            5 => self.below(256),
            6 => u64::MAX - self.below(256),
            _ => self.next(),
        }
    }
    pub fn special_u128(&mut self) -> u128 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u128::MAX,
            3 => 1u128 << self.below(128),
            4 => (1u128 << self.below(128)).wrapping_sub(1),
            5 => self.below(256) as u128,
            6 => u128::MAX - self.below(256) as u128,
            7 => self.next() as u128,
            _ => ((self.next() as u128) << 64) | self.next() as u128,
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usz(i + 1);
            v.swap(i, j);
        }
    }
}
