//! Small deterministic generator (splitmix64): every random choice of a scenario comes from here.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, permille: u32) -> bool {
        permille > 0 && self.below(1000) < permille as u64
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.idx(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// How many connections a pool or a server has: mostly few, sometimes more
    pub fn few(&mut self) -> usize {
        match self.below(20) {
            0..=15 => 1 + self.idx(3),
            16..=18 => 4 + self.idx(6),
            _ => 10 + self.idx(16),
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// A length: mostly small, often at a power-of-two or buffer boundary, sometimes large (up to max)
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(8) {
            0 => self.idx(4),
            1 | 2 => self.idx(40),
            3 | 4 => {
                let p = 1usize << self.range(0, 17);
                (p + 3).saturating_sub(self.idx(6))
            }
            5 => self.idx(1100),
            6 => self.idx(5000),
            _ => {
                let m = max.max(1);
                self.idx(m)
            }
        };
        n.min(max)
    }
    pub fn string(&mut self, bytes: usize) -> String {
        let mut s = String::new();
        let ascii = self.chance(500);
        while s.len() < bytes {
            let left = bytes - s.len();
            let c = match if ascii { 0 } else { self.below(6) } {
                0 | 1 => (b'a' + self.below(26) as u8) as char,
                2 => char::from_u32(self.range(0, 0x7f) as u32).unwrap(),
                3 => char::from_u32(self.range(0x80, 0x7ff) as u32).unwrap(),
                4 => char::from_u32(self.range(0x800, 0xd7ff) as u32).unwrap(),
                _ => char::from_u32(self.range(0x10000, 0x10ffff) as u32).unwrap(),
            };
            if c.len_utf8() <= left {
                s.push(c);
            } else {
                s.push('x');
            }
        }
        s
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0x2545_F491_4F6C_DD1D));
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (b.len() as u64).rotate_left(32)
}
