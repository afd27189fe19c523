//! Small deterministic PRNG (xoshiro256**), so that the harness needs no external crate for randomness.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        let mut i = 0;
        while i < n {
            let x = self.u64().to_le_bytes();
            let k = (n - i).min(8);
            v[i..i + k].copy_from_slice(&x[..k]);
            i += k;
        }
        v
    }
    /// A number with interesting magnitude: small values, powers of two and their neighbours, anything.
    pub fn edge(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(300),
            2 | 3 => {
                let b = self.below(64);
                let p = 1u64 << b;
                match self.below(4) {
                    0 => p,
                    1 => p.wrapping_sub(1),
                    2 => p.wrapping_add(1),
                    _ => p | self.below(p.max(1)),
                }
            }
            4 => u64::MAX - self.below(3),
            _ => self.u64(),
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x));
    }
    h
}
pub struct H(pub u64);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0 = mix(self.0 ^ hash_bytes(bytes));
    }
}
pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = H(7);
    t.hash(&mut h);
    h.finish()
}
