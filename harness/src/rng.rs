//! Deterministic PRNG (xoshiro256** seeded by splitmix64); every random choice comes from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
    /// use only exactly rounded operations (no libm), so that the inputs are the same bits in every build
    pub exact: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(z);
        }
        Rng { s, exact: false }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn sym(&mut self) -> f64 {
        self.uni(-1.0, 1.0)
    }
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.u64() % (b - a + 1) as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        if self.exact {
            // 2^k * m over about the same range
            let lo = (a * 3.321928).floor() as i64;
            let hi = (b * 3.321928).ceil() as i64;
            let k = lo + (self.u64() % ((hi - lo).max(1) as u64)) as i64;
            return f64::from_bits(((k + 1023) as u64) << 52) * self.uni(1.0, 2.0);
        }
        10f64.powf(self.uni(a, b))
    }
    pub fn normal(&mut self) -> f64 {
        if self.exact {
            return (0..12).map(|_| self.f()).sum::<f64>() - 6.0;
        }
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn normals(&mut self, n: usize) -> Vec<f64> {
        (0..n).map(|_| self.normal()).collect()
    }
    pub fn unit(&mut self, n: usize) -> Vec<f64> {
        loop {
            let v = self.normals(n);
            let s: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if s > 1e-6 {
                return v.iter().map(|x| x / s).collect();
            }
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.int(0, v.len() - 1);
        &v[k]
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.int(0, i);
            p.swap(i, j);
        }
        p
    }
}
