//! Concrete arithmetic modulo the supported primes (canonical 4x64 little-endian limbs).
//! Written independently of halo2curves; the replay step compares it with the real crate on every run.

pub type L4 = [u64; 4];
pub const ZERO: L4 = [0, 0, 0, 0];
pub const ONE: L4 = [1, 0, 0, 0];

#[derive(Clone, Copy)]
pub struct Modulus {
    pub name: &'static str,
    pub p: L4,
    pub inv: u64, // -p^-1 mod 2^64
    pub r2: L4,   // 2^512 mod p
    pub bits: u32,
}

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sbb(a: u64, b: u64, br: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + (br >> 63) as u128);
    (t as u64, (t >> 64) as u64)
}
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let t = a as u128 + (b as u128) * (c as u128) + carry as u128;
    (t as u64, (t >> 64) as u64)
}
pub const fn geq(a: &L4, b: &L4) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
pub const fn sub_raw(a: &L4, b: &L4) -> (L4, bool) {
    let (r0, br) = sbb(a[0], b[0], 0);
    let (r1, br) = sbb(a[1], b[1], br);
    let (r2, br) = sbb(a[2], b[2], br);
    let (r3, br) = sbb(a[3], b[3], br);
    ([r0, r1, r2, r3], br != 0)
}
pub const fn add_raw(a: &L4, b: &L4) -> (L4, u64) {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, c) = adc(a[3], b[3], c);
    ([r0, r1, r2, r3], c)
}

const fn compute_inv(p0: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(p0);
        i += 1;
    }
    inv.wrapping_neg()
}
const fn bits_of(p: &L4) -> u32 {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if p[i] != 0 {
            return (i as u32) * 64 + 64 - p[i].leading_zeros();
        }
    }
    0
}

impl Modulus {
    pub const fn new(name: &'static str, p: L4) -> Self {
        // 2^512 mod p by doubling 1, 512 times
        let mut x = ONE;
        let mut i = 0;
        while i < 512 {
            x = Self::add_p(&p, &x, &x);
            i += 1;
        }
        Modulus { name, p, inv: compute_inv(p[0]), r2: x, bits: bits_of(&p) }
    }
    const fn add_p(p: &L4, a: &L4, b: &L4) -> L4 {
        let (s, c) = add_raw(a, b);
        if c != 0 || geq(&s, p) {
            sub_raw(&s, p).0
        } else {
            s
        }
    }
    pub const fn reduce(&self, a: &L4) -> L4 {
        let mut x = *a;
        while geq(&x, &self.p) {
            x = sub_raw(&x, &self.p).0;
        }
        x
    }
    pub const fn add(&self, a: &L4, b: &L4) -> L4 {
        Self::add_p(&self.p, a, b)
    }
    pub const fn sub(&self, a: &L4, b: &L4) -> L4 {
        let (d, br) = sub_raw(a, b);
        if br {
            add_raw(&d, &self.p).0
        } else {
            d
        }
    }
    pub const fn neg(&self, a: &L4) -> L4 {
        self.sub(&ZERO, a)
    }
    const fn mont_mul(&self, a: &L4, b: &L4) -> L4 {
        let p = &self.p;
        let mut t = [0u64; 6];
        let mut i = 0;
        while i < 4 {
            let mut c = 0;
            let mut j = 0;
            while j < 4 {
                let (v, cc) = mac(t[j], a[j], b[i], c);
                t[j] = v;
                c = cc;
                j += 1;
            }
            let (v, cc) = adc(t[4], c, 0);
            t[4] = v;
            t[5] = cc;
            let m = t[0].wrapping_mul(self.inv);
            let (_, mut c) = mac(t[0], m, p[0], 0);
            let mut j = 1;
            while j < 4 {
                let (v, cc) = mac(t[j], m, p[j], c);
                t[j - 1] = v;
                c = cc;
                j += 1;
            }
            let (v, cc) = adc(t[4], c, 0);
            t[3] = v;
            t[4] = t[5] + cc;
            i += 1;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, p) {
            sub_raw(&r, p).0
        } else {
            r
        }
    }
    pub const fn mul(&self, a: &L4, b: &L4) -> L4 {
        let ab = self.mont_mul(a, b);
        self.mont_mul(&ab, &self.r2)
    }
    pub fn pow(&self, a: &L4, e: &[u64]) -> L4 {
        let mut r = ONE;
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                r = self.mul(&r, &r);
                if (w >> i) & 1 == 1 {
                    r = self.mul(&r, a);
                }
            }
        }
        r
    }
    pub fn inv(&self, a: &L4) -> L4 {
        let e = sub_raw(&self.p, &[2, 0, 0, 0]).0;
        self.pow(a, &e)
    }
    /// fifth root, when 5 does not divide p-1: x^(5^-1 mod p-1)
    pub fn root5(&self, a: &L4) -> Option<L4> {
        // e with 5e = 1 + k(p-1), k in 1..5
        let pm1 = sub_raw(&self.p, &ONE).0;
        for k in 1u64..5 {
            // n = 1 + k*(p-1)
            let mut n = [0u64; 5];
            let mut c = 1u64;
            for i in 0..4 {
                let t = (pm1[i] as u128) * (k as u128) + c as u128;
                n[i] = t as u64;
                c = (t >> 64) as u64;
            }
            n[4] = c;
            let mut rem = 0u128;
            let mut q = [0u64; 5];
            for i in (0..5).rev() {
                let cur = (rem << 64) | n[i] as u128;
                q[i] = (cur / 5) as u64;
                rem = cur % 5;
            }
            if rem == 0 {
                return Some(self.pow(a, &q));
            }
        }
        None
    }
    /// 512-bit little-endian bytes reduced modulo p
    pub fn from_bytes_wide(&self, b: &[u8; 64]) -> L4 {
        let mut acc = ZERO;
        let c256 = [0u64, 0, 0, 0];
        let _ = c256;
        for byte in b.iter().rev() {
            for _ in 0..8 {
                acc = self.add(&acc, &acc);
            }
            acc = self.add(&acc, &self.reduce(&[*byte as u64, 0, 0, 0]));
        }
        acc
    }
}

pub const BN254_FR: Modulus = Modulus::new(
    "bn254-fr",
    [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029],
);
pub const PALLAS_FP: Modulus = Modulus::new(
    "pallas-fp",
    [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000],
);
pub const PALLAS_FQ: Modulus = Modulus::new(
    "pallas-fq",
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000],
);
pub static MODULI: [Modulus; 3] = [BN254_FR, PALLAS_FP, PALLAS_FQ];

pub fn to_dec(a: &L4) -> String {
    // simple base-10^18 conversion
    let mut x = *a;
    let mut parts = vec![];
    const D: u128 = 1_000_000_000_000_000_000;
    while x != ZERO {
        let mut rem = 0u128;
        for i in (0..4).rev() {
            let cur = (rem << 64) | x[i] as u128;
            x[i] = (cur / D) as u64;
            rem = cur % D;
        }
        parts.push(rem as u64);
    }
    if parts.is_empty() {
        return "0".into();
    }
    let mut s = parts.pop().unwrap().to_string();
    while let Some(q) = parts.pop() {
        s.push_str(&format!("{q:018}"));
    }
    s
}
pub fn to_hex(a: &L4) -> String {
    format!("0x{:016x}{:016x}{:016x}{:016x}", a[3], a[2], a[1], a[0])
}
pub fn from_hex(s: &str) -> L4 {
    let s = s.trim_start_matches("0x");
    let s = format!("{:0>64}", s);
    let mut r = ZERO;
    for i in 0..4 {
        r[3 - i] = u64::from_str_radix(&s[i * 16..i * 16 + 16], 16).unwrap();
    }
    r
}
pub fn to_bytes(a: &L4) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    b
}
pub fn from_bytes(b: &[u8; 32]) -> L4 {
    let mut r = ZERO;
    for i in 0..4 {
        r[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    r
}

/// splitmix64-based generator for models
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn field(&mut self, m: &Modulus) -> L4 {
        loop {
            let mut x = [self.next(), self.next(), self.next(), self.next()];
            x[3] &= (1u64 << (m.bits - 192)) - 1;
            if !geq(&x, &m.p) {
                return x;
            }
        }
    }
}
