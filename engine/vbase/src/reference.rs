//! Independent reference: Poseidon parameter generation, permutation and sponges, written from the paper
//! (ePrint 2019/458) and spec/hash-table.md, on plain vectors.
use crate::env::VField;
use symfield::arith::*;

/// Grain LFSR in self-shrinking mode on a plain bit vector.
pub struct RefGrain {
    b: std::collections::VecDeque<bool>,
}
impl RefGrain {
    pub fn new(n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut b = std::collections::VecDeque::new();
        let mut put = |v: usize, w: usize| {
            for i in (0..w).rev() {
                b.push_back((v >> i) & 1 == 1);
            }
        };
        put(1, 2); // prime field
        put(0, 4); // x^alpha
        put(n, 12);
        put(t, 12);
        put(rf, 10);
        put(rp, 10);
        for _ in 0..30 {
            b.push_back(true);
        }
        let mut g = RefGrain { b };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> bool {
        let b = &self.b;
        let v = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0];
        self.b.pop_front();
        self.b.push_back(v);
        v
    }
    pub fn bit(&mut self) -> bool {
        loop {
            let first = self.raw();
            let second = self.raw();
            if first {
                return second;
            }
        }
    }
    /// n bits, most significant first
    pub fn int(&mut self, n: usize) -> L4 {
        let mut v = ZERO;
        for k in (0..n).rev() {
            if self.bit() {
                v[k / 64] |= 1 << (k % 64);
            }
        }
        v
    }
}

#[derive(Clone)]
pub struct Params<F> {
    pub rf: usize,
    pub rc: Vec<Vec<F>>,
    pub mds: Vec<Vec<F>>,
}

pub fn gen_params<F: VField>(t: usize, rf: usize, rp: usize, skip: usize) -> Params<F> {
    let m = &MODULI[F::FID as usize];
    let n = m.bits as usize;
    let mut g = RefGrain::new(n, t, rf, rp);
    let mut rc = vec![];
    for _ in 0..rf + rp {
        let mut row = vec![];
        for _ in 0..t {
            let v = loop {
                let v = g.int(n);
                if !geq(&v, &m.p) {
                    break v;
                }
            };
            row.push(F::from_l(v));
        }
        rc.push(row);
    }
    let mut skip = skip;
    let mds = loop {
        let v: Vec<L4> = (0..2 * t).map(|_| m.reduce(&g.int(n))).collect();
        let mut u = v.clone();
        u.sort();
        u.dedup();
        if u.len() < v.len() {
            continue;
        }
        if skip > 0 {
            skip -= 1;
            continue;
        }
        break (0..t)
            .map(|i| (0..t).map(|j| F::from_l(m.inv(&m.add(&v[i], &v[t + j])))).collect())
            .collect::<Vec<Vec<F>>>();
    };
    Params { rf, rc, mds }
}

pub fn bn254<F: VField>() -> Params<F> {
    gen_params(3, 8, 57, 0)
}
pub fn pallas<F: VField>() -> Params<F> {
    gen_params(3, 8, 56, 0)
}

pub fn pow5<F: VField>(x: F) -> F {
    let x2 = x * x;
    let x4 = x2 * x2;
    x4 * x
}

pub fn mat_vec<F: VField>(m: &[Vec<F>], v: &[F]) -> Vec<F> {
    m.iter()
        .map(|row| {
            let mut acc = row[0] * v[0];
            for k in 1..v.len() {
                acc = acc + row[k] * v[k];
            }
            acc
        })
        .collect()
}

pub fn permute<F: VField>(p: &Params<F>, s: &[F]) -> Vec<F> {
    let mut s = s.to_vec();
    let rounds = p.rc.len();
    for r in 0..rounds {
        for (w, c) in s.iter_mut().zip(&p.rc[r]) {
            *w = *w + *c;
        }
        let full = r < p.rf / 2 || r >= rounds - p.rf / 2;
        if full {
            for w in s.iter_mut() {
                *w = pow5(*w);
            }
        } else {
            s[0] = pow5(s[0]);
        }
        s = mat_vec(&p.mds, &s);
    }
    s
}

/// variable-length message hash of spec/hash-table.md at width 3, rate 2
pub fn message_hash<F: VField>(p: &Params<F>, msg: &[F], cap: F) -> F {
    let mut s = vec![cap, F::ZERO, F::ZERO];
    for ch in msg.chunks(2) {
        s[1] = s[1] + ch[0];
        if ch.len() > 1 {
            s[2] = s[2] + ch[1];
        }
        s = permute(p, &s);
    }
    s[0]
}

/// generic fixed-length sponge over an arbitrary permutation
pub fn fixed_hash<F: VField>(
    perm: &dyn Fn(&[F]) -> Vec<F>,
    t: usize,
    rate: usize,
    msg: &[F],
    cap: F,
    right_aligned: bool,
) -> F {
    let mut s = vec![F::ZERO; t];
    let off = if right_aligned { t - rate } else { 0 };
    s[if right_aligned { 0 } else { rate }] = cap;
    for ch in msg.chunks(rate) {
        for (k, x) in ch.iter().enumerate() {
            s[off + k] = s[off + k] + *x;
        }
        s = perm(&s);
    }
    s[0]
}
