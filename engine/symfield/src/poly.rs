//! Roots of low-degree univariate polynomials modulo p (used only to construct counterexample models).
use crate::arith::*;

type P = Vec<L4>;

fn trim(p: &mut P) {
    while p.last() == Some(&ZERO) {
        p.pop();
    }
}
fn rem(m: &Modulus, a: &P, b: &P) -> P {
    let mut r = a.clone();
    trim(&mut r);
    let inv = m.inv(b.last().unwrap());
    while r.len() >= b.len() {
        let q = m.mul(r.last().unwrap(), &inv);
        let sh = r.len() - b.len();
        for i in 0..b.len() {
            r[sh + i] = m.sub(&r[sh + i], &m.mul(&q, &b[i]));
        }
        trim(&mut r);
    }
    r
}
fn mulmod(m: &Modulus, a: &P, b: &P, f: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![ZERO; a.len() + b.len() - 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            r[i + j] = m.add(&r[i + j], &m.mul(&a[i], &b[j]));
        }
    }
    rem(m, &r, f)
}
fn powmod(m: &Modulus, a: &P, e: &L4, f: &P) -> P {
    let mut r: P = vec![ONE];
    for i in (0..256).rev() {
        r = mulmod(m, &r, &r, f);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mulmod(m, &r, a, f);
        }
    }
    r
}
fn gcd(m: &Modulus, mut a: P, mut b: P) -> P {
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = rem(m, &a, &b);
        a = b;
        b = r;
    }
    a
}

/// root of the function `at` if it is a polynomial of degree < n
pub fn root_of(m: &Modulus, at: &mut dyn FnMut(L4) -> L4, n: usize, rng: &mut Rng) -> Option<L4> {
    // Newton interpolation at 0..n
    let xs: Vec<L4> = (0..n as u64).map(|i| [i, 0, 0, 0]).collect();
    let mut c: Vec<L4> = xs.iter().map(|x| at(*x)).collect();
    for j in 1..n {
        let inv = m.inv(&[j as u64, 0, 0, 0]);
        for i in (j..n).rev() {
            c[i] = m.mul(&m.sub(&c[i], &c[i - 1]), &inv);
        }
    }
    // to monomials
    let mut p: P = vec![c[n - 1]];
    for i in (0..n - 1).rev() {
        let mut q = vec![ZERO; p.len() + 1];
        for (k, v) in p.iter().enumerate() {
            q[k + 1] = m.add(&q[k + 1], v);
            q[k] = m.sub(&q[k], &m.mul(v, &xs[i]));
        }
        q[0] = m.add(&q[0], &c[i]);
        p = q;
    }
    trim(&mut p);
    if p.len() < 2 || p.len() >= n {
        return None;
    }
    // check that it is a polynomial of this degree
    let t = rng.field(m);
    let mut acc = ZERO;
    for v in p.iter().rev() {
        acc = m.add(&m.mul(&acc, &t), v);
    }
    if acc != at(t) {
        return None;
    }
    let x: P = vec![ZERO, ONE];
    let xp = powmod(m, &x, &m.p, &p);
    let mut d = xp;
    d.resize(d.len().max(2), ZERO);
    d[1] = m.sub(&d[1], &ONE);
    let mut g = gcd(m, p.clone(), d);
    let half = {
        let q = sub_raw(&m.p, &ONE).0;
        let mut h = ZERO;
        for i in 0..4 {
            h[i] = (q[i] >> 1) | if i < 3 { q[i + 1] << 63 } else { 0 };
        }
        h
    };
    let mut tries = 0;
    while g.len() > 2 && tries < 60 {
        tries += 1;
        let s: P = vec![rng.field(m), ONE];
        let mut h = powmod(m, &s, &half, &g);
        if h.is_empty() {
            h = vec![ZERO];
        }
        h[0] = m.sub(&h[0], &ONE);
        trim(&mut h);
        let k = gcd(m, g.clone(), h);
        if k.len() > 1 && k.len() < g.len() {
            g = k;
        }
    }
    if g.len() == 2 {
        return Some(m.mul(&m.neg(&g[0]), &m.inv(&g[1])));
    }
    None
}
