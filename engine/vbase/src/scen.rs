//! Scenarios: symbolic uses of the public API of poseidon-base with their specified results.
use crate::common::*;
use crate::env::*;
use crate::reference::{self as rf, Params};
use crate::wfield::{hook, wl, W};
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, PrimeField};
use poseidon_base::hash::{Hashable, HashSpec, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_base::params::CachedConstants;
use poseidon_base::primitives::*;
use std::marker::PhantomData;
use symfield::arith::*;

pub fn scenarios(prop: &str, thorough: bool) -> Vec<Scen> {
    match prop {
        "C01" => c01(),
        "C02" => c02(thorough),
        "C03" => c03(),
        "C04" => c04(),
        "C05" => c05(thorough),
        "C06" => c06(thorough),
        "C07" => c07(),
        "C08" => c08(thorough),
        "C09" => c09(),
        "C10" => c10(thorough),
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C01
fn c01() -> Vec<Scen> {
    type S = <Fr as Hashable>::SpecType;
    let mut v = vec![];
    v.push(Scen::new("hasher.permute", || {
        let s = state::<Fr>("s");
        let mut x = s;
        Fr::hasher().permute(&mut x);
        checks("Hash::permute", &x, &ref_perm(&rf::bn254(), &s));
    }));
    v.push(Scen::new("msg_hasher.permute", || {
        let s = state::<Fr>("s");
        let mut x = s;
        Fr::msg_hasher().permute(&mut x);
        checks("Hash::permute", &x, &ref_perm(&rf::bn254(), &s));
    }));
    v.push(Scen::new("plain.permute", || {
        let s = state::<Fr>("s");
        let mut x = s;
        let (rc, mds, _) = P128Pow5T3::<Fr>::constants();
        permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut x, &mds, &rc);
        checks("permute(plain)", &x, &ref_perm(&rf::bn254(), &s));
    }));
    v.push(Scen::new("folded.permute", || {
        let s = state::<Fr>("s");
        let mut x = s;
        let (rc, mds, _) = P128Pow5T3Compact::<Fr>::constants();
        permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(&mut x, &mds, &rc);
        checks("permute(folded)", &x, &ref_perm(&rf::bn254(), &s));
    }));
    v.push(Scen::new("cached.permute", || {
        let s = state::<Fr>("s");
        let mut x = s;
        permute::<Fr, S, 3, 2>(&mut x, <S as CachedSpec<Fr, 3, 2>>::cached_mds(), <S as CachedSpec<Fr, 3, 2>>::cached_round_constants());
        checks("permute(cached)", &x, &ref_perm(&rf::bn254(), &s));
        let mut x = s;
        permute::<Fr, S, 3, 2>(&mut x, <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_round_constants());
        checks("permute(CachedConstants)", &x, &ref_perm(&rf::bn254(), &s));
    }));
    v.push(Scen::new("sbox", || {
        let a = sym::<Fr>("a");
        let w = in_ref(|| rf::pow5(a));
        check("sbox(plain)", <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::sbox(a), w);
        check("sbox(folded)", <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::sbox(a), w);
        check("sbox(hash)", <HashSpec<Fr> as Spec<Fr, 3, 2>>::sbox(a), w);
        for (f, p) in [
            (<P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::full_rounds(), <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::partial_rounds()),
            (<P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::full_rounds(), <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::partial_rounds()),
        ] {
            check_plain("rounds", (f, p) == (8, 57), || format!("{f} full and {p} partial rounds"));
        }
    }));
    v
}

// ---------------------------------------------------------------------------------------------- C02
fn c02(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    let mut rounds = vec![1usize, 2, 3, 4, 5, 6, 7, 8, 56, 57, 60];
    if thorough {
        rounds.extend([9, 10, 16, 31, 32, 33, 55, 58, 63, 64, 100, 120]);
    }
    for rp in rounds {
        v.push(
            Scen::new(format!("rp{rp}"), move || {
                hook(|h| h.partial = rp);
                let (rc, mds, inv) = P128Pow5T3Compact::<W>::constants();
                let (prc, pmds, pinv) = P128Pow5T3::<W>::constants();
                check_plain("number of rounds", rc.len() == rp + 8 && prc.len() == rp + 8, || format!("{} {}", rc.len(), prc.len()));
                let m = |x: &Mds<W, 3>| x.iter().flatten().map(|w| w.0).collect::<Vec<_>>();
                checks("mds untouched", &m(&mds), &m(&pmds));
                checks("inverse untouched", &m(&inv), &m(&pinv));
                for r in 4..4 + rp {
                    check(&format!("folded rc[{r}][1]"), rc[r][1].0, Fr::ZERO);
                    check(&format!("folded rc[{r}][2]"), rc[r][2].0, Fr::ZERO);
                }
                let s: [W; 3] = [0, 1, 2].map(|i| W(sym::<Fr>(&format!("s{i}"))));
                let p = Params {
                    rf: 8,
                    rc: prc.iter().map(|r| r.iter().map(|w| w.0).collect()).collect(),
                    mds: pmds.iter().map(|r| r.iter().map(|w| w.0).collect()).collect(),
                };
                let _ = ref_perm(&p, &[s[0].0, s[1].0, s[2].0]);
                let mut a = s;
                permute::<W, P128Pow5T3<W>, 3, 2>(&mut a, &pmds, &prc);
                let mut b = s;
                permute::<W, P128Pow5T3Compact<W>, 3, 2>(&mut b, &mds, &rc);
                for k in 0..3 {
                    check(&format!("folded permutation word {k}"), b[k].0, a[k].0);
                }
            })
            .lim(1, 16),
        );
    }
    v
}

// ---------------------------------------------------------------------------------------------- C03
fn c03() -> Vec<Scen> {
    let mut v = vec![];
    fn inverse<S: Spec<Fr, 3, 2>>(mds: &Mds<Fr, 3>, inv: &Mds<Fr, 3>, rc: &[[Fr; 3]]) {
        let s = state::<Fr>("s");
        let mut x = s;
        permute::<Fr, S, 3, 2>(&mut x, mds, rc);
        // run the rounds backwards
        let back = in_ref(|| {
            let inv: Vec<Vec<Fr>> = inv.iter().map(|r| r.to_vec()).collect();
            let (rf, n) = (S::full_rounds(), S::full_rounds() + S::partial_rounds());
            let mut y = x.to_vec();
            for r in (0..n).rev() {
                y = rf::mat_vec(&inv, &y);
                let full = r < rf / 2 || r >= n - rf / 2;
                for k in 0..if full { 3 } else { 1 } {
                    y[k] = root5(y[k]);
                }
                for k in 0..3 {
                    y[k] = y[k] - rc[r][k];
                }
            }
            y
        });
        checks("inverse permutation", &back, &s);
    }
    v.push(Scen::new("plain", || {
        let (rc, mds, inv) = P128Pow5T3::<Fr>::constants();
        inverse::<P128Pow5T3<Fr>>(&mds, &inv, &rc);
    }));
    v.push(Scen::new("folded", || {
        let (rc, mds, inv) = P128Pow5T3Compact::<Fr>::constants();
        inverse::<P128Pow5T3Compact<Fr>>(&mds, &inv, &rc);
    }));
    v.push(Scen::new("cached", || {
        type S = <Fr as Hashable>::SpecType;
        inverse::<S>(
            <S as CachedSpec<Fr, 3, 2>>::cached_mds(),
            <S as CachedSpec<Fr, 3, 2>>::cached_mds_inv(),
            <S as CachedSpec<Fr, 3, 2>>::cached_round_constants(),
        );
    }));
    v.push(Scen::new("cached-constants", || {
        type S = <Fr as Hashable>::SpecType;
        inverse::<S>(
            <Fr as CachedConstants>::cached_mds(),
            <Fr as CachedConstants>::cached_mds_inv(),
            <Fr as CachedConstants>::cached_round_constants(),
        );
    }));
    fn both<F: VField>(label: &str, mds: &Mds<F, 3>, inv: &Mds<F, 3>) {
        let s = state::<F>("v");
        let a: Vec<Vec<F>> = mds.iter().map(|r| r.to_vec()).collect();
        let b: Vec<Vec<F>> = inv.iter().map(|r| r.to_vec()).collect();
        checks(&format!("{label}: inverse after matrix"), &rf::mat_vec(&b, &rf::mat_vec(&a, &s)), &s);
        checks(&format!("{label}: matrix after inverse"), &rf::mat_vec(&a, &rf::mat_vec(&b, &s)), &s);
    }
    v.push(Scen::new("matrix-bn254", || {
        both("params", &<Fr as P128Pow5T3Constants>::mds(), &<Fr as P128Pow5T3Constants>::mds_inv());
        both("cached", <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_mds_inv());
        let (_, m, i) = P128Pow5T3::<Fr>::constants();
        both("plain", &m, &i);
        let (_, m, i) = P128Pow5T3Compact::<Fr>::constants();
        both("folded", &m, &i);
    }));
    #[cfg(feature = "test")]
    v.push(Scen::new("matrix-pallas", || {
        use poseidon_base::primitives::pasta::Fp;
        both("params", &<Fp as P128Pow5T3Constants>::mds(), &<Fp as P128Pow5T3Constants>::mds_inv());
        type S = HashSpec<Fp>;
        both("cached", <S as CachedSpec<Fp, 3, 2>>::cached_mds(), <S as CachedSpec<Fp, 3, 2>>::cached_mds_inv());
        let (_, m, i) = P128Pow5T3::<Fp>::constants();
        both("plain", &m, &i);
        let (_, m, i) = P128Pow5T3Compact::<Fp>::constants();
        both("folded", &m, &i);
    }));
    v
}

// ---------------------------------------------------------------------------------------------- C04, C05
/// the permutation of the crate, as used for oracles of the sponge properties
fn own_perm(s: &[Fr]) -> Vec<Fr> {
    type S = <Fr as Hashable>::SpecType;
    let mut x = [s[0], s[1], s[2]];
    let (rc, mds, _) = S::constants();
    permute::<Fr, S, 3, 2>(&mut x, &mds, &rc);
    x.to_vec()
}
fn own_msg(msg: &[Fr], cap: Fr) -> Fr {
    in_ref(|| {
        let mut s = vec![cap, Fr::ZERO, Fr::ZERO];
        for ch in msg.chunks(2) {
            s[1] = s[1] + ch[0];
            if ch.len() > 1 {
                s[2] = s[2] + ch[1];
            }
            s = own_perm(&s);
        }
        s[0]
    })
}
fn c04() -> Vec<Scen> {
    let z = vec![("d".to_string(), ZERO)];
    let mut v = vec![];
    v.push(Scen::new("hash_with_domain", || {
        let (a, b, d) = (sym::<Fr>("a"), sym::<Fr>("b"), sym::<Fr>("d"));
        let h = Fr::hash_with_domain([a, b], d);
        check("hash_with_domain", h, in_ref(|| own_perm(&[d, a, b])[0]));
    }));
    v.push(Scen::new("hasher().hash", || {
        let (a, b, d) = (sym::<Fr>("a"), sym::<Fr>("b"), sym::<Fr>("d"));
        let h = Fr::hasher().hash([a, b], d);
        check("hasher().hash", h, in_ref(|| own_perm(&[d, a, b])[0]));
        type S = <Fr as Hashable>::SpecType;
        let h = Hash::<Fr, S, ConstantLengthIden3<2>, 3, 2>::init().hash([a, b], d);
        check("init().hash", h, in_ref(|| own_perm(&[d, a, b])[0]));
    }));
    v.push(Scen::new("hash", || {
        let (a, b) = (sym::<Fr>("a"), sym::<Fr>("b"));
        #[allow(deprecated)]
        let h = <Fr as Hashable>::hash([a, b]);
        check("hash", h, in_ref(|| own_perm(&[Fr::ZERO, a, b])[0]));
    }));
    // domains that circuits use, as constants next to symbolic inputs; equal inputs
    v.push(Scen::new("constant-domains", || {
        let (a, b) = (sym::<Fr>("a"), sym::<Fr>("b"));
        for d in [Fr::ZERO, Fr::ONE, Fr::from(2u64), -Fr::ONE, Fr::from_u128(HASHABLE_DOMAIN_SPEC), Fr::from_u128(2 * HASHABLE_DOMAIN_SPEC), Fr::from_u128(u128::MAX)] {
            check("hash_with_domain", Fr::hash_with_domain([a, b], d), in_ref(|| own_perm(&[d, a, b])[0]));
            check("hash_with_domain(a,a)", Fr::hash_with_domain([a, a], d), in_ref(|| own_perm(&[d, a, a])[0]));
            check("hash_with_domain(0,b)", Fr::hash_with_domain([Fr::ZERO, b], d), in_ref(|| own_perm(&[d, Fr::ZERO, b])[0]));
            check("hash_with_domain(a,0)", Fr::hash_with_domain([a, Fr::ZERO], d), in_ref(|| own_perm(&[d, a, Fr::ZERO])[0]));
        }
    }));
    for s in v.iter_mut() {
        s.extra.push(z.clone());
    }
    v
}
fn c05(thorough: bool) -> Vec<Scen> {
    let mut lens: Vec<usize> = (1..=24).collect();
    lens.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257]);
    if thorough {
        lens = (1..=300).collect();
        lens.extend([511, 512, 513, 1023, 1024, 1025, 2048, 2049]);
    }
    let mut v = vec![];
    for n in lens {
        let caps: Vec<Option<u128>> = if n <= 8 {
            vec![None, Some(0), Some(1), Some(u64::MAX as u128), Some(1 << 64), Some(1 << 127), Some(u128::MAX)]
        } else {
            vec![None, Some(n as u128 * 7)]
        };
        for (k, cap) in caps.into_iter().enumerate() {
            v.push(
                Scen::new(format!("len{n}-cap{k}"), move || {
                    let msg: Vec<Fr> = (0..n).map(|i| sym::<Fr>(&format!("m{i}"))).collect();
                    let h = Fr::hash_msg(&msg, cap);
                    let c = cap.unwrap_or(n as u128 * if cfg!(feature = "legacy") { 1 } else { 1 << 64 });
                    let w = own_msg(&msg, Fr::from_u128(c));
                    check("hash_msg", h, w);
                    if let Some(c) = cap {
                        check("hash_with_cap", Fr::msg_hasher().hash_with_cap(&msg, c), w);
                    }
                })
                .lim(if n <= 5 { 5 } else if n <= 8 { 3 } else { 1 }, if n <= 8 { 48 } else { 12 }),
            );
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------- C06
/// the capacities that matter when the value is cut, split or shifted; all values are decided by the bit-precise harnesses
fn c06(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    let mut caps: Vec<u128> = vec![0, 1, 2, u32::MAX as u128, 1 << 32, 1 << 63, u64::MAX as u128, 1 << 64, (1 << 64) + 1, 3 << 64, u128::MAX - (u64::MAX as u128), 1 << 127, u128::MAX];
    let mut rng = Rng(0xC06);
    for _ in 0..if thorough { 40 } else { 4 } {
        caps.push(rng.next() as u128 | (rng.next() as u128) << 64);
    }
    fn one(n: usize, cap: Option<u128>) {
        let msg: Vec<Fr> = (0..n).map(|i| sym::<Fr>(&format!("m{i}"))).collect();
        let c = cap.unwrap_or(if cfg!(feature = "legacy") { n as u128 } else { (n as u128) << 64 });
        let word = Fr::from_l([c as u64, (c >> 64) as u64, 0, 0]);
        check("hash_msg", Fr::hash_msg(&msg, cap), own_msg(&msg, word));
    }
    for n in 1..=4 {
        for c in &caps {
            let c = *c;
            v.push(Scen::new(format!("capacity {c:x} of {n}"), move || one(n, Some(c))));
        }
    }
    for n in (1..=if thorough { 300 } else { 33 }).chain([255, 256, 257, 511, 512, 1023, 1024]) {
        v.push(Scen::new(format!("default of {n}"), move || one(n, None)).lim(1, 4));
    }
    // replay of what the bit-precise harnesses find
    #[cfg(feature = "real")]
    v.push(Scen::new("replay", || {
        let g = MODEL.lock().unwrap().clone().unwrap_or_default();
        let int = |k: &str| g.get(k).map(|l| l[0] as u128 | (l[1] as u128) << 64);
        one(int("n").unwrap_or(1) as usize, int("cap"))
    }));
    v
}

// ---------------------------------------------------------------------------------------------- C07
/// a small invertible-looking round function with constants that depend on the position, so that any
/// misplaced, missing or repeated word changes the result
#[derive(Clone, Copy, Debug)]
struct Tiny<const T: usize>;
impl<const T: usize> Tiny<T> {
    fn tables() -> &'static (Vec<[Fr; T]>, Mds<Fr, T>, Mds<Fr, T>) {
        let mut rng = Rng(99 + T as u64);
        let mut f = || Fr::from(rng.next() >> 8);
        let rc = (0..4).map(|_| [(); T].map(|_| f())).collect();
        let m = [(); T].map(|_| [(); T].map(|_| f()));
        Box::leak(Box::new((rc, m, m)))
    }
}
impl<const T: usize, const RATE: usize> Spec<Fr, T, RATE> for Tiny<T> {
    fn full_rounds() -> usize {
        2
    }
    fn partial_rounds() -> usize {
        1
    }
    fn sbox(v: Fr) -> Fr {
        v * v * v
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[Fr; T]>, Mds<Fr, T>, Mds<Fr, T>) {
        Self::tables().clone()
    }
}
impl<const T: usize, const RATE: usize> CachedSpec<Fr, T, RATE> for Tiny<T> {
    fn cached_round_constants() -> &'static [[Fr; T]] {
        &Self::tables().0
    }
    fn cached_mds() -> &'static Mds<Fr, T> {
        &Self::tables().1
    }
    fn cached_mds_inv() -> &'static Mds<Fr, T> {
        &Self::tables().2
    }
}
fn sponge_case<F: VField, S: CachedSpec<F, T, R> + 'static, const T: usize, const R: usize, const L: usize>(v: &mut Vec<Scen>, tag: &str)
where
    F: halo2curves::ff::FromUniformBytes<64> + Ord,
{
    fn perm<F: VField + halo2curves::ff::FromUniformBytes<64> + Ord, S: CachedSpec<F, T, R>, const T: usize, const R: usize>(s: &[F]) -> Vec<F> {
        let mut x: [F; T] = s.to_vec().try_into().unwrap();
        permute::<F, S, T, R>(&mut x, S::cached_mds(), S::cached_round_constants());
        x.to_vec()
    }
    v.push(
        Scen::new(format!("{tag}-t{T}-r{R}-l{L}"), || {
            let msg: [F; L] = (0..L).map(|i| sym::<F>(&format!("m{i}"))).collect::<Vec<_>>().try_into().unwrap();
            let d = sym::<F>("d");
            let h = Hash::<F, S, ConstantLength<L>, T, R>::init().hash(msg);
            let w = in_ref(|| rf::fixed_hash(&perm::<F, S, T, R>, T, R, &msg, F::from_l([0, L as u64, 0, 0]), false));
            check("ConstantLength hash", h, w);
            let h = Hash::<F, S, ConstantLengthIden3<L>, T, R>::init().hash(msg, d);
            let w = in_ref(|| rf::fixed_hash(&perm::<F, S, T, R>, T, R, &msg, d, true));
            check("ConstantLengthIden3 hash", h, w);
        })
        .lim(1, 16),
    );
}
fn c07() -> Vec<Scen> {
    let mut v = vec![];
    macro_rules! lens {
        ($t:expr, $r:expr; $($l:expr),*) => {
            $( sponge_case::<Fr, Tiny<$t>, $t, $r, $l>(&mut v, "tiny"); )*
        };
    }
    macro_rules! all {
        ($(($t:expr, $r:expr)),*) => {
            $( lens!($t, $r; 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33); )*
        };
    }
    all!((2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3), (5, 4), (9, 8));
    sponge_case::<Fr, <Fr as Hashable>::SpecType, 3, 2, 1>(&mut v, "bn254");
    sponge_case::<Fr, <Fr as Hashable>::SpecType, 3, 2, 2>(&mut v, "bn254");
    sponge_case::<Fr, <Fr as Hashable>::SpecType, 3, 2, 3>(&mut v, "bn254");
    sponge_case::<Fr, <Fr as Hashable>::SpecType, 3, 2, 6>(&mut v, "bn254");
    #[cfg(feature = "test")]
    {
        use poseidon_base::primitives::pasta::Fp;
        sponge_case::<Fp, HashSpec<Fp>, 3, 2, 1>(&mut v, "pallas");
        sponge_case::<Fp, HashSpec<Fp>, 3, 2, 2>(&mut v, "pallas");
        sponge_case::<Fp, HashSpec<Fp>, 3, 2, 5>(&mut v, "pallas");
        // the whole hash against the independently generated Pallas parameters
        v.push(Scen::new("pallas-reference", || {
            let msg = [sym::<Fp>("m0"), sym::<Fp>("m1")];
            let p = rf::pallas::<Fp>();
            let w = ref_perm(&p, &[msg[0], msg[1], Fp::from_l([0, 2, 0, 0])]);
            check("pallas hash", Hash::<Fp, HashSpec<Fp>, ConstantLength<2>, 3, 2>::init().hash(msg), w[0]);
            let s = [msg[0], msg[1], Fp::from_l([0, 2, 0, 0])];
            let (rc, mds, _) = P128Pow5T3::<Fp>::constants();
            let mut x = s;
            permute::<Fp, P128Pow5T3<Fp>, 3, 2>(&mut x, &mds, &rc);
            checks("pallas plain", &x, &w);
            let (rc, mds, _) = P128Pow5T3Compact::<Fp>::constants();
            let mut x = s;
            permute::<Fp, P128Pow5T3Compact<Fp>, 3, 2>(&mut x, &mds, &rc);
            checks("pallas folded", &x, &w);
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------- C08
const NOPS: usize = 11;
/// with the less usual shapes
const ALL_OPS: usize = 19;
/// operation `op` at position `i` of a sequence, with its own symbolic arguments
fn operation(op: usize, i: usize) -> Vec<Fr> {
    type S = <Fr as Hashable>::SpecType;
    let x = |k: usize| sym::<Fr>(&format!("x{i}_{k}"));
    match op {
        0 => vec![Fr::hash_with_domain([x(0), x(1)], x(2))],
        #[allow(deprecated)]
        1 => vec![<Fr as Hashable>::hash([x(0), x(1)])],
        2 => vec![Fr::hash_msg(&[x(0)], None)],
        3 => vec![Fr::hash_msg(&[x(0), x(1)], None)],
        4 => vec![Fr::hash_msg(&[x(0), x(1), x(2)], Some(77))],
        5 => {
            let mut s = [x(0), x(1), x(2)];
            Fr::hasher().permute(&mut s);
            s.to_vec()
        }
        6 => {
            let mut s = [x(0), x(1), x(2)];
            Fr::msg_hasher().permute(&mut s);
            s.to_vec()
        }
        7 => {
            let h = Fr::hasher();
            let g = h.clone();
            let a = h.hash([x(0), x(1)], x(2));
            let b = g.hash([x(3), x(1)], Fr::ONE);
            vec![a, b]
        }
        8 => {
            let h = Fr::msg_hasher();
            let g = h.clone();
            let a = h.hash_with_cap(&[x(0), x(1), x(2)], 5);
            let b = g.hash_with_cap(&[x(3)], 1 << 70);
            vec![a, b]
        }
        9 => {
            let mut out = vec![];
            let f = |out: &mut Vec<Fr>, rc: &[[Fr; 3]], m: &Mds<Fr, 3>, n: &Mds<Fr, 3>| {
                out.extend(rc.iter().flatten());
                out.extend(m.iter().flatten());
                out.extend(n.iter().flatten());
            };
            f(&mut out, <Fr as CachedConstants>::cached_round_constants(), <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_mds_inv());
            f(&mut out, <S as CachedSpec<Fr, 3, 2>>::cached_round_constants(), <S as CachedSpec<Fr, 3, 2>>::cached_mds(), <S as CachedSpec<Fr, 3, 2>>::cached_mds_inv());
            out
        }
        10 => {
            let mut out = vec![];
            let (rc, m, n) = P128Pow5T3Compact::<Fr>::constants();
            out.extend(rc.iter().flatten());
            out.extend(m.iter().flatten());
            out.extend(n.iter().flatten());
            let (rc, m, n) = P128Pow5T3::<Fr>::constants();
            out.extend(rc.iter().flatten());
            out.extend(m.iter().flatten());
            out.extend(n.iter().flatten());
            let mut s = [x(0), x(1), x(2)];
            permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut s, &m, &rc);
            out.extend(s);
            out
        }
        11 => vec![Fr::hash_msg(&[x(0)], Some(3))],
        12 => vec![Fr::hash_msg(&[x(0), x(1)], Some(0))],
        13 => vec![Fr::hash_msg(&[0, 1, 2, 3, 4, 5, 6].map(x), None)],
        14 => vec![Fr::hash_msg(&[0, 1, 2, 3].map(x), Some(1 << 64))],
        15 => vec![Fr::hash_with_domain([x(0), x(0)], x(0))],
        16 => vec![Fr::hasher().hash([x(0), x(1)], Fr::ZERO)],
        17 => vec![Fr::msg_hasher().hash_with_cap(&[x(0)], 1 << 64)],
        18 => {
            let mut s = [x(0), x(1), x(2)];
            let (rc, m, _) = <S as Spec<Fr, 3, 2>>::constants();
            permute::<Fr, S, 3, 2>(&mut s, &m, &rc);
            s.to_vec()
        }
        _ => unreachable!(),
    }
}
/// a history whose every call is checked
fn history(name: String, q: Vec<usize>) -> Scen {
    Scen::new(name, move || {
        let want: Vec<Vec<Fr>> = q.iter().enumerate().map(|(i, op)| fresh::<Fr>(|| operation(*op, i))).collect();
        for (i, op) in q.iter().enumerate() {
            checks(&format!("call {i}"), &operation(*op, i), &want[i]);
        }
    })
    .lim(1, 8)
}
fn c08(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    let mut seqs: Vec<Vec<usize>> = vec![];
    for a in 0..NOPS {
        for b in 0..NOPS {
            seqs.push(vec![a, b]);
            for c in 0..NOPS {
                seqs.push(vec![a, b, c]);
                if thorough {
                    for d in 0..NOPS {
                        seqs.push(vec![a, b, c, d]);
                    }
                }
            }
        }
    }
    for q in seqs {
        let name = format!("seq{}", q.iter().map(|o| format!("-{o}")).collect::<String>());
        let long = q.len() > 3;
        v.push(
            Scen::new(name, move || {
                let last = q.len() - 1;
                let want = fresh::<Fr>(|| operation(q[last], last));
                // hashers handed out before everything else
                let ew = (q.len() == 2).then(|| {
                    fresh::<Fr>(|| {
                        vec![Fr::hasher().hash([sym("e0"), sym("e1")], sym("e2")), Fr::msg_hasher().hash_with_cap(&[sym("e3")], 9)]
                    })
                });
                let early = if q.len() == 2 { Some((Fr::hasher(), Fr::msg_hasher())) } else { None };
                for (i, op) in q[..last].iter().enumerate() {
                    operation(*op, i);
                }
                checks("last call", &operation(q[last], last), &want);
                if let (Some((h, m)), Some(ew)) = (early, ew) {
                    check("hasher handed out before", h.hash([sym("e0"), sym("e1")], sym("e2")), ew[0]);
                    check("message hasher handed out before", m.hash_with_cap(&[sym("e3")], 9), ew[1]);
                }
            })
            .lim(if long { 0 } else { 2 }, if long { 1 } else { 24 }),
        );
    }
    // the same call, two calls in turn, any calls
    for op in 0..ALL_OPS {
        v.push(history(format!("again-{op}"), vec![op; if op == 9 || op == 10 { 5 } else if thorough { 24 } else { 12 }]));
    }
    for a in 0..ALL_OPS {
        for b in 0..ALL_OPS {
            if a != b && (thorough || a.max(b) >= NOPS) {
                v.push(history(format!("turns-{a}-{b}"), [[a, b]; 3].concat()));
            }
        }
    }
    let mut rng = Rng(0xC08);
    for k in 0..if thorough { 200 } else { 24 } {
        v.push(history(format!("mixed-{k}"), (0..10).map(|_| rng.next() as usize % ALL_OPS).collect()));
    }
    // long histories
    for (op, n) in [(0usize, 1100usize), (2, 1100), (5, 700), (7, 300), (8, 300), (9, 1500), (10, 60), (11, 600), (13, 200)] {
        let n = if thorough { n * 2 } else { n };
        v.push(
            Scen::new(format!("repeat-{op}"), move || {
                let pick: Vec<usize> = (0..n).filter(|k| *k < 3 || k % 16 == 15 || *k + 3 >= n || [99, 199, 255, 256, 499, 511, 512, 999, 1000, 1023, 1024].contains(k)).collect();
                let want: Vec<Vec<Fr>> = pick.iter().map(|k| fresh::<Fr>(|| operation(op, *k))).collect();
                let mut it = pick.iter().zip(&want).peekable();
                for k in 0..n {
                    let got = operation(op, k);
                    if let Some((j, w)) = it.peek() {
                        if **j == k {
                            checks(&format!("call {k}"), &got, w);
                            it.next();
                        }
                    }
                }
            })
            .lim(0, 1),
        );
    }
    v
}

// ---------------------------------------------------------------------------------------------- C09, C10
#[derive(Clone, Copy, Debug)]
pub struct Gen<F, const T: usize, const RF: usize, const RP: usize, const SEL: usize>(PhantomData<F>);
impl<F: halo2curves::ff::FromUniformBytes<64> + Ord, const T: usize, const R: usize, const RF: usize, const RP: usize, const SEL: usize> Spec<F, T, R>
    for Gen<F, T, RF, RP, SEL>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v
    }
    fn secure_mds() -> usize {
        SEL
    }
}
/// complete streams at the real BN254 size: which chunks are accepted is symbolic
fn c09_case<const T: usize, const RF: usize, const RP: usize, const SEL: usize>(v: &mut Vec<Scen>) {
    v.push(
        Scen::new(format!("stream-t{T}-rf{RF}-rp{RP}-sel{SEL}"), || {
            hook(|h| {
                *h = Default::default();
                h.repr = Some(|k, b| {
                    let m = &MODULI[0];
                    let l = from_bytes(b);
                    // the first chunks are in or out of the field as the path decides
                    let ok = if k < 6 { sym::<Fr>(&format!("reject{k}")) != Fr::ZERO } else { !geq(&l, &m.p) };
                    if ok {
                        Some(Fr::from_l(m.reduce(&l)))
                    } else {
                        None
                    }
                });
            });
            let (rc, mds, _) = Gen::<W, T, RF, RP, SEL>::spec_constants();
            let (log_r, log_u) = hook(|h| (h.log_r.clone(), h.log_u.clone()));
            let m = &MODULI[0];
            let mut g = rf::RefGrain::new(254, T, RF, RP);
            let mut k = 0usize;
            for (i, row) in rc.iter().enumerate() {
                for (j, c) in row.iter().enumerate() {
                    let want = loop {
                        let x = g.int(254);
                        let bytes = to_bytes(&x);
                        check_plain(&format!("chunk {k} of the stream"), log_r.get(k) == Some(&bytes), || format!("{:?} expected {}", log_r.get(k), to_hex(&x)));
                        let ok = if k < 6 { value(&sym::<Fr>(&format!("reject{k}"))) != ZERO } else { !geq(&x, &m.p) };
                        k += 1;
                        if ok {
                            break m.reduce(&x);
                        }
                    };
                    check_plain(&format!("round constant [{i}][{j}]"), value(&c.0) == want, || format!("{}", to_hex(&value(&c.0))));
                }
            }
            check_plain("number of round constants", rc.len() == RF + RP && k == log_r.len(), || format!("{} rows, {k} chunks of {}", rc.len(), log_r.len()));
            let mut sel = SEL;
            let mut u = 0;
            loop {
                let xs: Vec<L4> = (0..2 * T).map(|_| g.int(254)).collect();
                for x in &xs {
                    let got = log_u.get(u).map(|b| b.to_vec());
                    let mut want = to_bytes(x).to_vec();
                    want.extend([0u8; 32]);
                    check_plain(&format!("matrix sample {u}"), got.as_ref() == Some(&want), || format!("{got:?}"));
                    u += 1;
                }
                let red: Vec<L4> = xs.iter().map(|x| m.reduce(x)).collect();
                let mut d = red.clone();
                d.sort();
                d.dedup();
                if d.len() < red.len() {
                    continue;
                }
                if sel > 0 {
                    sel -= 1;
                    continue;
                }
                for i in 0..T {
                    for j in 0..T {
                        let w = m.inv(&m.add(&red[i], &red[T + j]));
                        check_plain("matrix entry", value(&mds[i][j].0) == w, || format!("[{i}][{j}]"));
                    }
                }
                break;
            }
            check_plain("number of matrix samples", u == log_u.len(), || format!("{} of {}", u, log_u.len()));
        })
        .lim(3, 60),
    );
}
impl<const T: usize, const RF: usize, const RP: usize, const SEL: usize> Gen<W, T, RF, RP, SEL> {
    fn spec_constants() -> (Vec<[W; T]>, Mds<W, T>, Mds<W, T>) {
        <Self as Spec<W, T, 1>>::constants()
    }
}
fn c09() -> Vec<Scen> {
    let mut v = vec![];
    c09_case::<3, 8, 57, 0>(&mut v);
    c09_case::<3, 8, 56, 0>(&mut v);
    c09_case::<3, 8, 57, 1>(&mut v);
    c09_case::<2, 8, 56, 0>(&mut v);
    c09_case::<4, 6, 3, 2>(&mut v);
    c09_case::<5, 8, 60, 0>(&mut v);
    c09_case::<9, 8, 63, 0>(&mut v);
    c09_case::<3, 2, 600, 0>(&mut v);
    c09_case::<2, 300, 1, 0>(&mut v);
    c09_case::<12, 10, 22, 1>(&mut v);
    c09_case::<17, 8, 68, 0>(&mut v);
    #[cfg(feature = "test")]
    v.push(Scen::new("shipped-pallas", || {
        use poseidon_base::primitives::pasta::Fp;
        let p = rf::pallas::<Fp>();
        let (rc, mds, _) = <Gen<Fp, 3, 8, 56, 0> as Spec<Fp, 3, 2>>::constants();
        let (rc2, mds2, _) = P128Pow5T3::<Fp>::constants();
        for (label, rc, mds) in [("generated", rc, mds), ("shipped", rc2, mds2)] {
            checks(&format!("{label} pallas round constants"), &rc.into_iter().flatten().collect::<Vec<_>>(), &p.rc.iter().flatten().copied().collect::<Vec<_>>());
            checks(&format!("{label} pallas matrix"), &mds.into_iter().flatten().collect::<Vec<_>>(), &p.mds.iter().flatten().copied().collect::<Vec<_>>());
        }
    }));
    v.push(Scen::new("shipped-bn254", || {
        let p = rf::bn254::<Fr>();
        let (rc, mds, _) = <Gen<Fr, 3, 8, 57, 0> as Spec<Fr, 3, 2>>::constants();
        let (rc2, mds2, _) = P128Pow5T3::<Fr>::constants();
        for (label, rc, mds) in [("generated", rc, mds), ("shipped", rc2, mds2)] {
            checks(&format!("{label} bn254 round constants"), &rc.into_iter().flatten().collect::<Vec<_>>(), &p.rc.iter().flatten().copied().collect::<Vec<_>>());
            checks(&format!("{label} bn254 matrix"), &mds.into_iter().flatten().collect::<Vec<_>>(), &p.mds.iter().flatten().copied().collect::<Vec<_>>());
        }
    }));
    v
}

/// generate_mds on arbitrary (symbolic) samples, reached through the public Spec::constants
fn c10_case<const T: usize, const SEL: usize>(v: &mut Vec<Scen>) {
    let run = || {
        hook(|h| {
            *h = Default::default();
            h.uniform = Some(|k, _| sym::<Fr>(&format!("s{k}")));
        });
        // the reference's reading of the samples first: which draw is used
        let mut draw = 0usize;
        let mut sel = SEL;
        let s = |d: usize, k: usize| sym::<Fr>(&format!("s{}", d * 2 * T + k));
        loop {
            let dup = in_ref(|| {
                let mut dup = false;
                for a in 0..2 * T {
                    for b in 0..a {
                        if s(draw, a) == s(draw, b) {
                            dup = true;
                        }
                    }
                }
                dup
            });
            if dup {
                draw += 1;
                continue;
            }
            if sel > 0 {
                sel -= 1;
                draw += 1;
                continue;
            }
            break;
        }
        let x = |i: usize| s(draw, i);
        let y = |j: usize| s(draw, T + j);
        let zero_sum = in_ref(|| (0..T).any(|i| (0..T).any(|j| x(i) + y(j) == Fr::ZERO)));
        let r = std::panic::catch_unwind(|| Gen::<W, T, 0, 0, SEL>::spec_constants());
        if zero_sum {
            check_plain("no Cauchy matrix: generation refuses", r.is_err(), || "matrix returned although x_i + y_j = 0".into());
            return;
        }
        let Ok((_, mds, inv)) = r else {
            check_plain("generation succeeds", false, || "panic".into());
            return;
        };
        check_plain("draws consumed", hook(|h| h.nu) == (draw + 1) * 2 * T, || format!("{} samples, expected {}", hook(|h| h.nu), (draw + 1) * 2 * T));
        if hook(|h| h.nu) != (draw + 1) * 2 * T {
            return; // made from other samples
        }
        for i in 0..T {
            for j in 0..T {
                let w = in_ref(|| (x(i) + y(j)).invert().unwrap());
                check(&format!("matrix [{i}][{j}]"), mds[i][j].0, w);
            }
        }
        // the inverse of a Cauchy matrix, entry by entry (closed form)
        for i in 0..T {
            for j in 0..T {
                let w = in_ref(|| {
                    let mut num = Fr::ONE;
                    let mut den = x(j) + y(i);
                    for k in 0..T {
                        num = num * (x(j) + y(k)) * (x(k) + y(i));
                        if k != j {
                            den = den * (x(j) - x(k));
                        }
                        if k != i {
                            den = den * (y(i) - y(k));
                        }
                    }
                    num * den.invert().unwrap()
                });
                check(&format!("inverse [{i}][{j}]"), inv[i][j].0, w);
            }
        }
        if T <= 3 {
            for i in 0..T {
                for j in 0..T {
                    let (mut a, mut b) = (W::ZERO, W::ZERO);
                    for k in 0..T {
                        a += mds[i][k] * inv[k][j];
                        b += inv[i][k] * mds[k][j];
                    }
                    let e = if i == j { Fr::ONE } else { Fr::ZERO };
                    check(&format!("matrix * inverse [{i}][{j}]"), a.0, e);
                    check(&format!("inverse * matrix [{i}][{j}]"), b.0, e);
                }
            }
        }
    };
    let mut sc = Scen::new(format!("t{T}-sel{SEL}"), run).lim(2, if T <= 3 { 40 } else { 16 });
    // every coincidence of two samples in the first draw, and of two in each of the first two draws
    let n = 2 * T;
    let mut rng = Rng(5);
    let one = rng.field(&MODULI[0]);
    let two = rng.field(&MODULI[0]);
    for a in 0..n {
        for b in 0..a {
            sc.extra.push(vec![(format!("s{a}"), one), (format!("s{b}"), one)]);
            let (c, d) = ((a + b) % n, (a + 2 * b + 1) % n);
            if c != d {
                sc.extra.push(vec![(format!("s{a}"), one), (format!("s{b}"), one), (format!("s{}", n + c), two), (format!("s{}", n + d), two)]);
            }
        }
    }
    // x_i + y_j = 0
    let m = &MODULI[0];
    for i in 0..T {
        sc.extra.push(vec![(format!("s{}", SEL * n + i), one), (format!("s{}", SEL * n + T + (i + 1) % T), m.neg(&one))]);
    }
    v.push(sc);
}
fn c10(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    c10_case::<2, 0>(&mut v);
    c10_case::<2, 1>(&mut v);
    c10_case::<2, 2>(&mut v);
    c10_case::<3, 0>(&mut v);
    c10_case::<3, 1>(&mut v);
    c10_case::<3, 2>(&mut v);
    c10_case::<4, 0>(&mut v);
    c10_case::<4, 1>(&mut v);
    if thorough {
        c10_case::<4, 2>(&mut v);
        c10_case::<5, 0>(&mut v);
        c10_case::<5, 1>(&mut v);
    }
    let _ = wl;
    v
}
