//! The scenarios' view of the world. The same scenarios are built twice: against the symbolic stand-in field
//! (variables are symbols, checks become proof obligations) and, with feature "real", against the real
//! halo2curves (variables take the values of a model, checks are evaluated) to replay counterexamples.
use halo2curves::ff::PrimeField;
use symfield::arith::L4;

pub trait VField: PrimeField {
    const FID: u8;
    fn from_l(l: L4) -> Self;
    fn l(&self) -> L4;
}

#[cfg(not(feature = "real"))]
mod imp {
    use super::*;
    use symfield::ctx;
    macro_rules! v {
        ($t:ty) => {
            impl VField for $t {
                const FID: u8 = <$t>::FIELD_ID;
                fn from_l(l: L4) -> Self {
                    <$t>::from_limbs(l)
                }
                fn l(&self) -> L4 {
                    self.limbs()
                }
            }
        };
    }
    v!(halo2curves::bn256::Fr);
    v!(halo2curves::pasta::Fp);

    pub fn sym<F: VField>(name: &str) -> F {
        F::from_l(ctx::var(F::FID, name))
    }
    pub fn in_ref<R>(f: impl FnOnce() -> R) -> R {
        ctx::in_reference(f)
    }
    pub fn check<F: VField>(label: &str, got: F, want: F) {
        ctx::with(|c| {
            let g = c.id_of(F::FID, &got.l());
            let w = c.id_of(F::FID, &want.l());
            c.obligations.push(ctx::Obligation { label: label.to_string(), f: F::FID, got: g, want: w, hint: false });
        });
    }
    pub fn check_plain(label: &str, ok: bool, msg: impl FnOnce() -> String) {
        ctx::with(|c| {
            if ok {
                c.proved_plain += 1
            } else {
                c.refuted_plain.push((label.to_string(), msg()))
            }
        });
    }
    /// `body`, in SMT-LIB, must be unsatisfiable; natively `found` looks for a witness
    pub fn check_smt(label: &str, body: String, _found: impl FnOnce() -> Option<String>) {
        ctx::with(|c| c.smt.push((label.to_string(), body)));
    }
    pub fn root5<F: VField>(x: F) -> F {
        F::from_l(ctx::un(F::FID, ctx::Op::Root5, &x.l()))
    }
    pub fn hint<F: VField>(a: F, b: F) {
        ctx::with(|c| {
            let g = c.id_of(F::FID, &a.l());
            let w = c.id_of(F::FID, &b.l());
            c.obligations.push(ctx::Obligation { label: String::new(), f: F::FID, got: g, want: w, hint: true });
        });
    }
    /// value under the model that drives this run
    pub fn value<F: VField>(a: &F) -> L4 {
        ctx::value(&a.l())
    }
    /// result of `f` in a process in which nothing else has run: `f` runs in a forked child, its result
    /// comes back as an expression over the same variables
    pub fn fresh<F: VField>(f: impl FnOnce() -> Vec<F>) -> Vec<F> {
        let (n0, d0) = ctx::with(|c| (c.nodes.len(), c.decisions.len()));
        let text = symfield::forked(|| {
            let out = f();
            ctx::with(|c| {
                let ids: Vec<u32> = out.iter().map(|x| c.id_of(F::FID, &x.l())).collect();
                c.export(n0, d0, &ids)
            })
        });
        let text = text.unwrap_or_else(|| panic!("call panics in a fresh process"));
        in_ref(|| ctx::with(|c| c.import(&text))).into_iter().map(|(id, _)| F::from_l(ctx::with(|c| c.limbs_of(id)))).collect()
    }
}

#[cfg(feature = "real")]
mod imp {
    use super::*;
    use std::collections::HashMap;
    use std::sync::Mutex;
    use symfield::arith::{self, MODULI};

    pub static MODEL: Mutex<Option<HashMap<String, L4>>> = Mutex::new(None);
    pub static FAILS: Mutex<Vec<String>> = Mutex::new(vec![]);
    pub static CHECKS: Mutex<usize> = Mutex::new(0);
    macro_rules! v {
        ($t:ty, $id:expr) => {
            impl VField for $t {
                const FID: u8 = $id;
                fn from_l(l: L4) -> Self {
                    <$t as PrimeField>::from_repr(arith::to_bytes(&l)).unwrap()
                }
                fn l(&self) -> L4 {
                    arith::from_bytes(&self.to_repr())
                }
            }
        };
    }
    v!(halo2curves::bn256::Fr, 0);
    v!(halo2curves::pasta::Fp, 1);
    pub fn sym<F: VField>(name: &str) -> F {
        let g = MODEL.lock().unwrap();
        let v = g.as_ref().and_then(|m| m.get(name).copied());
        F::from_l(v.unwrap_or_else(|| {
            let mut h = 0x243F6A8885A308D3u64;
            for c in name.bytes() {
                h = (h ^ c as u64).wrapping_mul(0x100000001b3).rotate_left(17);
            }
            arith::Rng(h).field(&MODULI[F::FID as usize])
        }))
    }
    pub fn in_ref<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn check<F: VField>(label: &str, got: F, want: F) {
        *CHECKS.lock().unwrap() += 1;
        if got != want {
            FAILS.lock().unwrap().push(format!("{label}: got {} want {}", arith::to_hex(&got.l()), arith::to_hex(&want.l())));
        }
    }
    pub fn check_plain(label: &str, ok: bool, msg: impl FnOnce() -> String) {
        *CHECKS.lock().unwrap() += 1;
        if !ok {
            FAILS.lock().unwrap().push(format!("{label}: {}", msg()));
        }
    }
    pub fn check_smt(label: &str, _body: String, found: impl FnOnce() -> Option<String>) {
        *CHECKS.lock().unwrap() += 1;
        if let Some(m) = found() {
            FAILS.lock().unwrap().push(format!("{label}: {m}"));
        }
    }
    pub fn root5<F: VField>(x: F) -> F {
        F::from_l(MODULI[F::FID as usize].root5(&x.l()).unwrap())
    }
    pub fn hint<F: VField>(_: F, _: F) {}
    pub fn value<F: VField>(a: &F) -> L4 {
        a.l()
    }
    pub fn fresh<F: VField>(f: impl FnOnce() -> Vec<F>) -> Vec<F> {
        let text = symfield::forked(|| f().iter().map(|x| arith::to_hex(&x.l())).collect::<Vec<_>>().join(","));
        let text = text.unwrap_or_else(|| panic!("call panics in a fresh process"));
        text.split(',').filter(|x| !x.is_empty()).map(|x| F::from_l(arith::from_hex(x))).collect()
    }
}
pub use imp::*;
