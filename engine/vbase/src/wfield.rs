//! A prime field wrapper whose sampling functions and Poseidon constants are supplied by the scenario, so that the
//! generic parameter code of the crate under test runs with arbitrary (symbolic) samples and constants.
use crate::env::*;
use core::iter::{Product, Sum};
use core::ops::*;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use poseidon_base::primitives::{Mds, P128Pow5T3Constants};
use rand_core::RngCore;
use std::sync::Mutex;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use symfield::arith::L4;

pub type F = halo2curves::bn256::Fr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct W(pub F);

#[derive(Default)]
pub struct Hook {
    /// called for every from_uniform_bytes, with the running index
    pub uniform: Option<fn(usize, &[u8; 64]) -> F>,
    /// called for every from_repr, with the running index; None = reject
    pub repr: Option<fn(usize, &[u8; 32]) -> Option<F>>,
    pub nu: usize,
    pub nr: usize,
    pub partial: usize,
    pub log_u: Vec<[u8; 64]>,
    pub log_r: Vec<[u8; 32]>,
}
pub static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
pub fn hook<R>(f: impl FnOnce(&mut Hook) -> R) -> R {
    let mut g = match HOOK.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    f(g.get_or_insert_with(Default::default))
}

macro_rules! op {
    ($tr:ident, $f:ident, $atr:ident, $af:ident) => {
        impl $tr<W> for W {
            type Output = W;
            fn $f(self, r: W) -> W {
                W(self.0.$f(&r.0))
            }
        }
        impl<'a> $tr<&'a W> for W {
            type Output = W;
            fn $f(self, r: &'a W) -> W {
                W(self.0.$f(&r.0))
            }
        }
        impl $atr<W> for W {
            fn $af(&mut self, r: W) {
                self.0.$af(&r.0)
            }
        }
        impl<'a> $atr<&'a W> for W {
            fn $af(&mut self, r: &'a W) {
                self.0.$af(&r.0)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign);
op!(Sub, sub, SubAssign, sub_assign);
op!(Mul, mul, MulAssign, mul_assign);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl<T: core::borrow::Borrow<W>> Sum<T> for W {
    fn sum<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(W::ZERO, |a, x| a + x.borrow())
    }
}
impl<T: core::borrow::Borrow<W>> Product<T> for W {
    fn product<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(W::ONE, |a, x| a * x.borrow())
    }
}
impl From<u64> for W {
    fn from(v: u64) -> W {
        W(F::from(v))
    }
}
impl ConstantTimeEq for W {
    fn ct_eq(&self, o: &W) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl ConditionallySelectable for W {
    fn conditional_select(a: &W, b: &W, c: Choice) -> W {
        W(F::conditional_select(&a.0, &b.0, c))
    }
}
impl Field for W {
    const ZERO: W = W(F::ZERO);
    const ONE: W = W(F::ONE);
    fn random(rng: impl RngCore) -> W {
        W(F::random(rng))
    }
    fn square(&self) -> W {
        W(Field::square(&self.0))
    }
    fn double(&self) -> W {
        W(Field::double(&self.0))
    }
    fn invert(&self) -> CtOption<W> {
        self.0.invert().map(W)
    }
    fn sqrt_ratio(n: &W, d: &W) -> (Choice, W) {
        let (c, r) = F::sqrt_ratio(&n.0, &d.0);
        (c, W(r))
    }
}
impl PrimeField for W {
    type Repr = [u8; 32];
    const NUM_BITS: u32 = F::NUM_BITS;
    const CAPACITY: u32 = F::CAPACITY;
    const MODULUS: &'static str = F::MODULUS;
    const MULTIPLICATIVE_GENERATOR: W = W(F::MULTIPLICATIVE_GENERATOR);
    const S: u32 = F::S;
    const ROOT_OF_UNITY: W = W(F::ROOT_OF_UNITY);
    const ROOT_OF_UNITY_INV: W = W(F::ROOT_OF_UNITY_INV);
    const TWO_INV: W = W(F::TWO_INV);
    const DELTA: W = W(F::DELTA);
    fn from_repr(r: [u8; 32]) -> CtOption<W> {
        let (h, k) = hook(|h| {
            h.nr += 1;
            h.log_r.push(r);
            (h.repr, h.nr - 1)
        });
        match h {
            Some(f) => match f(k, &r) {
                Some(v) => CtOption::new(W(v), Choice::from(1)),
                None => CtOption::new(W::ZERO, Choice::from(0)),
            },
            None => F::from_repr(r).map(W),
        }
    }
    fn to_repr(&self) -> [u8; 32] {
        self.0.to_repr()
    }
    fn is_odd(&self) -> Choice {
        self.0.is_odd()
    }
}
impl FromUniformBytes<64> for W {
    fn from_uniform_bytes(b: &[u8; 64]) -> W {
        let (h, k) = hook(|h| {
            h.nu += 1;
            h.log_u.push(*b);
            (h.uniform, h.nu - 1)
        });
        match h {
            Some(f) => W(f(k, b)),
            None => W(F::from_uniform_bytes(b)),
        }
    }
}
impl P128Pow5T3Constants for W {
    fn partial_rounds() -> usize {
        hook(|h| h.partial)
    }
    fn round_constants() -> Vec<[W; 3]> {
        let n = 8 + Self::partial_rounds();
        (0..n).map(|i| [0, 1, 2].map(|j| W(sym::<F>(&format!("rc{i}_{j}"))))).collect()
    }
    fn mds() -> Mds<W, 3> {
        [0, 1, 2].map(|i| [0, 1, 2].map(|j| W(sym::<F>(&format!("m{i}_{j}")))))
    }
    fn mds_inv() -> Mds<W, 3> {
        [0, 1, 2].map(|i| [0, 1, 2].map(|j| W(sym::<F>(&format!("n{i}_{j}")))))
    }
}
pub fn wl(v: L4) -> W {
    W(F::from_l(v))
}
