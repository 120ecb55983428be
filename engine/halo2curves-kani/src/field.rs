//! Field types for bit-precise model checking. The elements are the integers modulo 2^128, so that every integer below 2^128
//! has its own element; the tables of parameters hold zeros. The first S-box of a permutation shows as the first power or
//! product: its argument, the first state word, is compared with the expected word and ends the run.
#[macro_export]
macro_rules! field {
    ($name:ident) => {
        use core::fmt;
        use core::iter::{Product, Sum};
        use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
        use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
        use rand_core::RngCore;
        use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $name {
            lo: u64,
            hi: u64,
        }

        impl $name {
            pub const fn datum(v: u128) -> Self {
                $name { lo: v as u64, hi: (v >> 64) as u64 }
            }
            pub const fn v(&self) -> u128 {
                self.lo as u128 | (self.hi as u128) << 64
            }
            pub const fn zero() -> Self {
                Self::datum(0)
            }
            pub const fn one() -> Self {
                Self::datum(1)
            }
            pub const fn from_raw(_: [u64; 4]) -> Self {
                Self::zero()
            }
            pub const fn size() -> usize {
                32
            }
            pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                <Self as PrimeField>::from_repr(*b)
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                <Self as PrimeField>::to_repr(self)
            }
            pub fn double(&self) -> Self {
                Self::add(self, self)
            }
            pub fn square(&self) -> Self {
                Self::mul(self, self)
            }
            pub fn add(&self, r: &Self) -> Self {
                Self::datum(self.v().wrapping_add(r.v()))
            }
            pub fn sub(&self, r: &Self) -> Self {
                Self::datum(self.v().wrapping_sub(r.v()))
            }
            pub fn mul(&self, r: &Self) -> Self {
                $crate::met(self.v());
                Self::datum(self.v().wrapping_mul(r.v()))
            }
            pub fn neg(&self) -> Self {
                Self::datum(self.v().wrapping_neg())
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("element")
            }
        }
        impl lazy_static::Table for $name {
            fn table() -> Self {
                Self::zero()
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                if b {
                    Self::one()
                } else {
                    Self::zero()
                }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::datum(v as u128)
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(v: $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(v: &'a $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self.v() == o.v()) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(&self)
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(self)
            }
        }
        $crate::field_binop!($name, Add, add, AddAssign, add_assign);
        $crate::field_binop!($name, Sub, sub, SubAssign, sub_assign);
        $crate::field_binop!($name, Mul, mul, MulAssign, mul_assign);
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::ZERO, |a, x| a + x.borrow())
            }
        }
        impl<T: core::borrow::Borrow<$name>> Product<T> for $name {
            fn product<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::ONE, |a, x| a * x.borrow())
            }
        }
        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random(_: impl RngCore) -> Self {
                unimplemented!()
            }
            fn square(&self) -> Self {
                $name::square(self)
            }
            fn double(&self) -> Self {
                $name::double(self)
            }
            fn invert(&self) -> CtOption<Self> {
                CtOption::new(*self, Choice::from(1u8))
            }
            fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
                unimplemented!()
            }
            fn pow_vartime<S: AsRef<[u64]>>(&self, _: S) -> Self {
                $crate::met(self.v());
                *self
            }
            fn pow<S: AsRef<[u64]>>(&self, _: S) -> Self {
                $crate::met(self.v());
                *self
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            const NUM_BITS: u32 = 254;
            const CAPACITY: u32 = 253;
            const MODULUS: &'static str = "0x0";
            const MULTIPLICATIVE_GENERATOR: Self = Self::one();
            const S: u32 = 1;
            const ROOT_OF_UNITY: Self = Self::one();
            const ROOT_OF_UNITY_INV: Self = Self::one();
            const TWO_INV: Self = Self::one();
            const DELTA: Self = Self::one();
            fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                let mut v = 0u128;
                let mut k = 0;
                while k < 16 {
                    v |= (r[k] as u128) << (8 * k);
                    k += 1;
                }
                CtOption::new(Self::datum(v), Choice::from(1))
            }
            fn to_repr(&self) -> [u8; 32] {
                let mut r = [0u8; 32];
                let mut k = 0;
                while k < 16 {
                    r[k] = (self.v() >> (8 * k)) as u8;
                    k += 1;
                }
                r
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.lo & 1) as u8)
            }
            fn from_u128(v: u128) -> Self {
                Self::datum(v)
            }
            fn from_str_vartime(_: &str) -> Option<Self> {
                Some(Self::zero())
            }
        }
        impl PrimeFieldBits for $name {
            type ReprBits = [u64; 4];
            fn to_le_bits(&self) -> ff::FieldBits<[u64; 4]> {
                ff::FieldBits::new([self.lo, self.hi, 0, 0])
            }
            fn char_le_bits() -> ff::FieldBits<[u64; 4]> {
                ff::FieldBits::new([0; 4])
            }
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = Self::one();
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut r = [0u8; 32];
                r.copy_from_slice(&b[..32]);
                <Self as PrimeField>::from_repr(r).unwrap()
            }
        }
    };
}

#[macro_export]
macro_rules! field_binop {
    ($name:ident, $tr:ident, $f:ident, $atr:ident, $af:ident) => {
        impl $tr<$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: $name) -> $name {
                $name::$f(&self, &r)
            }
        }
        impl<'b> $tr<&'b $name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: &'b $name) -> $name {
                $name::$f(&self, r)
            }
        }
        impl<'a> $tr<$name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: $name) -> $name {
                $name::$f(self, &r)
            }
        }
        impl<'a, 'b> $tr<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: &'b $name) -> $name {
                $name::$f(self, r)
            }
        }
        impl $atr<$name> for $name {
            #[inline]
            fn $af(&mut self, r: $name) {
                *self = $name::$f(self, &r);
            }
        }
        impl<'b> $atr<&'b $name> for $name {
            #[inline]
            fn $af(&mut self, r: &'b $name) {
                *self = $name::$f(self, r);
            }
        }
    };
}
