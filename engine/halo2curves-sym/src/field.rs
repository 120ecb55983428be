#[macro_export]
macro_rules! field {
    ($name:ident, $fid:expr, $modulus:expr, $gen:expr, $s:expr, $modstr:expr) => {
        use core::fmt;
        use core::iter::{Product, Sum};
        use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
        use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
        use rand_core::RngCore;
        use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
        use symfield::arith::{self, Modulus, L4};
        use symfield::ctx::{self, Op};

        /// canonical limbs, or a symbolic node
        #[derive(Clone, Copy)]
        pub struct $name(L4);

        const M: Modulus = $modulus;
        const FID: u8 = $fid;

        const fn cpow(a: L4, e: L4) -> L4 {
            let mut r = arith::ONE;
            let mut i = 256;
            while i > 0 {
                i -= 1;
                r = M.mul(&r, &r);
                if (e[i / 64] >> (i % 64)) & 1 == 1 {
                    r = M.mul(&r, &a);
                }
            }
            r
        }
        const fn shr(a: L4, n: u32) -> L4 {
            let mut r = a;
            let mut k = 0;
            while k < n {
                r = [
                    (r[0] >> 1) | (r[1] << 63),
                    (r[1] >> 1) | (r[2] << 63),
                    (r[2] >> 1) | (r[3] << 63),
                    r[3] >> 1,
                ];
                k += 1;
            }
            r
        }
        const PM1: L4 = arith::sub_raw(&M.p, &arith::ONE).0;
        const T: L4 = shr(PM1, $s);
        const GEN: L4 = [$gen, 0, 0, 0];
        const ROOT: L4 = cpow(GEN, T);
        const PM2: L4 = arith::sub_raw(&M.p, &[2, 0, 0, 0]).0;
        const DELTA_: L4 = cpow(GEN, shr([0, 1, 0, 0], 64 - $s));
        const fn div3(a: L4) -> L4 {
            let mut q = [0u64; 4];
            let mut rem: u128 = 0;
            let mut i = 4;
            while i > 0 {
                i -= 1;
                let cur = (rem << 64) | a[i] as u128;
                q[i] = (cur / 3) as u64;
                rem = cur % 3;
            }
            q
        }
        const ZETA_: L4 = cpow(GEN, div3(PM1));

        impl $name {
            pub const fn zero() -> Self {
                $name(arith::ZERO)
            }
            pub const fn one() -> Self {
                $name(arith::ONE)
            }
            pub const fn from_raw(v: [u64; 4]) -> Self {
                $name(M.reduce(&v))
            }
            pub const fn size() -> usize {
                32
            }
            pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                <Self as PrimeField>::from_repr(*b)
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                <Self as PrimeField>::to_repr(self)
            }
            pub fn double(&self) -> Self {
                $name(ctx::bin(FID, Op::Add, &self.0, &self.0))
            }
            pub fn square(&self) -> Self {
                $name(ctx::bin(FID, Op::Mul, &self.0, &self.0))
            }
            pub fn add(&self, r: &Self) -> Self {
                $name(ctx::bin(FID, Op::Add, &self.0, &r.0))
            }
            pub fn sub(&self, r: &Self) -> Self {
                $name(ctx::bin(FID, Op::Sub, &self.0, &r.0))
            }
            pub fn mul(&self, r: &Self) -> Self {
                $name(ctx::bin(FID, Op::Mul, &self.0, &r.0))
            }
            pub fn neg(&self) -> Self {
                $name(ctx::un(FID, Op::Neg, &self.0))
            }
            // --- access for the checking engine ---
            pub const fn from_limbs(l: L4) -> Self {
                $name(l)
            }
            pub const fn limbs(&self) -> L4 {
                self.0
            }
            pub const FIELD_ID: u8 = FID;
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if ctx::is_sym(&self.0) {
                    write!(f, "sym#{}", self.0[0])
                } else {
                    write!(f, "{}", arith::to_hex(&self.0))
                }
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:?}", self)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                if b {
                    Self::one()
                } else {
                    Self::zero()
                }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                $name([v, 0, 0, 0])
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(v: $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(v: &'a $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                ctx::eq(FID, &self.0, &o.0)
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                ctx::cmp(FID, &self.0, &o.0)
            }
        }
        impl core::hash::Hash for $name {
            // constant, so that hash maps always compare keys with `==` (which forks)
            fn hash<H: core::hash::Hasher>(&self, _: &mut H) {}
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from(ctx::eq(FID, &self.0, &o.0) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(&self)
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(self)
            }
        }
        $crate::field_binop!($name, Add, add, AddAssign, add_assign);
        $crate::field_binop!($name, Sub, sub, SubAssign, sub_assign);
        $crate::field_binop!($name, Mul, mul, MulAssign, mul_assign);
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::ZERO, |a, x| a + x.borrow())
            }
        }
        impl<T: core::borrow::Borrow<$name>> Product<T> for $name {
            fn product<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::ONE, |a, x| a * x.borrow())
            }
        }
        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random(mut rng: impl RngCore) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                $name(M.from_bytes_wide(&b))
            }
            fn square(&self) -> Self {
                $name::square(self)
            }
            fn double(&self) -> Self {
                $name::double(self)
            }
            fn invert(&self) -> CtOption<Self> {
                if ctx::eq(FID, &self.0, &arith::ZERO) {
                    return CtOption::new(Self::ZERO, Choice::from(0));
                }
                CtOption::new($name(ctx::un(FID, Op::Inv, &self.0)), Choice::from(1))
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                // not used by the code under test: concrete values only
                let n = $name(ctx::escape(FID, &num.0));
                let d = $name(ctx::escape(FID, &div.0));
                ff::helpers::sqrt_ratio_generic(&n, &d)
            }
            fn sqrt(&self) -> CtOption<Self> {
                let n = $name(ctx::escape(FID, &self.0));
                let e = shr(T, 1);
                ff::helpers::sqrt_tonelli_shanks(&n, e)
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            const NUM_BITS: u32 = M.bits;
            const CAPACITY: u32 = M.bits - 1;
            const MODULUS: &'static str = $modstr;
            const MULTIPLICATIVE_GENERATOR: Self = $name(GEN);
            const S: u32 = $s;
            const ROOT_OF_UNITY: Self = $name(ROOT);
            const ROOT_OF_UNITY_INV: Self = $name(cpow(ROOT, PM2));
            const TWO_INV: Self = $name(cpow([2, 0, 0, 0], PM2));
            const DELTA: Self = $name(DELTA_);
            fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                let v = arith::from_bytes(&r);
                let ok = !arith::geq(&v, &M.p);
                let v = if ok { ctx::unescape(FID, &v) } else { arith::ZERO };
                CtOption::new($name(v), Choice::from(ok as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                arith::to_bytes(&ctx::escape(FID, &self.0))
            }
            fn is_odd(&self) -> Choice {
                Choice::from((ctx::escape(FID, &self.0)[0] & 1) as u8)
            }
            fn from_u128(v: u128) -> Self {
                $name([v as u64, (v >> 64) as u64, 0, 0])
            }
        }
        impl PrimeFieldBits for $name {
            type ReprBits = [u64; 4];
            fn to_le_bits(&self) -> ff::FieldBits<[u64; 4]> {
                ff::FieldBits::new(ctx::escape(FID, &self.0))
            }
            fn char_le_bits() -> ff::FieldBits<[u64; 4]> {
                ff::FieldBits::new(M.p)
            }
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = $name(ZETA_);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                $name(M.from_bytes_wide(b))
            }
        }
        impl $crate::serde::SerdeObject for $name {
            fn from_raw_bytes_unchecked(b: &[u8]) -> Self {
                $name(arith::from_bytes(b.try_into().unwrap()))
            }
            fn from_raw_bytes(b: &[u8]) -> Option<Self> {
                Some(Self::from_raw_bytes_unchecked(b))
            }
            fn to_raw_bytes(&self) -> Vec<u8> {
                self.to_repr().to_vec()
            }
        }
    };
}

#[macro_export]
macro_rules! field_binop {
    ($name:ident, $tr:ident, $f:ident, $atr:ident, $af:ident) => {
        impl $tr<$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: $name) -> $name {
                $name::$f(&self, &r)
            }
        }
        impl<'b> $tr<&'b $name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: &'b $name) -> $name {
                $name::$f(&self, r)
            }
        }
        impl<'a> $tr<$name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: $name) -> $name {
                $name::$f(self, &r)
            }
        }
        impl<'a, 'b> $tr<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, r: &'b $name) -> $name {
                $name::$f(self, r)
            }
        }
        impl $atr<$name> for $name {
            #[inline]
            fn $af(&mut self, r: $name) {
                *self = $name::$f(self, &r);
            }
        }
        impl<'b> $atr<&'b $name> for $name {
            #[inline]
            fn $af(&mut self, r: &'b $name) {
                *self = $name::$f(self, r);
            }
        }
    };
}
