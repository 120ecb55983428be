//! Stand-in for the circuit-building API of halo2_proofs: it records the constraint system and the
//! assignment a circuit produces, instead of proving. Generic in the field, so it runs symbolically
//! (stand-in halo2curves) and concretely (the real one).
pub use halo2curves;
pub mod arithmetic {
    pub use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
}
pub mod circuit;
pub mod plonk;
pub mod poly {
    /// rotation relative to the current row
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Rotation(pub i32);
    impl Rotation {
        pub fn cur() -> Rotation {
            Rotation(0)
        }
        pub fn prev() -> Rotation {
            Rotation(-1)
        }
        pub fn next() -> Rotation {
            Rotation(1)
        }
    }
}
pub mod dev {
    pub fn unwrap_value<T>(v: crate::circuit::Value<T>) -> T {
        v.into_option().expect("unknown value")
    }
}
