//! Stand-in for the halo2curves crate: the same field types with symbolic elements.
pub use ff;
pub use group;
pub use symfield;

#[macro_use]
mod field;

pub mod bn256 {
    field!(Fr, 0, symfield::arith::BN254_FR, 7, 28, "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
}
pub mod pasta {
    mod fp {
        field!(Fp, 1, symfield::arith::PALLAS_FP, 5, 32, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
    }
    mod fq {
        field!(Fq, 2, symfield::arith::PALLAS_FQ, 5, 32, "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
    }
    pub use fp::Fp;
    pub use fq::Fq;
    pub mod pallas {
        pub type Base = super::Fp;
        pub type Scalar = super::Fq;
    }
    pub mod vesta {
        pub type Base = super::Fq;
        pub type Scalar = super::Fp;
    }
}
pub mod serde {
    pub trait SerdeObject: Sized {
        fn from_raw_bytes_unchecked(bytes: &[u8]) -> Self;
        fn from_raw_bytes(bytes: &[u8]) -> Option<Self>;
        fn to_raw_bytes(&self) -> Vec<u8>;
    }
}
