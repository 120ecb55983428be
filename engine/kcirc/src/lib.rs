//! C17, C19: the table builders for all counts, steps and contents; the declared rows for all table lengths.
#![cfg(kani)]
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::PoseidonHashTable;
use kani::assume;
macro_rules! claim {
    ($($x:tt)*) => { assert!($($x)*) };
}
fn any_u128() -> u128 {
    kani::any()
}
fn any_u64() -> u64 {
    kani::any()
}
fn any_option() -> Option<u128> {
    if kani::any() {
        Some(kani::any())
    } else {
        None
    }
}
fn element(v: u128) -> Fr {
    Fr::datum(v)
}
/// the call is to panic, which ends the run
fn rejected(mut f: impl FnMut()) {
    kani::cover!(true, "call reached");
    f();
}
include!("ops.rs");
macro_rules! harness {
    ($name:ident: $($op:ident $k:literal),*) => {
        #[kani::proof]
        fn $name() {
            let mut t = table();
            let mut want = Vec::with_capacity(8);
            $(call!(t want $op $k);)*
            aligned(&t, &want);
            kani::cover!(true, "end reached");
        }
    };
}
mod proofs {
    use super::*;
    sequences!(harness);
    #[kani::proof]
    fn long_2() {
        too_long::<2>()
    }
    #[kani::proof]
    fn long_3() {
        too_long::<3>()
    }
    #[kani::proof]
    fn long_4() {
        too_long::<4>()
    }
    /// any table length (the entries are never read)
    #[kani::proof]
    fn rows() {
        let n: usize = kani::any();
        kani::assume(n > 0 && n <= 1 << 40);
        let mut t = T::default();
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n * std::mem::size_of::<[Fr; 2]>(), 8)) as *mut [Fr; 2];
            std::mem::forget(std::mem::replace(&mut t.inputs, Vec::from_raw_parts(p, n, n)));
        }
        kani::cover!(n == 1 << 40, "longest table");
        let block = <Fr as poseidon_circuit::hash::Hashable>::hash_block_size();
        assert!(t.minimum_row_require() as u128 >= n as u128 * block as u128, "declared rows are at least block size times length");
        std::mem::forget(t);
    }
}
