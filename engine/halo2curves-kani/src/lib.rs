pub use ff;
pub use group;

#[macro_use]
mod field;

pub mod bn256 {
    field!(Fr);
}
pub mod pasta {
    mod fp {
        field!(Fp);
    }
    mod fq {
        field!(Fq);
    }
    pub use fp::Fp;
    pub use fq::Fq;
}

/// expected argument of the first S-box; None: not watching
pub static mut WANT: Option<u128> = None;
#[inline(always)]
pub fn met(v: u128) {
    unsafe {
        if let Some(want) = WANT {
            #[cfg(kani)]
            {
                assert!(v == want, "capacity word entering the first permutation");
                kani::cover!(true, "first permutation reached");
                kani::assume(false);
            }
            #[cfg(not(kani))]
            {
                println!("MET {v:x} WANT {want:x}");
                std::process::exit((v != want) as i32)
            }
        }
    }
}
