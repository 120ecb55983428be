//! C17: sequences of table-builder calls. The counts are decided bit-precisely by kcirc; here the same sequences run with
//! counts at their boundaries and symbolic contents, and natively with the arguments of a counterexample.
use crate::common::*;
use crate::env::*;
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::PoseidonHashTable;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;

macro_rules! claim {
    ($ok:expr, $label:literal) => {
        check_plain($label, $ok, || "no".into())
    };
}
thread_local! {
    static NEXT: Cell<u128> = Cell::new(0);
    static COUNTS: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
    static SOME: Cell<bool> = Cell::new(false);
    /// arguments of a counterexample, in order
    static GIVEN: RefCell<Option<VecDeque<u128>>> = RefCell::new(None);
}
struct Skip;
fn given() -> Option<u128> {
    GIVEN.with(|g| g.borrow_mut().as_mut().map(|q| q.pop_front().unwrap_or(0)))
}
fn any_u128() -> u128 {
    given().unwrap_or_else(|| NEXT.with(|n| n.replace(n.get() + 1)))
}
fn any_u64() -> u64 {
    given().map(|v| v as u64).unwrap_or_else(|| COUNTS.with(|c| c.borrow_mut().pop_front().unwrap_or(1)))
}
fn any_option() -> Option<u128> {
    match given() {
        Some(b) => (b & 1 == 1).then(any_u128),
        None => SOME.with(|s| !s.replace(!s.get())).then(any_u128),
    }
}
fn element(v: u128) -> Fr {
    if GIVEN.with(|g| g.borrow().is_some()) {
        <Fr as halo2curves::ff::PrimeField>::from_u128(v)
    } else {
        sym(&format!("e{v}"))
    }
}
fn assume(ok: bool) {
    if !ok {
        std::panic::resume_unwind(Box::new(Skip));
    }
}
fn rejected(f: impl FnMut()) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}
include!("../../kcirc/src/ops.rs");

/// pairs of counts and steps at the boundaries for a stream of `rows` rows
fn pairs(rows: u128) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let ks: Vec<u128> = if rows < 5 { (0..5).collect() } else { vec![0, 1, rows / 2, rows - 1, rows, rows + 1, 3 * rows] };
    for s in [1u64, 2, 31, 32, 62, 255, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, 1 << 62, u64::MAX / 2, u64::MAX - 1, u64::MAX] {
        for &k in &ks {
            for d in [-1i128, 0, 1] {
                let c = k as i128 * s as i128 + d;
                if c >= 0 && c <= u64::MAX as i128 {
                    v.push((c as u64, s));
                }
            }
        }
        v.push((u64::MAX, s));
    }
    v
}
fn run(body: fn()) {
    run_rows(4, body)
}
fn run_rows(rows: u128, body: fn()) {
    #[cfg(feature = "real")]
    {
        let m = MODEL.lock().unwrap().clone().unwrap_or_default();
        if m.contains_key("v0") {
            GIVEN.with(|g| *g.borrow_mut() = Some((0..m.len()).filter_map(|k| m.get(&format!("v{k}")).map(|l| l[0] as u128 | (l[1] as u128) << 64)).collect()));
            return body();
        }
    }
    let p = pairs(rows);
    for n in 0..p.len() {
        NEXT.with(|c| c.set(0));
        COUNTS.with(|c| *c.borrow_mut() = (0..4).flat_map(|j| { let (a, b) = p[(n + j * 37) % p.len()]; [a, b] }).collect());
        if let Err(e) = std::panic::catch_unwind(body) {
            if !e.is::<Skip>() {
                std::panic::resume_unwind(e);
            }
        }
    }
}
pub fn c17(_thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    macro_rules! scenario {
        ($name:ident: $($op:ident $k:literal),*) => {
            v.push(Scen::new(concat!("proofs::", stringify!($name)), || run(|| {
                let mut t = table();
                let mut want = Vec::with_capacity(8);
                $(call!(t want $op $k);)*
                aligned(&t, &want);
            })));
        };
    }
    sequences!(scenario);
    // longer streams and tables, counts at their boundaries
    macro_rules! long {
        ($($k:literal)*) => {$(
            v.push(Scen::new(concat!("stream of ", $k, " rows"), || run_rows($k, || {
                let mut t = table();
                let mut want = vec![];
                stream::<$k>(&mut t, &mut want, false, false);
                aligned(&t, &want);
            })));
            v.push(Scen::new(concat!("stream too long by a row, ", $k, " rows"), || run_rows($k, too_long::<$k>)));
            v.push(Scen::new(concat!($k, " two-to-one rows, stream of ", $k, " rows, stream of 2 rows"), || run_rows($k, || {
                let mut t = table();
                let mut want = vec![];
                fixed::<$k>(&mut t, &mut want);
                stream::<$k>(&mut t, &mut want, false, true);
                stream::<2>(&mut t, &mut want, false, false);
                aligned(&t, &want);
            })));
        )*};
    }
    long!(5 6 7 8 9 12 15 16 17 31 32 33 63 64 65 127 128 129 256 257);
    v.push(Scen::new("proofs::long_2", || run(too_long::<2>)));
    v.push(Scen::new("proofs::long_3", || run(too_long::<3>)));
    v.push(Scen::new("proofs::long_4", || run(too_long::<4>)));
    v
}
