//! C06: the capacity word of message hashing, for every capacity and every message length.
use halo2curves::bn256::Fr;
use poseidon_base::hash::MessageHashable;

/// calls the real code; the run ends at the first S-box
pub fn run(m: &[u128; 4], n: usize, cap: Option<u128>) {
    // parameters are set up before anything is watched
    let _ = Fr::msg_hasher();
    unsafe {
        halo2curves::WANT = Some(expected(n, cap));
        let f = message(m);
        let _ = Fr::hash_msg(of_length(&f, n), cap);
    }
}

pub fn message(words: &[u128; 4]) -> [Fr; 4] {
    [Fr::datum(words[0]), Fr::datum(words[1]), Fr::datum(words[2]), Fr::datum(words[3])]
}

/// a message of `n` elements starting with those of `m`; the run ends before any element beyond the third is needed
pub unsafe fn of_length(m: &[Fr; 4], n: usize) -> &'static [Fr] {
    let size = n * std::mem::size_of::<Fr>();
    #[cfg(kani)]
    let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(size, std::mem::align_of::<Fr>())) as *mut Fr;
    #[cfg(not(kani))]
    let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(size.min(1 << 20), std::mem::align_of::<Fr>())) as *mut Fr;
    *p = m[0];
    if n > 1 {
        *p.add(1) = m[1];
    }
    if n > 2 {
        *p.add(2) = m[2];
    }
    std::slice::from_raw_parts(p, n)
}
/// 2^46 bytes of elements (what the model checker can address)
pub const MAX_LEN: usize = 1 << 42;

pub fn expected(n: usize, cap: Option<u128>) -> u128 {
    match cap {
        Some(c) => c,
        None if cfg!(feature = "legacy") => n as u128,
        None => (n as u128) << 64,
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;
    fn go(n: usize, cap: Option<u128>, m: [u128; 4]) {
        run(&m, n, cap);
        assert!(false, "no permutation");
    }
    fn words() -> [u128; 4] {
        [kani::any(), kani::any(), kani::any(), kani::any()]
    }
    fn long() -> usize {
        let n: usize = kani::any();
        kani::assume(n > 2 && n <= MAX_LEN);
        n
    }
    #[kani::proof]
    fn explicit_1() {
        go(1, Some(kani::any()), words())
    }
    #[kani::proof]
    fn explicit_2() {
        go(2, Some(kani::any()), words())
    }
    #[kani::proof]
    fn explicit_n() {
        go(long(), Some(kani::any()), words())
    }
    #[kani::proof]
    fn default_1() {
        go(1, None, words())
    }
    #[kani::proof]
    fn default_2() {
        go(2, None, words())
    }
    #[kani::proof]
    fn default_n() {
        let n = long();
        kani::cover!(n == MAX_LEN, "longest message");
        go(n, None, words())
    }
}
