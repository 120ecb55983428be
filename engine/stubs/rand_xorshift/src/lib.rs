//! Stand-in for `rand_xorshift`; nothing of it is used outside tests.
