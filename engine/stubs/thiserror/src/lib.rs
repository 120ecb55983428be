//! Stand-in for `thiserror`; nothing of it is used outside tests.
