//! Stand-in for lazy_static used in model checking: parameter tables are opaque, so a table is not computed but filled
//! with opaque constants.
pub trait Table: Sized {
    fn table() -> Self;
}
impl<T: Table + Copy, const N: usize> Table for [T; N] {
    fn table() -> Self {
        [T::table(); N]
    }
}
impl<T: Table + Clone> Table for Vec<T> {
    fn table() -> Self {
        vec![T::table(); 2]
    }
}
impl<A: Table, B: Table> Table for (A, B) {
    fn table() -> Self {
        (A::table(), B::table())
    }
}
impl<A: Table, B: Table, C: Table> Table for (A, B, C) {
    fn table() -> Self {
        (A::table(), B::table(), C::table())
    }
}
use std::cell::UnsafeCell;
pub struct Cell<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Cell<T> {}
impl<T: Table> Cell<T> {
    pub const fn new() -> Self {
        Cell(UnsafeCell::new(None))
    }
    pub fn get(&self, _: fn() -> T) -> &T {
        unsafe {
            if (*self.0.get()).is_none() {
                let v = T::table();
                *self.0.get() = Some(v);
            }
            (*self.0.get()).as_ref().unwrap()
        }
    }
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => {
        #[allow(non_camel_case_types)]
        $(#[$a])* $v struct $n { _p: () }
        $v static $n: $n = $n { _p: () };
        impl std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                fn init() -> $t { $e }
                static C: $crate::Cell<$t> = $crate::Cell::new();
                C.get(init)
            }
        }
        $crate::lazy_static! { $($r)* }
    };
    () => {};
}
