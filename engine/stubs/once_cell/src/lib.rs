//! One-thread stand-in for once_cell (the model checker cannot compile the thread parking of the original).
pub mod unsync {
    use std::cell::UnsafeCell;
    use std::ops::Deref;
    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for OnceCell<T> {}
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell(UnsafeCell::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            unsafe { (*self.0.get()).as_ref() }
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            if self.get().is_some() {
                return Err(v);
            }
            unsafe { *self.0.get() = Some(v) };
            Ok(())
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if self.get().is_none() {
                let v = f();
                unsafe { *self.0.get() = Some(v) };
            }
            self.get().unwrap()
        }
    }
    pub struct Lazy<T, F = fn() -> T>(OnceCell<T>, F);
    unsafe impl<T, F> Sync for Lazy<T, F> {}
    impl<T, F> Lazy<T, F> {
        pub const fn new(f: F) -> Self {
            Lazy(OnceCell::new(), f)
        }
    }
    impl<T, F: Fn() -> T> Lazy<T, F> {
        pub fn force(this: &Self) -> &T {
            this.0.get_or_init(|| (this.1)())
        }
    }
    impl<T, F: Fn() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Lazy::force(self)
        }
    }
}
pub mod sync {
    pub use super::unsync::{Lazy, OnceCell};
}
