//! Stand-in for `log`: arguments are formatted and dropped.
#[macro_export]
macro_rules! __drop { ($($t:tt)*) => { { let _ = ::std::format_args!($($t)*); } } }
#[macro_export]
macro_rules! error { (target: $x:expr, $($t:tt)*) => { $crate::__drop!($($t)*) }; ($($t:tt)*) => { $crate::__drop!($($t)*) } }
#[macro_export]
macro_rules! warn { (target: $x:expr, $($t:tt)*) => { $crate::__drop!($($t)*) }; ($($t:tt)*) => { $crate::__drop!($($t)*) } }
#[macro_export]
macro_rules! info { (target: $x:expr, $($t:tt)*) => { $crate::__drop!($($t)*) }; ($($t:tt)*) => { $crate::__drop!($($t)*) } }
#[macro_export]
macro_rules! debug { (target: $x:expr, $($t:tt)*) => { $crate::__drop!($($t)*) }; ($($t:tt)*) => { $crate::__drop!($($t)*) } }
#[macro_export]
macro_rules! trace { (target: $x:expr, $($t:tt)*) => { $crate::__drop!($($t)*) }; ($($t:tt)*) => { $crate::__drop!($($t)*) } }
