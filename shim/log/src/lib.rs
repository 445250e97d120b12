//! Stand-in for the `log` facade: type checks the arguments, prints nothing.
#[macro_export]
macro_rules! log {
    (target: $t:expr, $l:expr, $($a:tt)+) => { if false { let _ = ($l, format_args!($($a)+)); } };
    ($l:expr, $($a:tt)+) => { if false { let _ = ($l, format_args!($($a)+)); } };
}
#[macro_export]
macro_rules! error { (target: $t:expr, $($a:tt)+) => { $crate::log!(0, $($a)+) }; ($($a:tt)+) => { $crate::log!(0, $($a)+) }; }
#[macro_export]
macro_rules! warn { (target: $t:expr, $($a:tt)+) => { $crate::log!(0, $($a)+) }; ($($a:tt)+) => { $crate::log!(0, $($a)+) }; }
#[macro_export]
macro_rules! info { (target: $t:expr, $($a:tt)+) => { $crate::log!(0, $($a)+) }; ($($a:tt)+) => { $crate::log!(0, $($a)+) }; }
#[macro_export]
macro_rules! debug { (target: $t:expr, $($a:tt)+) => { $crate::log!(0, $($a)+) }; ($($a:tt)+) => { $crate::log!(0, $($a)+) }; }
#[macro_export]
macro_rules! trace { (target: $t:expr, $($a:tt)+) => { $crate::log!(0, $($a)+) }; ($($a:tt)+) => { $crate::log!(0, $($a)+) }; }
