//! A small stand-in for log: it keeps the messages that are shown by default.
pub static mut ERRORS: Vec<String> = Vec::new();
#[allow(static_mut_refs)]
pub fn keep(s: String) {
    unsafe { ERRORS.push(s) }
}
#[macro_export]
macro_rules! error { ($($t:tt)*) => { $crate::keep(format!($($t)*)) } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
