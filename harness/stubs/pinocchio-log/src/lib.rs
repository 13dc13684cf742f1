//! Verification stub: logging has an empty body (arguments are type-checked, never evaluated).
#![no_std]
#[macro_export]
macro_rules! log {
    ($buf:literal, $fmt:literal $(, $arg:expr)* $(,)?) => { if false { $( let _ = &$arg; )* } };
    ($fmt:literal $(, $arg:expr)* $(,)?) => { if false { $( let _ = &$arg; )* } };
}
