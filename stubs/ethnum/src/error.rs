//! Module with hacks for creating error variants for standard library errors
//! without public interfaces.

use core::{
    mem,
    num::{IntErrorKind, ParseIntError, TryFromIntError},
};

/// Returns a `ParseIntError` from an `IntErrorKind`.
pub const fn pie(kind: IntErrorKind) -> ParseIntError {
    unsafe { mem::transmute(kind) }
}

/// Returns a `TryFromIntError`.
/// Patched for the analysis toolchain, where `TryFromIntError` is no longer zero-sized.
pub const fn tfie() -> TryFromIntError {
    unsafe { mem::transmute(IntErrorKind::PosOverflow) }
}
