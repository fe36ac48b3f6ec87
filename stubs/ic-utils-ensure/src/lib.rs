//! Stand-in for dfinity/ic's `ic-utils-ensure`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $msg:expr $(,)?) => { if !$cond { return Err($msg.to_string()); } };
    ($cond:expr, $fmt:literal, $($arg:tt)*) => { if !$cond { return Err(format!($fmt, $($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($lhs:expr, $rhs:expr, $msg:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{} (lhs) != {} (rhs): {}", stringify!($lhs), stringify!($rhs), $msg));
        }
    };
    ($lhs:expr, $rhs:expr, $fmt:literal, $($arg:tt)*) => {
        if $lhs != $rhs {
            return Err(format!("{} (lhs) != {} (rhs): {}", stringify!($lhs), stringify!($rhs), format!($fmt, $($arg)*)));
        }
    };
    ($lhs:expr, $rhs:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{} (lhs) != {} (rhs)", stringify!($lhs), stringify!($rhs)));
        }
    };
}
