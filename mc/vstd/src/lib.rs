//! `std` with a controlled environment: threads, locks, channels, clocks,
//! sockets, files, program arguments and exit are virtual and driven by the
//! explorer in [`mc`]; everything else is the real `std`.
#![allow(clippy::all)]

pub use std::*;

pub mod alloc_guard;
pub mod mc;
pub mod rt;

pub mod collections;
pub mod env;
pub mod fs;
pub mod hint;
pub mod net;
pub mod panic;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } $(; $($rest:tt)*)?) => {
        $crate::thread_local!($(#[$a])* $v static $n : $t = $e $(; $($rest)*)?);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block $(; $($rest:tt)*)?) => {
        $crate::thread_local!($(#[$a])* $v static $n : $t = $e $(; $($rest)*)?);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = {
            fn init() -> $t { $e }
            $crate::thread::LocalKey::__new(init)
        };
        $($crate::thread_local!($($rest)*);)?
    };
}
