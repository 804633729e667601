pub use std::process::*;

use crate::rt;

/// The virtual process ends: the scenario hears about it, or the execution ends.
pub fn exit(code: i32) -> ! {
    rt::log_line(|| format!("process::exit({})", code));
    if let Some(f) = rt::k().on_exit.clone() {
        f(code);
    }
    rt::finish(rt::End::Exit(code))
}
pub fn abort() -> ! {
    rt::log_line(|| "process::abort()".to_string());
    if let Some(f) = rt::k().on_exit.clone() {
        f(134);
    }
    rt::finish(rt::End::Exit(134))
}
