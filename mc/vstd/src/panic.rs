//! Catching panics must not catch the explorer's own way of leaving an execution.
pub use std::panic::*;

pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> std::thread::Result<R> {
    match std::panic::catch_unwind(f) {
        Err(p) if p.is::<crate::rt::Control>() => resume_unwind(p),
        r => r,
    }
}
