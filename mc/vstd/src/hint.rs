pub use std::hint::*;
pub fn spin_loop() {
    crate::rt::yield_now()
}
