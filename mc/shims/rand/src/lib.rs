//! The real `rand`, except that its entropy comes from the model checker.
pub use rand_real::*;

#[derive(Clone, Debug, Default)]
pub struct ThreadRng;

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        vstd::rt::next_random() as u32
    }
    fn next_u64(&mut self) -> u64 {
        vstd::rt::next_random()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            c.copy_from_slice(&vstd::rt::next_random().to_le_bytes()[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}

pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().gen()
}

pub mod rngs {
    pub use super::ThreadRng;
    pub use rand_real::rngs::*;
}

pub mod prelude {
    pub use super::{random, thread_rng, ThreadRng};
    pub use rand_real::distributions::Distribution;
    pub use rand_real::rngs::StdRng;
    pub use rand_real::seq::{IteratorRandom, SliceRandom};
    pub use rand_real::{CryptoRng, Rng, RngCore, SeedableRng};
}
