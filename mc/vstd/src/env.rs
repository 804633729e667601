pub use std::env::*;

pub struct Args(std::vec::IntoIter<String>);
pub fn args() -> Args {
    Args(crate::rt::k().args.clone().into_iter())
}
impl Iterator for Args {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for Args {}
impl DoubleEndedIterator for Args {
    fn next_back(&mut self) -> Option<String> {
        self.0.next_back()
    }
}
pub struct ArgsOs(std::vec::IntoIter<String>);
pub fn args_os() -> ArgsOs {
    ArgsOs(crate::rt::k().args.clone().into_iter())
}
impl Iterator for ArgsOs {
    type Item = std::ffi::OsString;
    fn next(&mut self) -> Option<std::ffi::OsString> {
        self.0.next().map(Into::into)
    }
}
