//! `Once`, `OnceLock` and `LazyLock`: who comes while another thread initialises waits.
use crate::rt;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::Deref;

#[derive(Clone, Copy, PartialEq)]
enum St {
    New,
    Running,
    Done,
    Poisoned,
}

pub struct Once(Cell<St>);
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
impl std::panic::UnwindSafe for Once {}
impl std::panic::RefUnwindSafe for Once {}
pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}
struct Running<'a>(&'a Once, St);
impl Drop for Running<'_> {
    fn drop(&mut self) {
        self.0 .0.set(self.1);
    }
}

impl Once {
    pub const fn new() -> Self {
        Once(Cell::new(St::New))
    }
    pub fn is_completed(&self) -> bool {
        rt::point();
        self.0.get() == St::Done
    }
    /// After a failure the state is `failed`.
    fn run(&self, force: bool, failed: St, f: impl FnOnce(&OnceState)) {
        rt::point();
        rt::touch(self);
        rt::block_on("Once::call_once", &|| self.0.get() != St::Running, None);
        let old = self.0.get();
        if old == St::Done {
            return;
        }
        if old == St::Poisoned && !force {
            panic!("Once instance has previously been poisoned");
        }
        self.0.set(St::Running);
        let mut r = Running(self, failed);
        f(&OnceState(old == St::Poisoned));
        r.1 = St::Done;
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.run(false, St::Poisoned, |_| f())
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.run(true, St::Poisoned, f)
    }
    pub fn wait(&self) {
        rt::point();
        rt::block_on("Once::wait", &|| matches!(self.0.get(), St::Done | St::Poisoned), None);
        if self.0.get() == St::Poisoned {
            panic!("Once instance has previously been poisoned");
        }
    }
    pub fn wait_force(&self) {
        rt::point();
        rt::block_on("Once::wait", &|| self.0.get() == St::Done, None);
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}

pub struct OnceLock<T> {
    once: Once,
    val: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T: std::panic::UnwindSafe> std::panic::UnwindSafe for OnceLock<T> {}
impl<T: std::panic::RefUnwindSafe + std::panic::UnwindSafe> std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), val: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        match self.once.is_completed() {
            true => unsafe { (*self.val.get()).as_ref() },
            false => None,
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.val.get_mut().as_mut()
    }
    pub fn wait(&self) -> &T {
        self.once.wait_force();
        unsafe { (*self.val.get()).as_ref().unwrap() }
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        rt::touch(self);
        self.once.run(true, St::New, |_| {
            let v = f();
            unsafe { *self.val.get() = Some(v) }
        });
        unsafe { (*self.val.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.val.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = Once::new();
        self.val.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        self.get().cloned().map_or_else(OnceLock::new, OnceLock::from)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let o = OnceLock::new();
        let _ = o.set(v);
        o
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_tuple("OnceLock");
        match self.get() {
            Some(v) => d.field(v),
            None => d.field(&format_args!("<uninit>")),
        };
        d.finish()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: Once,
    val: UnsafeCell<Option<T>>,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send, F: Send> Send for LazyLock<T, F> {}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T: std::panic::UnwindSafe, F: std::panic::UnwindSafe> std::panic::UnwindSafe for LazyLock<T, F> {}
impl<T: std::panic::RefUnwindSafe + std::panic::UnwindSafe, F: std::panic::UnwindSafe> std::panic::RefUnwindSafe for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: Once::new(), val: UnsafeCell::new(None), init: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        rt::touch(this);
        this.once.run(false, St::Poisoned, |_| {
            let f = unsafe { (*this.init.get()).take().unwrap() };
            let v = f();
            unsafe { *this.val.get() = Some(v) }
        });
        unsafe { (*this.val.get()).as_ref().unwrap() }
    }
    pub fn force_mut(this: &mut Self) -> &mut T {
        Self::force(this);
        this.val.get_mut().as_mut().unwrap()
    }
    pub fn get(this: &Self) -> Option<&T> {
        match this.once.is_completed() {
            true => unsafe { (*this.val.get()).as_ref() },
            false => None,
        }
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LazyLock")
    }
}
