pub use std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
pub use once::{LazyLock, Once, OnceLock, OnceState};

pub mod atomic;
pub mod mpsc;
mod once;

use crate::rt;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

fn deadline(d: Duration) -> Option<u64> {
    Some(rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64))
}

fn unwinding() -> bool {
    std::thread::panicking() && rt::k().unwinding == 0
}

// ------------------------------------------------------------------ Mutex

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    panicking: bool,
    _no_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::touch(self);
        self.locked.set(true);
        let g = MutexGuard { m: self, panicking: unwinding(), _no_send: std::marker::PhantomData };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::point();
        rt::block_on("Mutex::lock", &|| !self.locked.get(), None);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::point();
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        rt::point();
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && unwinding() {
            self.m.poisoned.set(true);
        }
        self.m.locked.set(false);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}

// ------------------------------------------------------------------ RwLock

pub struct RwLock<T: ?Sized> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    _no_send: std::marker::PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    panicking: bool,
    _no_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { readers: Cell::new(0), writer: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::touch(self);
        self.readers.set(self.readers.get() + 1);
        let g = RwLockReadGuard { l: self, _no_send: std::marker::PhantomData };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::touch(self);
        self.writer.set(true);
        let g = RwLockWriteGuard { l: self, panicking: unwinding(), _no_send: std::marker::PhantomData };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::point();
        rt::block_on("RwLock::read", &|| !self.writer.get(), None);
        self.rguard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::point();
        rt::block_on("RwLock::write", &|| !self.writer.get() && self.readers.get() == 0, None);
        self.wguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        rt::point();
        if self.writer.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.rguard().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        rt::point();
        if self.writer.get() || self.readers.get() > 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.wguard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.readers.set(self.l.readers.get() - 1);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && unwinding() {
            self.l.poisoned.set(true);
        }
        self.l.writer.set(false);
    }
}

// ------------------------------------------------------------------ Condvar

#[derive(Default)]
pub struct Condvar {
    // tickets of the waiters still asleep
    waiters: UnsafeCell<Vec<u64>>,
    seq: Cell<u64>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: UnsafeCell::new(Vec::new()), seq: Cell::new(0) }
    }
    fn w(&self) -> &mut Vec<u64> {
        rt::touch(self);
        unsafe { &mut *self.waiters.get() }
    }
    fn wait_dl<'a, T>(&self, g: MutexGuard<'a, T>, dl: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        rt::touch(self);
        let t = self.seq.get();
        self.seq.set(t + 1);
        self.w().push(t);
        drop(g);
        let ok = rt::block_on("Condvar::wait", &|| !self.w().contains(&t), dl);
        self.w().retain(|x| *x != t);
        rt::block_on("Mutex::lock", &|| !m.locked.get(), None);
        (m.guard(), !ok)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_dl(g, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        let mut g = g;
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, to) = self.wait_dl(g, deadline(d));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(to))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = rt::now() + d.as_nanos() as u64;
        let mut g = g;
        loop {
            if !c(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if rt::now() >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            let left = Duration::from_nanos(end - rt::now());
            g = self.wait_timeout(g, left)?.0;
        }
    }
    pub fn notify_one(&self) {
        rt::point();
        if !self.w().is_empty() {
            self.w().remove(0);
        }
    }
    pub fn notify_all(&self) {
        rt::point();
        self.w().clear();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}

// ------------------------------------------------------------------ Barrier

pub struct Barrier {
    n: usize,
    count: Cell<usize>,
    gen: Cell<usize>,
}
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, count: Cell::new(0), gen: Cell::new(0) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        rt::point();
        rt::touch(self);
        let g = self.gen.get();
        self.count.set(self.count.get() + 1);
        if self.count.get() >= self.n {
            self.count.set(0);
            self.gen.set(g + 1);
            return BarrierWaitResult(true);
        }
        rt::block_on("Barrier::wait", &|| self.gen.get() != g, None);
        BarrierWaitResult(false)
    }
}

impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
impl std::panic::UnwindSafe for Condvar {}
impl std::panic::RefUnwindSafe for Condvar {}
