pub use std::thread::{AccessError, Result};

use crate::rt;
use std::any::Any;
use std::cell::RefCell;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        rt::point();
        rt::k().threads[self.id].token = true;
    }
}

pub fn current() -> Thread {
    let id = rt::cur();
    let name = rt::k().threads.get(id).and_then(|t| t.name.clone());
    Thread { id, name }
}
pub fn park() {
    let id = rt::cur();
    rt::point();
    rt::block_on("park", &|| rt::k().threads[id].token, None);
    rt::k().threads[id].token = false;
}
pub fn park_timeout(d: Duration) {
    let id = rt::cur();
    rt::point();
    let dl = rt::now().saturating_add(d.as_nanos() as u64);
    rt::block_on("park", &|| rt::k().threads[id].token, Some(dl));
    rt::k().threads[id].token = false;
}
pub fn sleep(d: Duration) {
    if d.is_zero() {
        return yield_now();
    }
    rt::point();
    rt::sleep(d);
}
pub fn yield_now() {
    rt::yield_now()
}
pub fn panicking() -> bool {
    std::thread::panicking() && rt::k().unwinding == 0
}
pub fn available_parallelism() -> io::Result<std::num::NonZeroUsize> {
    Ok(std::num::NonZeroUsize::new(4).unwrap())
}

type Slot<T> = Rc<RefCell<Option<Result<T>>>>;

pub struct JoinHandle<T> {
    tid: usize,
    slot: Slot<T>,
    thread: Thread,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        rt::point();
        let tid = self.tid;
        rt::block_on("JoinHandle::join", &|| rt::is_done(tid), None);
        let r = self.slot.borrow_mut().take().unwrap();
        r
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        rt::point();
        rt::is_done(self.tid)
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

fn spawn_fails() -> bool {
    rt::k().spawn_fault.clone().map_or(false, |f| f())
}

fn start<T: 'static>(name: Option<String>, f: Box<dyn FnOnce() -> T>) -> JoinHandle<T> {
    if !rt::in_rt() {
        panic!("harness: thread spawned in a scenario without threads");
    }
    let slot: Slot<T> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let tid = rt::spawn_raw(
        name.clone(),
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            if r.is_err() {
                let me = rt::cur();
                let m = rt::k().panics.iter().rev().find(|p| p.tid == me).map(|p| format!("{} ({})", p.msg, p.loc)).unwrap_or_default();
                rt::k().threads[me].panicked = Some(m);
            }
            *s2.borrow_mut() = Some(r);
        }),
    );
    rt::log_line(|| format!("spawned thread {} ({})", tid, name.as_deref().unwrap_or("-")));
    rt::point();
    JoinHandle { tid, slot, thread: Thread { id: tid, name } }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if spawn_fails() {
        panic!("failed to spawn thread: {:?}", io::Error::from_raw_os_error(libc::EAGAIN));
    }
    start(None, Box::new(f))
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if spawn_fails() {
            return Err(io::Error::from_raw_os_error(libc::EAGAIN));
        }
        Ok(start(self.name, Box::new(f)))
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(s.start(self.name, f))
    }
}

// ------------------------------------------------------------------ scopes

pub struct Scope<'scope, 'env: 'scope> {
    tids: RefCell<Vec<usize>>,
    a: PhantomData<&'scope mut &'scope ()>,
    b: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    tid: usize,
    slot: Slot<T>,
    thread: Thread,
    a: PhantomData<&'scope ()>,
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        rt::point();
        let tid = self.tid;
        rt::block_on("join", &|| rt::is_done(tid), None);
        let r = self.slot.borrow_mut().take().unwrap();
        r
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        rt::point();
        rt::is_done(self.tid)
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    fn start<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let slot: Slot<T> = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        let body: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            if r.is_err() {
                let me = rt::cur();
                rt::k().threads[me].panicked = Some("scoped".into());
            }
            *s2.borrow_mut() = Some(r);
        });
        let body: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(body) };
        let tid = rt::spawn_raw(name.clone(), body);
        self.tids.borrow_mut().push(tid);
        rt::point();
        ScopedJoinHandle { tid, slot, thread: Thread { id: tid, name }, a: PhantomData }
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.start(None, f)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { tids: RefCell::new(Vec::new()), a: PhantomData, b: PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
    let tids = s.tids.borrow().clone();
    for t in &tids {
        rt::join(*t);
    }
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if tids.iter().any(|t| rt::panicked(*t).is_some()) => panic!("a scoped thread panicked"),
        Ok(r) => r,
    }
}

// ------------------------------------------------------------------ TLS

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn __new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    pub fn try_with<F, R>(&'static self, f: F) -> std::result::Result<R, AccessError>
    where
        F: FnOnce(&T) -> R,
    {
        Ok(self.with(f))
    }
    pub fn with<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        let key = self as *const _ as usize;
        let tid = rt::cur();
        let k = rt::k();
        if k.threads.is_empty() {
            // no virtual threads: one store per execution
            rt::spawn_tls_holder();
        }
        let k = rt::k();
        if !k.threads[tid].tls.contains_key(&key) {
            let v: Box<dyn Any> = Box::new((self.init)());
            rt::k().threads[tid].tls.insert(key, v);
        }
        let p: *const T = rt::k().threads[tid].tls[&key].downcast_ref::<T>().unwrap();
        f(unsafe { &*p })
    }
}
impl<T: 'static> LocalKey<std::cell::Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<F: FnOnce(&T) -> R, R>(&'static self, f: F) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<F: FnOnce(&mut T) -> R, R>(&'static self, f: F) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
