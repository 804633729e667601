pub use std::sync::atomic::Ordering;

use crate::rt;
use std::cell::UnsafeCell;

pub fn fence(_: Ordering) {
    rt::point();
}
pub fn compiler_fence(_: Ordering) {}

macro_rules! common {
    ($name:ident, $t:ty) => {
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(UnsafeCell::new(v))
            }
            fn p(&self) -> *mut $t {
                rt::touch(self);
                self.0.get()
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.get()
            }
            pub fn update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                rt::point();
                unsafe { std::mem::replace(&mut *self.p(), f(*self.p())) }
            }
            pub fn try_update(&self, a: Ordering, b: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                self.fetch_update(a, b, f)
            }
            pub fn load(&self, _: Ordering) -> $t {
                rt::point();
                unsafe { *self.p() }
            }
            pub fn store(&self, v: $t, _: Ordering) {
                rt::point();
                unsafe { *self.p() = v }
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                rt::point();
                unsafe { std::mem::replace(&mut *self.p(), v) }
            }
            pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                rt::point();
                unsafe {
                    let p = &mut *self.p();
                    if *p == c {
                        *p = n;
                        Ok(c)
                    } else {
                        Err(*p)
                    }
                }
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, a, b)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                rt::point();
                unsafe {
                    let p = &mut *self.p();
                    let o = *p;
                    match f(o) {
                        Some(v) => {
                            *p = v;
                            Ok(o)
                        }
                        None => Err(o),
                    }
                }
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        unsafe impl Send for $name {}
        unsafe impl Sync for $name {}
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", unsafe { *self.0.get() })
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! int {
    ($name:ident, $t:ty) => {
        pub struct $name(UnsafeCell<$t>);
        common!($name, $t);
        impl $name {
            fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
                rt::point();
                unsafe {
                    let p = &mut *self.p();
                    let o = *p;
                    *p = f(o);
                    o
                }
            }
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x.wrapping_add(v))
            }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x.wrapping_sub(v))
            }
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x & v)
            }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x | v)
            }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x ^ v)
            }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x.max(v))
            }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                self.rmw(|x| x.min(v))
            }
        }
    };
}

int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);

pub struct AtomicBool(UnsafeCell<bool>);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.fetch_update(o, o, |x| Some(x & v)).unwrap()
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.fetch_update(o, o, |x| Some(x | v)).unwrap()
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.fetch_update(o, o, |x| Some(x ^ v)).unwrap()
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_update(o, o, |x| Some(!x)).unwrap()
    }
}

pub struct AtomicPtr<T>(UnsafeCell<*mut T>);
unsafe impl<T> Send for AtomicPtr<T> {}
unsafe impl<T> Sync for AtomicPtr<T> {}
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
        AtomicPtr(UnsafeCell::new(v))
    }
    fn p(&self) -> *mut *mut T {
        rt::point();
        rt::touch(self);
        self.0.get()
    }
    pub fn load(&self, _: Ordering) -> *mut T {
        unsafe { *self.p() }
    }
    pub fn store(&self, v: *mut T, _: Ordering) {
        unsafe { *self.p() = v }
    }
    pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T {
        unsafe { std::mem::replace(&mut *self.p(), v) }
    }
    pub fn compare_exchange(&self, c: *mut T, n: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
        unsafe {
            let p = &mut *self.p();
            if *p == c {
                *p = n;
                Ok(c)
            } else {
                Err(*p)
            }
        }
    }
    pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, a: Ordering, b: Ordering) -> Result<*mut T, *mut T> {
        self.compare_exchange(c, n, a, b)
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
}
impl<T> std::panic::RefUnwindSafe for AtomicPtr<T> {}

macro_rules! uw { ($($n:ident)*) => { $(impl std::panic::RefUnwindSafe for $n {})* } }
uw!(AtomicU8 AtomicU16 AtomicU32 AtomicU64 AtomicUsize AtomicI8 AtomicI16 AtomicI32 AtomicI64 AtomicIsize AtomicBool);
