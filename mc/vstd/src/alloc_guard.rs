//! Counts live heap bytes so that an execution that allocates without bound is
//! reported instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Guard;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);

#[cold]
fn exceeded() {
    LIMIT.store(i64::MAX, Relaxed);
    crate::mc::memory_exceeded();
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let v = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if v > LIMIT.load(Relaxed) {
            exceeded();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let v = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if v > LIMIT.load(Relaxed) {
            exceeded();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let d = n as i64 - l.size() as i64;
        let v = LIVE.fetch_add(d, Relaxed) + d;
        if d > 0 && v > LIMIT.load(Relaxed) {
            exceeded();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Guard = Guard;
