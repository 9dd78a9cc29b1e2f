//! The allocator, with a limit on single requests while damaged input is being read.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static LIMIT: AtomicU64 = AtomicU64::new(0);
static IN_USE: AtomicU64 = AtomicU64::new(0);

pub fn limit(n: u64) {
    IN_USE.store(0, Relaxed);
    LIMIT.store(n, Relaxed);
}

pub struct A;
fn check(n: usize) {
    let l = LIMIT.load(Relaxed);
    if l > 0 {
        let t = IN_USE.fetch_add(n as u64, Relaxed) + n as u64;
        if t > l && t < u64::MAX / 2 {
            LIMIT.store(0, Relaxed);
            crate::fatal("memory", &format!("a request for {} bytes, {} in total, while reading a small file", n, t));
        }
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        if LIMIT.load(Relaxed) > 0 {
            IN_USE.fetch_sub(l.size() as u64, Relaxed);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if LIMIT.load(Relaxed) > 0 {
            IN_USE.fetch_sub(l.size() as u64, Relaxed);
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: A = A;
