//! Allocator seam: while a limit is set, an allocation that would take the bytes requested since then
//! above it fails, as on a machine with little memory.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Limited;

static LIVE: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static DENIED: AtomicU64 = AtomicU64::new(0);

pub fn limit(n: Option<usize>) {
    match n {
        Some(n) => LIMIT.store(LIVE.load(Relaxed) + n as i64, Relaxed),
        None => LIMIT.store(i64::MAX, Relaxed),
    }
}

#[allow(dead_code)]
pub fn denied() -> u64 {
    DENIED.swap(0, Relaxed)
}

fn admit(n: usize) -> bool {
    if n as u128 + LIVE.load(Relaxed).max(0) as u128 > LIMIT.load(Relaxed) as u128 {
        DENIED.fetch_add(1, Relaxed);
        return false;
    }
    LIVE.fetch_add(n as i64, Relaxed);
    true
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !admit(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub((l.size() - n) as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
