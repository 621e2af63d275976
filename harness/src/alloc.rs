//! Allocator that records the largest single request made while armed
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;
static MAX: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
fn note(n: usize) {
    MAX.fetch_max(n, Ordering::Relaxed);
    let l = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(l, Ordering::Relaxed);
}
/// Runs f and returns (result, largest single request, growth of live memory at its peak)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    MAX.store(0, Ordering::Relaxed);
    let l = LIVE.load(Ordering::Relaxed);
    PEAK.store(l, Ordering::Relaxed);
    let r = f();
    (r, MAX.load(Ordering::Relaxed), PEAK.load(Ordering::Relaxed).saturating_sub(l))
}
