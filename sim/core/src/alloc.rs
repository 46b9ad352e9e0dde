//! Counting allocator: live and peak heap bytes, and a hard ceiling that turns
//! runaway growth into a quick death of the worker process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub const CEILING: usize = 2 << 30;

fn up(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    TOTAL.fetch_add(n, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
        if live > CEILING {
            std::process::abort();
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        up(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// Start a new peak measurement; returns the live bytes now.
pub fn reset_peak() -> usize {
    let l = live();
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
/// All bytes ever asked for: a measure of work.
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}
