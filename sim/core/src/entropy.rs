//! The operating system's randomness, taken over: std asks the symbol
//! `getrandom` for the keys of every HashMap, so they come from the scenario.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static SEED: AtomicU64 = AtomicU64::new(1);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Takes effect for threads started afterwards (std keeps keys per thread).
pub fn seed(s: u64) {
    SEED.store(s, SeqCst);
}
pub fn calls() -> u64 {
    CALLS.load(SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, SeqCst);
    let mut s = SEED.load(SeqCst);
    for i in 0..len {
        if i % 8 == 0 {
            s = crate::rng::mix(s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    len as isize
}
