//! A page shared with the driver: which case is being run, and whether a call under test is in progress.
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

static PAGE: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

#[cfg(not(miri))]
pub fn init() {
    let Ok(path) = std::env::var("MM_HEART") else { return };
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) else { return };
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if p != libc::MAP_FAILED {
            PAGE.store(p as *mut AtomicU64, SeqCst);
        }
    }
}
#[cfg(miri)]
pub fn init() {}

/// progress was made
pub fn beat(case: u64) {
    let p = PAGE.load(Relaxed);
    if !p.is_null() {
        unsafe {
            (*p).fetch_add(1, SeqCst);
            (*p.add(1)).store(case, SeqCst);
        }
    }
}
pub fn count() -> u64 {
    let p = PAGE.load(Relaxed);
    if p.is_null() { 0 } else { unsafe { (*p).load(SeqCst) } }
}
/// calls in progress
pub fn enter() {
    let p = PAGE.load(Relaxed);
    if !p.is_null() {
        unsafe { (*p.add(2)).fetch_add(1, SeqCst) };
    }
}
pub fn leave() {
    let p = PAGE.load(Relaxed);
    if !p.is_null() {
        unsafe {
            (*p.add(2)).fetch_sub(1, SeqCst);
            (*p).fetch_add(1, SeqCst);
        }
    }
}
