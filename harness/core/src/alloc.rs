//! The process allocator of the check binaries.
//!
//! Outside calls under test it is the system allocator.  While a call runs (IN_CALL > 0) it can be hostile within the
//! allocator contract: blocks end flush at an inaccessible page or are only minimally aligned right behind one, fresh
//! memory is filled with signalling garbage (NaN patterns), freed memory becomes inaccessible, layouts given on
//! release are compared with those requested, and chosen requests can fail.  It also keeps the books (live, peak).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct MmAlloc;

pub static IN_CALL: AtomicUsize = AtomicUsize::new(0);
/// 0 plain, 1 flush end, 2 minimally aligned behind a guard page
pub static HOSTILE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// largest single request during a call
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// number of requests made while a call ran
pub static CALL_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static HOSTILE_ALLOCS: AtomicU64 = AtomicU64::new(0);
/// fault injection: fail in-call request number FAIL_AT (counted from 1 by FAIL_SEQ) ...
pub static FAIL_AT: AtomicU64 = AtomicU64::new(0);
pub static FAIL_SEQ: AtomicU64 = AtomicU64::new(0);
/// ... and all later ones
pub static FAIL_ALL_AFTER: AtomicBool = AtomicBool::new(false);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
/// address of a counter (shared memory) of injected failures
pub static FAIL_NOTE: AtomicUsize = AtomicUsize::new(0);
/// bit 1: bad layout on release, 2: canary overwritten, 4: unknown block released
pub static VIOL: AtomicUsize = AtomicUsize::new(0);
pub static VIOL_INFO: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
pub static TRACK: AtomicBool = AtomicBool::new(false);

/// meeting point: calls wait in their first request of memory until this many calls are there (or a moment has passed)
pub static MEET_N: AtomicUsize = AtomicUsize::new(0);
pub static MEET_IN: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    pub static MEET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[cold]
fn meet(n: usize) {
    if MEET.try_with(|m| m.replace(false)).unwrap_or(false) {
        MEET_IN.fetch_add(1, SeqCst);
        let t = std::time::Instant::now();
        while MEET_IN.load(SeqCst) < n && t.elapsed().as_millis() < 300 {
            std::thread::yield_now();
        }
    }
}

const SLOTS: usize = 256;
struct Slot {
    ptr: AtomicUsize,
    base: AtomicUsize,
    maplen: AtomicUsize,
    size: AtomicUsize,
    align: AtomicUsize,
    front: AtomicUsize,
    back: AtomicUsize,
}
static TABLE: [Slot; SLOTS] = [const {
    Slot {
        ptr: AtomicUsize::new(0),
        base: AtomicUsize::new(0),
        maplen: AtomicUsize::new(0),
        size: AtomicUsize::new(0),
        align: AtomicUsize::new(0),
        front: AtomicUsize::new(0),
        back: AtomicUsize::new(0),
    }
}; SLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);
const CAN: u8 = 0xB7;

/// is addr within (or near) a guarded block? (async signal safe; for crash reports)
pub fn near_block(addr: usize) -> bool {
    TABLE.iter().any(|s| {
        let b = s.base.load(SeqCst);
        b != 0 && addr + 65536 >= b && addr < b + s.maplen.load(SeqCst) + 65536
    })
}

#[inline]
fn note_alloc(size: usize, in_call: bool) {
    let l = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
    if in_call {
        PEAK.fetch_max(l, Relaxed);
        LARGEST.fetch_max(size, Relaxed);
        CALL_ALLOCS.fetch_add(1, Relaxed);
    }
}

fn viol(bit: usize, a: usize, b: usize, c: usize, d: usize) {
    if VIOL.fetch_or(bit, SeqCst) == 0 {
        VIOL_INFO[0].store(a, SeqCst);
        VIOL_INFO[1].store(b, SeqCst);
        VIOL_INFO[2].store(c, SeqCst);
        VIOL_INFO[3].store(d, SeqCst);
    }
}

#[cfg(not(miri))]
unsafe fn guarded(layout: Layout, mode: usize) -> *mut u8 {
    const PAGE: usize = 4096;
    let size = layout.size();
    let align = layout.align();
    let body = (size + align + PAGE - 1) / PAGE * PAGE + if align > PAGE { align } else { 0 };
    let maplen = body + 2 * PAGE;
    let p = libc::mmap(std::ptr::null_mut(), maplen, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let base = p as usize + PAGE;
    if libc::mprotect(base as _, body, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    let addr = if mode == 1 {
        // flush end, as far as the alignment allows
        (base + body - size) & !(align - 1)
    } else {
        // only just aligned
        let mut a = (base + align - 1) & !(align - 1);
        if a % (2 * align) == 0 {
            a += align;
        }
        if a + size > base + body { (base + align - 1) & !(align - 1) } else { a }
    };
    let front = (addr - base).min(256);
    let back = (base + body - addr - size).min(256);
    std::ptr::write_bytes((addr - front) as *mut u8, CAN, front);
    std::ptr::write_bytes((addr + size) as *mut u8, CAN, back);
    // garbage: every f32 and every f64 in here is a NaN
    let words = size / 4;
    let w = addr as *mut u32;
    for i in 0..words {
        w.add(i).write_unaligned(0x7ff5_dead);
    }
    for s in TABLE.iter() {
        if s.ptr.compare_exchange(0, addr, SeqCst, SeqCst).is_ok() {
            s.maplen.store(maplen, SeqCst);
            s.size.store(size, SeqCst);
            s.align.store(align, SeqCst);
            s.front.store(front, SeqCst);
            s.back.store(back, SeqCst);
            s.base.store(p as usize, SeqCst);
            USED.fetch_add(1, SeqCst);
            HOSTILE_ALLOCS.fetch_add(1, Relaxed);
            return addr as *mut u8;
        }
    }
    libc::munmap(p, maplen);
    std::ptr::null_mut()
}

unsafe impl GlobalAlloc for MmAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let in_call = IN_CALL.load(Relaxed) > 0;
        if in_call {
            let n = MEET_N.load(Relaxed);
            if n != 0 {
                meet(n);
            }
            let f = FAIL_AT.load(Relaxed);
            if f != 0 {
                let s = FAIL_SEQ.fetch_add(1, SeqCst) + 1;
                if s == f || (s > f && FAIL_ALL_AFTER.load(Relaxed)) {
                    FAILED.fetch_add(1, SeqCst);
                    let note = FAIL_NOTE.load(SeqCst) as *const AtomicU64;
                    if !note.is_null() {
                        (*note).fetch_add(1, SeqCst);
                    }
                    return std::ptr::null_mut();
                }
            }
        }
        note_alloc(layout.size(), in_call);
        #[cfg(not(miri))]
        if in_call && layout.size() >= 64 {
            let mode = HOSTILE.load(Relaxed);
            if mode != 0 {
                let p = guarded(layout, mode);
                if !p.is_null() {
                    return p;
                }
            }
        }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size() as i64, Relaxed);
        #[cfg(not(miri))]
        if USED.load(Relaxed) != 0 {
            for s in TABLE.iter() {
                if s.ptr.load(Relaxed) == ptr as usize {
                    let (size, align) = (s.size.load(SeqCst), s.align.load(SeqCst));
                    if size != layout.size() || align != layout.align() {
                        viol(1, size, align, layout.size(), layout.align());
                    }
                    let f = s.front.load(SeqCst);
                    let b = s.back.load(SeqCst);
                    for i in 0..f {
                        if *ptr.sub(1 + i) != CAN {
                            viol(2, size, align, 1 + i, 0);
                        }
                    }
                    for i in 0..b {
                        if *ptr.add(size + i) != CAN {
                            viol(2, size, align, size + i, 1);
                        }
                    }
                    let base = s.base.load(SeqCst);
                    let ml = s.maplen.load(SeqCst);
                    s.base.store(0, SeqCst);
                    USED.fetch_sub(1, SeqCst);
                    s.ptr.store(0, SeqCst);
                    libc::munmap(base as _, ml);
                    return;
                }
            }
        }
        System.dealloc(ptr, layout)
    }
}
