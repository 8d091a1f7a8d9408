//! Memory in which the matrices of a case live.
//!
//! Native: reserved regions between inaccessible guard pages; a matrix is placed flush against either guard or at a
//! chosen misalignment in between, with canary bytes around it.  Inputs are made read-only while a call runs.
//! Interpreter: exact-size separate allocations (the interpreter checks bounds itself), holes left uninitialised.
use crate::case::Place;

pub const PAGE: usize = 4096;
const MARGIN: usize = 512;
const CANARY: u8 = 0xC3;

pub struct Arena {
    #[cfg(not(miri))]
    base: *mut u8,
    #[cfg(not(miri))]
    cap: usize,
    // current placement
    pub start: *mut u8,
    pub len: usize,
    #[cfg(miri)]
    layout: Option<std::alloc::Layout>,
    pub name: &'static str,
    sparse: bool,
}
unsafe impl Send for Arena {}

#[cfg(not(miri))]
mod registry {
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    pub const MAX: usize = 256;
    pub static LO: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
    pub static HI: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
    pub static NAME: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
    pub static N: AtomicUsize = AtomicUsize::new(0);
    pub fn add(lo: usize, hi: usize, name: &'static str) {
        let i = N.fetch_add(1, SeqCst);
        if i < MAX {
            LO[i].store(lo, SeqCst);
            HI[i].store(hi, SeqCst);
            NAME[i].store(name.as_ptr() as usize, SeqCst);
        }
    }
    /// first byte of the arena's name containing addr (async signal safe)
    pub fn find(addr: usize) -> Option<u8> {
        let n = N.load(SeqCst).min(MAX);
        for i in 0..n {
            if addr >= LO[i].load(SeqCst) && addr < HI[i].load(SeqCst) {
                let p = NAME[i].load(SeqCst) as *const u8;
                return Some(unsafe { *p });
            }
        }
        None
    }
}
#[cfg(not(miri))]
pub use registry::find;

#[cfg(not(miri))]
impl Arena {
    pub fn new(name: &'static str, cap: usize) -> Arena {
        let cap = (cap + PAGE - 1) & !(PAGE - 1);
        unsafe {
            let g = 64 * PAGE;
            let p = libc::mmap(
                std::ptr::null_mut(),
                cap + 2 * g,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap arena");
            let base = (p as *mut u8).add(g);
            assert_eq!(libc::mprotect(base as _, cap, libc::PROT_READ | libc::PROT_WRITE), 0, "mprotect arena");
            // no huge pages: they would make sparse matrices expensive
            libc::madvise(base as _, cap, libc::MADV_NOHUGEPAGE);
            registry::add(p as usize, p as usize + cap + 2 * g, name);
            Arena { base, cap, start: base, len: 0, name, sparse: cap as u64 > (1u64 << 32) }
        }
    }
    /// Lay out `len` bytes; returns their start.
    pub fn place(&mut self, len: usize, _align: usize, place: Place) -> *mut u8 {
        assert!(len + 4 * PAGE <= self.cap, "arena too small: {}", len);
        let off = match place {
            Place::End => self.cap - len,
            Place::Start => 0,
            Place::Mid(d) => PAGE + d,
        };
        self.start = unsafe { self.base.add(off) };
        self.len = len;
        if !self.sparse {
            let (l, h) = self.margins();
            unsafe {
                std::ptr::write_bytes(self.start.sub(l), CANARY, l);
                std::ptr::write_bytes(self.start.add(len), CANARY, h);
            }
        }
        self.start
    }
    fn margins(&self) -> (usize, usize) {
        let off = self.start as usize - self.base as usize;
        (off.min(MARGIN), (self.cap - off - self.len).min(MARGIN))
    }
    pub fn check_margins(&self) -> Option<isize> {
        if self.sparse {
            return None;
        }
        let (l, h) = self.margins();
        unsafe {
            for i in 1..=l {
                if *self.start.sub(i) != CANARY {
                    return Some(-(i as isize));
                }
            }
            for i in 0..h {
                if *self.start.add(self.len + i) != CANARY {
                    return Some((self.len + i) as isize);
                }
            }
        }
        None
    }
    pub fn protect(&self, ro: bool) {
        let (l, h) = self.margins();
        let lo = (self.start as usize - l) & !(PAGE - 1);
        let hi = (self.start as usize + self.len + h + PAGE - 1) & !(PAGE - 1);
        let prot = if ro { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe {
            assert_eq!(libc::mprotect(lo as _, hi - lo, prot), 0, "mprotect");
        }
    }
    /// no access at all to the arena (operands which must not be touched)
    pub fn forbid(&self, none: bool) {
        let prot = if none { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe {
            assert_eq!(libc::mprotect(self.base as _, self.cap, prot), 0);
        }
    }
    pub fn base(&self) -> *mut u8 {
        self.base
    }
    /// margins as byte ranges relative to start (for memcheck annotations)
    pub fn margin_ranges(&self) -> [(*mut u8, usize); 2] {
        let (l, h) = self.margins();
        unsafe { [(self.start.sub(l), l), (self.start.add(self.len), h)] }
    }
    /// forget touched pages (sparse use)
    pub fn drop_pages(&self) {
        unsafe {
            libc::madvise(self.base as _, self.cap, libc::MADV_DONTNEED);
        }
    }
}

#[cfg(miri)]
impl Arena {
    pub fn new(name: &'static str, _cap: usize) -> Arena {
        Arena { start: std::ptr::null_mut(), len: 0, layout: None, name, sparse: false }
    }
    pub fn place(&mut self, len: usize, align: usize, place: Place) -> *mut u8 {
        self.free();
        // exactly what is needed, aligned as the elements require only
        let _ = place;
        let l = std::alloc::Layout::from_size_align(len.max(1), align).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        self.layout = Some(l);
        self.start = p;
        self.len = len;
        p
    }
    fn free(&mut self) {
        if let Some(l) = self.layout.take() {
            unsafe { std::alloc::dealloc(self.start, l) }
        }
    }
    pub fn check_margins(&self) -> Option<isize> {
        let _ = (self.sparse, MARGIN, CANARY);
        None
    }
    pub fn protect(&self, _ro: bool) {}
    pub fn forbid(&self, _none: bool) {}
    pub fn base(&self) -> *mut u8 {
        8 as *mut u8
    }
    pub fn margin_ranges(&self) -> [(*mut u8, usize); 2] {
        [(self.start, 0), (self.start, 0)]
    }
    pub fn drop_pages(&self) {}
}
#[cfg(miri)]
impl Drop for Arena {
    fn drop(&mut self) {
        self.free()
    }
}
