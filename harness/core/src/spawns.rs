//! Threads created and ended, as counted by the preloaded library (harness/preload/threads.c)
#[derive(Clone, Copy)]
pub struct Spawns {
    count: unsafe extern "C" fn(*mut i64),
    cpu: unsafe extern "C" fn(i64) -> i64,
}

impl Spawns {
    /// None if the library is not there
    pub fn find() -> Option<Spawns> {
        unsafe {
            let a = libc::dlsym(libc::RTLD_DEFAULT, c"mm_threads".as_ptr());
            let b = libc::dlsym(libc::RTLD_DEFAULT, c"mm_thread_cpu".as_ptr());
            if a.is_null() || b.is_null() {
                return None;
            }
            Some(Spawns { count: std::mem::transmute(a), cpu: std::mem::transmute(b) })
        }
    }
    /// (created, ended)
    pub fn now(&self) -> (i64, i64) {
        let mut x = [0i64; 2];
        unsafe { (self.count)(x.as_mut_ptr()) };
        (x[0], x[1])
    }
    /// threads which ended since `from` after using more than `ns` of CPU time
    pub fn busy(&self, from: i64, ns: i64) -> usize {
        let to = self.now().1;
        (from..to).filter(|i| unsafe { (self.cpu)(*i) } > ns).count()
    }
}
