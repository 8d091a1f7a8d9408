//! Turns fatal signals during a call under test into a report line naming the case and what was hit.
#[cfg(not(miri))]
pub fn install() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGSYS] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = handler as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
#[cfg(miri)]
pub fn install() {}

#[cfg(not(miri))]
fn put(buf: &mut [u8; 512], n: &mut usize, s: &[u8]) {
    for &b in s {
        if *n < buf.len() {
            buf[*n] = b;
            *n += 1;
        }
    }
}
#[cfg(not(miri))]
fn num(buf: &mut [u8; 512], n: &mut usize, mut v: u64) {
    let mut t = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        t[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    put(buf, n, &t[i..]);
}

#[cfg(not(miri))]
extern "C" fn handler(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    use std::sync::atomic::Ordering::*;
    unsafe {
        let in_call = crate::alloc::IN_CALL.load(SeqCst) > 0;
        let addr = if sig == libc::SIGSEGV || sig == libc::SIGBUS { (*info).si_addr() as usize } else { 0 };
        let mut write = 2u64;
        #[cfg(target_arch = "x86_64")]
        if sig == libc::SIGSEGV {
            let u = uc as *const libc::ucontext_t;
            write = ((*u).uc_mcontext.gregs[libc::REG_ERR as usize] as u64 >> 1) & 1;
        }
        let _ = uc;
        let region: &[u8] = match crate::arena::find(addr) {
            Some(b'A') => b"A",
            Some(b'B') => b"B",
            Some(b'C') => b"C",
            _ if sig != libc::SIGSEGV => b"none",
            _ if addr < 65536 => b"null",
            _ if crate::alloc::near_block(addr) => b"working-memory",
            _ => b"other",
        };
        let mut b = [0u8; 512];
        let mut n = 0;
        put(&mut b, &mut n, b"\n{\"ev\":\"CRASH\",\"signal\":");
        num(&mut b, &mut n, sig as u64);
        put(&mut b, &mut n, b",\"in_call\":");
        num(&mut b, &mut n, in_call as u64);
        put(&mut b, &mut n, b",\"case\":");
        let cur = crate::exec::CUR_CASE.load(SeqCst);
        if cur == u64::MAX {
            put(&mut b, &mut n, b"-1");
        } else {
            num(&mut b, &mut n, cur);
        }
        put(&mut b, &mut n, b",\"write\":");
        num(&mut b, &mut n, write);
        put(&mut b, &mut n, b",\"region\":\"");
        put(&mut b, &mut n, region);
        put(&mut b, &mut n, b"\",\"addr\":");
        num(&mut b, &mut n, addr as u64);
        put(&mut b, &mut n, b"}\n");
        libc::write(1, b.as_ptr() as _, n);
        libc::_exit(98);
    }
}
