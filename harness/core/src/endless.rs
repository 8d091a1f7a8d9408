//! Products so long that they can not be finished: started in a child process and ended from outside after a moment.
//! Until then the call has to be at work: no panic, no crash, no early return.
use crate::elem::*;
use crate::{alloc, esc, Args};
use std::io::Write;

struct Obs {
    fails: Vec<String>,
    running: u64,
    empty: u64,
    calls: u64,
}

fn one<T: Elem>(api: &Api, m: usize, k: usize, n: usize, ms: u64, o: &mut Obs) {
    let Some(g) = T::gemm(api) else { return };
    let a = [T::from_parts(1.0, 0.0)];
    let b = [T::from_parts(1.0, 0.0)];
    let mut c = vec![T::from_parts(0.0, 0.0); m * n];
    o.calls += 1;
    let (st, out) = child(ms, true, || unsafe { g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), 0, 0, b.as_ptr(), 0, 0, T::from_parts(1.0, 0.0), c.as_mut_ptr(), n as isize, 1) });
    let mut bad = |kind: &str, d: String| o.fails.push(fail(T::TY, m, k, n, kind, &d));
    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
        o.running += 1;
    } else if libc::WIFSIGNALED(st) {
        bad("crash:call:x", format!("signal {} in a product of enormous size", libc::WTERMSIG(st)));
    } else if libc::WEXITSTATUS(st) == 4 {
        bad("panic", format!("the call panicked: {}", &out[..out.len().min(300)]));
    } else {
        bad("result", format!("a product with {} terms per element returned within {} ms (status {:x})", k, ms, st));
    }
}

/// Products without elements, whose other dimensions are as large as can be: they return at once and touch nothing
fn empty<T: Elem>(api: &Api, m: usize, k: usize, n: usize, st: [isize; 6], o: &mut Obs) {
    let Some(g) = T::gemm(api) else { return };
    o.calls += 1;
    let al = std::mem::align_of::<T>();
    for be in [0.0, 1.0, 2.0] {
        let (st, out) = child(8000, false, || unsafe {
            g(m, k, n, T::from_parts(1.0, 0.0), al as *const T, st[0], st[1], al as *const T, st[2], st[3], T::from_parts(be, 0.0), al as *mut T, st[4], st[5])
        });
        let mut bad = |kind: &str, d: String| o.fails.push(fail(T::TY, m, k, n, kind, &d));
        if libc::WIFSIGNALED(st) && (libc::WTERMSIG(st) == libc::SIGALRM || libc::WTERMSIG(st) == libc::SIGVTALRM) {
            bad("hang:call:empty", format!("a product without elements did not return within 8 s of CPU time (beta {})", be));
        } else if libc::WIFSIGNALED(st) {
            bad("crash:call:x", format!("signal {} in a product without elements (beta {})", libc::WTERMSIG(st), be));
        } else if libc::WEXITSTATUS(st) == 4 {
            bad("panic", format!("the call panicked: {} (beta {})", &out[..out.len().min(300)], be));
        } else {
            o.empty += 1;
        }
    }
}

fn fail(ty: Ty, m: usize, k: usize, n: usize, kind: &str, d: &str) -> String {
    format!("{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{{\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{}}}}}", kind, esc(d), ty.name(), m, k, n)
}

/// runs f in a child process, for at most ms milliseconds of time (or of CPU time)
fn child<F: FnOnce()>(ms: u64, real: bool, f: F) -> (i32, String) {
    unsafe {
        let mut pipe = [0i32; 2];
        libc::pipe(pipe.as_mut_ptr());
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid == 0 {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM] {
                libc::signal(s, libc::SIG_DFL);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::dup2(pipe[1], 2);
            libc::dup2(pipe[1], 1);
            let _ = std::panic::take_hook();
            libc::signal(libc::SIGVTALRM, libc::SIG_DFL);
            let t = |ms: u64| libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: (ms / 1000) as _, tv_usec: (ms % 1000 * 1000) as _ } };
            if real {
                libc::setitimer(libc::ITIMER_REAL, &t(ms), std::ptr::null_mut());
            } else {
                libc::setitimer(libc::ITIMER_VIRTUAL, &t(ms), std::ptr::null_mut());
                libc::setitimer(libc::ITIMER_REAL, &t(20 * ms), std::ptr::null_mut());
            }
            alloc::IN_CALL.store(1, std::sync::atomic::Ordering::SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 3 } else { 4 });
        }
        libc::close(pipe[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(pipe[0], buf.as_mut_ptr() as _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(pipe[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let out = String::from_utf8_lossy(&out).replace('\n', " ");
        (st, out)
    }
}

pub fn run(api: Api, args: &Args) {
    let ms = args.u64("ms", 250);
    let mut o = Obs { fails: vec![], running: 0, empty: 0, calls: 0 };
    if args.str("what", "long") == "empty" {
        return empties(api, args, o);
    }
    let w = usize::MAX;
    for &(m, k, n) in &[(1, w, 1), (1, w / 2 + 1, 1), (1, 1usize << 62, 2), (300, w / 300, 1), (300, w / 16, 5), (1, w - 255, 1), (9, (1usize << 61) + 1, 9), (128, 1 << 57, 128)] {
        one::<f64>(&api, m, k, n, ms, &mut o);
        one::<f32>(&api, m, k, n, ms, &mut o);
        if m < 9 {
            one::<[f32; 2]>(&api, m, k, n, ms, &mut o);
            one::<[f64; 2]>(&api, m, k, n, ms, &mut o);
        }
    }
    report(&o);
}

fn report(o: &Obs) {
    for f in o.fails.iter().take(5) {
        println!("{}", f);
    }
    println!("{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"still_running\":{},\"empty_returned\":{},\"fails\":{}}}", o.calls, o.calls, o.running, o.empty, o.fails.len());
    let _ = std::io::stdout().flush();
}

fn empties(api: Api, args: &Args, mut o: Obs) {
    let mut r = crate::rng::Rng::derive(args.u64("seed", 1), 0xE3, 0);
    let w = usize::MAX;
    let big = [w, w / 2, w / 2 + 1, 1 << 62, 1 << 32, (1 << 32) + 1, w / 3, w / 8, w / 16 + 1, 1 << 31, 1 << 48, 1, 2, 1000];
    let dims = |r: &mut crate::rng::Rng| match r.usize(0, 2) {
        0 => (0, *r.pick(&big), *r.pick(&big)),
        1 => (0, *r.pick(&big), *r.pick(&[0, 1, 7, 1000])),
        _ => (*r.pick(&[0, 1, 2, 9, 300, 1000]), *r.pick(&big), 0),
    };
    let strides = [1isize, -1, 2, 3, -7, 1000, isize::MAX, isize::MIN, isize::MAX / 2, -(1 << 40), 1 << 33];
    for i in 0..args.u64("count", 60) {
        let (m, k, n) = dims(&mut r);
        let mut st = [0isize; 6];
        for s in st.iter_mut() {
            *s = *r.pick(&strides);
        }
        match i % 4 {
            0 => empty::<f32>(&api, m, k, n, st, &mut o),
            1 => empty::<f64>(&api, m, k, n, st, &mut o),
            2 => empty::<[f32; 2]>(&api, m, k, n, st, &mut o),
            _ => empty::<[f64; 2]>(&api, m, k, n, st, &mut o),
        }
    }
    report(&o);
}
