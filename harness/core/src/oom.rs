//! Allocation failure injection.  Every injection runs in a forked child; the destination lives in memory shared with
//! the parent, which inspects it after the child's end.
use crate::elem::*;
use crate::rng::Rng;
use crate::{alloc, esc, Args};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::Ordering::*;

struct Obs {
    fails: Vec<String>,
    count: BTreeMap<String, u64>,
    fired: u64,
}

unsafe fn read_all(fd: i32) -> String {
    let mut s = vec![];
    let mut b = [0u8; 4096];
    loop {
        let n = libc::read(fd, b.as_mut_ptr() as _, b.len());
        if n <= 0 {
            break;
        }
        s.extend_from_slice(&b[..n as usize]);
    }
    String::from_utf8_lossy(&s).replace('\n', " ")
}

/// one injection; returns false if the fault did not fire any more
#[allow(clippy::too_many_arguments)]
fn inject<T: Elem>(api: &Api, o: &mut Obs, seed: u64, dims: (usize, usize, usize), beta: i64, nth: u64, all: bool, warm: bool) -> bool {
    let Some(g) = T::gemm(api) else { return false };
    let (m, k, n) = dims;
    let mut r = Rng(seed);
    let v = |r: &mut Rng| T::from_parts(r.range(-3, 3) as f64, if T::TY.complex() { r.range(-3, 3) as f64 } else { 0.0 });
    let a: Vec<T> = (0..m * k).map(|_| v(&mut r)).collect();
    let b: Vec<T> = (0..k * n).map(|_| v(&mut r)).collect();
    let bytes = m * n * std::mem::size_of::<T>() + 64;
    let case = format!(
        "\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{},\"beta\":{},\"fail_request\":{},\"all_later\":{},\"warm\":{}",
        T::TY.name(), m, k, n, beta, nth, all, warm
    );
    unsafe {
        let map = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(map != libc::MAP_FAILED);
        // header: [0] requests failed, [1] call returned
        let hdr = map as *mut u64;
        let c = (map as *mut u8).add(64) as *mut T;
        let old: Vec<T> = (0..m * n).map(|_| v(&mut r)).collect();
        for (i, x) in old.iter().enumerate() {
            c.add(i).write(*x);
        }
        let mut pipe = [0i32; 2];
        libc::pipe(pipe.as_mut_ptr());
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid == 0 {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::signal(s, libc::SIG_DFL);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::close(pipe[0]);
            libc::dup2(pipe[1], 2);
            libc::dup2(pipe[1], 1);
            libc::alarm(60);
            if warm {
                // start-up work done: only what this call needs itself is requested below
                let mut tmp: Vec<T> = old.clone();
                for _ in 0..2 {
                    g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), k as isize, 1, b.as_ptr(), n as isize, 1, T::from_parts(1.0, 0.0), tmp.as_mut_ptr(), n as isize, 1);
                }
            }
            let _ = std::panic::take_hook();
            let hdr_call = || {
                g(m, k, n, T::from_parts(2.0, 0.0), a.as_ptr(), k as isize, 1, b.as_ptr(), n as isize, 1, T::from_parts(beta as f64, 0.0), c, n as isize, 1)
            };
            SHARED.store(hdr as usize, SeqCst);
            alloc::FAIL_SEQ.store(0, SeqCst);
            alloc::FAIL_ALL_AFTER.store(all, SeqCst);
            alloc::FAIL_NOTE.store(hdr as usize, SeqCst);
            alloc::FAIL_AT.store(nth, SeqCst);
            alloc::IN_CALL.store(1, SeqCst);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(hdr_call));
            alloc::IN_CALL.store(0, SeqCst);
            alloc::FAIL_AT.store(0, SeqCst);
            hdr.add(1).write_volatile(if res.is_ok() { 1 } else { 2 });
            libc::_exit(0);
        }
        libc::close(pipe[1]);
        let err = read_all(pipe[0]);
        libc::close(pipe[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let fired = hdr.read_volatile();
        let returned = hdr.add(1).read_volatile();
        let untouched = (0..m * n).all(|i| (*c.add(i)).bits() == old[i].bits());
        let right = || -> Option<(usize, usize)> {
            for i in 0..m {
                for j in 0..n {
                    let (mut re, mut im) = (0.0, 0.0);
                    for p in 0..k {
                        let (x, y) = (a[i * k + p].parts(), b[p * n + j].parts());
                        re += x.0 * y.0 - x.1 * y.1;
                        im += x.0 * y.1 + x.1 * y.0;
                    }
                    let q = old[i * n + j].parts();
                    let w = (2.0 * re + beta as f64 * q.0, 2.0 * im + beta as f64 * q.1);
                    if (*c.add(i * n + j)).parts() != w {
                        return Some((i, j));
                    }
                }
            }
            None
        };
        let bad = |o: &mut Obs, d: String| {
            if o.fails.len() < 4 {
                o.fails.push(format!("{{\"ev\":\"FAIL\",\"kind\":\"oom\",\"detail\":\"{}\",\"case\":{{{}}}}}", esc(&d), case));
            }
        };
        let what;
        if returned == 1 {
            what = if fired > 0 { "returned-complete" } else { "no-fault" };
            if let Some((i, j)) = right() {
                bad(o, format!("the call returned after {} failed allocation(s), and C[{},{}] is wrong", fired, i, j));
            }
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGABRT && err.contains("memory allocation of") {
                what = if untouched { "alloc-error-c-untouched" } else { "alloc-error" };
                if all && nth == 1 && warm && !untouched {
                    bad(o, "no working memory was available, but C had been modified when the process stopped".into());
                }
            } else if sig == libc::SIGALRM {
                what = "hang";
                bad(o, format!("the call did not end within 60 s after {} failed allocation(s)", fired));
            } else {
                what = "other-signal";
                bad(o, format!("signal {} instead of the allocation-error mechanism; stderr: {}", sig, &err[..err.len().min(200)]));
            }
        } else if returned == 2 {
            what = "panic";
            bad(o, format!("the call panicked instead of using the allocation-error mechanism: {}", &err[..err.len().min(200)]));
        } else {
            what = "exit";
            bad(o, format!("the process exited with status {:x}: {}", st, &err[..err.len().min(200)]));
        }
        *o.count.entry(what.to_string()).or_insert(0) += 1;
        o.fired += (fired > 0) as u64;
        libc::munmap(map, bytes);
        fired > 0
    }
}
static SHARED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn run(api: Api, args: &Args) {
    let seed = args.u64("seed", 1);
    let shapes = args.u64("shapes", 6);
    let mut o = Obs { fails: vec![], count: BTreeMap::new(), fired: 0 };
    let mut r = Rng::derive(seed, 0x00D, args.u64("start", 0));
    let mut distinct = 0u64;
    for s in 0..shapes {
        let dims = match s % 6 {
            0 => (r.usize(1, 9), r.usize(1, 9), r.usize(1, 9)),
            1 => (r.usize(90, 200), r.usize(100, 300), r.usize(30, 200)),
            2 => (r.usize(1, 30), r.usize(257, 600), r.usize(1, 30)),
            3 => (r.usize(1, 6), r.usize(1, 12), r.usize(1020, 1100)),
            4 => (r.usize(128, 300), r.usize(129, 300), r.usize(1, 20)),
            _ => (r.usize(1, 70), r.usize(1, 70), r.usize(1, 70)),
        };
        let beta = *r.pick(&[0i64, 1, -1]);
        for t in 0..4 {
            for warm in [true, false] {
                for all in [true, false] {
                    for nth in 1..60 {
                        let sd = r.u64();
                        let fired = match t {
                            0 => inject::<f32>(&api, &mut o, sd, dims, beta, nth, all, warm),
                            1 => inject::<f64>(&api, &mut o, sd, dims, beta, nth, all, warm),
                            2 => inject::<[f32; 2]>(&api, &mut o, sd, dims, beta, nth, all, warm),
                            _ => inject::<[f64; 2]>(&api, &mut o, sd, dims, beta, nth, all, warm),
                        };
                        distinct += fired as u64;
                        if !fired || o.fails.len() >= 3 {
                            break;
                        }
                    }
                }
            }
        }
        if o.fails.len() >= 3 {
            break;
        }
    }
    for f in &o.fails {
        println!("{}", f);
    }
    let cnt: Vec<String> = o.count.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!("{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"faults_fired\":{},\"count\":{{{}}},\"fails\":{}}}", o.count.values().sum::<u64>(), distinct, o.fired, cnt.join(","), o.fails.len());
    let _ = std::io::stdout().flush();
}
