//! What does a call use, and does it give it back?
use crate::case::*;
use crate::elem::*;
use crate::exec::*;
use crate::fuzz::{fail_line, gencfg};
use crate::rng::mix;
use crate::{alloc, esc, Args};
use std::sync::atomic::Ordering::*;

fn fails(out: &mut Vec<String>, kind: &str, d: String, case: &str) {
    if out.len() < 8 {
        out.push(format!("{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{{{}}}}}", kind, esc(&d), case));
    }
}

/// peak working memory of one call with m, k, n; A and B are single elements (zero strides)
fn peak<T: Elem>(api: &Api, m: usize, k: usize, n: usize) -> Option<i64> {
    let g = T::gemm(api)?;
    let a = [T::from_parts(1.0, 0.0)];
    let b = [T::from_parts(0.5, 0.0)];
    let mut c: Vec<T> = vec![T::from_parts(0.0, 0.0); m * n];
    let live = alloc::LIVE.load(SeqCst);
    alloc::PEAK.store(live, SeqCst);
    alloc::IN_CALL.fetch_add(1, SeqCst); crate::heart::enter();
    unsafe { g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), 0, 0, b.as_ptr(), 0, 0, T::from_parts(0.0, 0.0), c.as_mut_ptr(), n as isize, 1) };
    crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, SeqCst);
    let p = alloc::PEAK.load(SeqCst) - live;
    assert!(c.len() == m * n);
    Some(p)
}

fn sizes<T: Elem>(api: &Api, out: &mut Vec<String>, obs: &mut Vec<String>) {
    if T::gemm(api).is_none() {
        return;
    }
    let t = T::TY.name();
    for _ in 0..3 {
        peak::<T>(api, 200, 300, 200);
    }
    // one dimension at a time far beyond every block size; the amount must not follow
    let dims = |axis: usize, x: usize| match axis {
        0 => (x, 2, 2),
        1 => (2, x, 2),
        _ => (2, 2, x),
    };
    for axis in 0..3 {
        let (m, k, n) = dims(axis, 1 << 17);
        let Some(p0) = peak::<T>(api, m, k, n) else { return };
        for sh in [18, 19, 20, 21] {
            let (m, k, n) = dims(axis, 1 << sh);
            let p = peak::<T>(api, m, k, n).unwrap();
            obs.push(format!("[\"{}\",{},{},{},{}]", t, m, k, n, p));
            if p > p0 + p0 / 4 + 4096 {
                fails(out, "memory", format!("working memory grows with the dimensions: {} bytes at 2^17, {} at 2^{}", p0, p, sh), &format!("\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{}", t, m, k, n));
                break;
            }
        }
    }
    // two or three dimensions at a time
    for f in [(2048usize, 3000usize, 3usize), (3, 3000, 4096), (3000, 4, 3000), (1200, 1200, 1200)] {
        let p = peak::<T>(api, f.0, f.1, f.2).unwrap();
        obs.push(format!("[\"{}\",{},{},{},{}]", t, f.0, f.1, f.2, p));
        if p > 8 << 20 {
            fails(out, "memory", format!("{} bytes of working memory", p), &format!("\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{}", t, f.0, f.1, f.2));
        }
    }
    // small problems: proportional to the operands
    let up = |x: usize| (x + 7) / 8 * 8;
    for &m in &[1usize, 3, 8, 17, 50] {
        for &k in &[1usize, 2, 9, 40, 200] {
            for &n in &[1usize, 5, 8, 30, 70] {
                let p = peak::<T>(api, m, k, n).unwrap();
                let lim = (4 * T::TY.size() * k * (up(m) + up(n))) as i64 + 4096;
                if p > lim {
                    fails(out, "memory", format!("{} bytes of working memory for a small product (limit {})", p, lim), &format!("\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{}", t, m, k, n));
                }
            }
        }
    }
}

#[derive(PartialEq, Debug, Clone)]
pub struct Proc {
    pub threads: usize,
    fds: usize,
    sigmask: u64,
    handlers: u64,
    altstack: (usize, usize),
    env: u64,
    cwd: String,
    umask: String,
    mxcsr: u32,
    x87: u16,
    affinity: u64,
    prio: i32,
    /// thread name, timer slack, scheduling policy, locale, resource limits
    misc: String,
    vm_pages: u64,
}

fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(77, |h, x| mix(h ^ *x as u64))
}

fn x87() -> u16 {
    #[allow(unused_mut)]
    let mut v: u16 = 0;
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("fnstcw [{}]", in(reg) &mut v, options(nostack))
    };
    v
}

pub fn snapshot() -> Proc {
    unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut set);
        let mut sm = 0u64;
        let mut hh = 0u64;
        for s in 1..32 {
            if libc::sigismember(&set, s) == 1 {
                sm |= 1 << s;
            }
            let mut sa: libc::sigaction = std::mem::zeroed();
            libc::sigaction(s, std::ptr::null(), &mut sa);
            hh = mix(hh ^ sa.sa_sigaction as u64 ^ (sa.sa_flags as u64) << 48);
        }
        let mut ss: libc::stack_t = std::mem::zeroed();
        libc::sigaltstack(std::ptr::null(), &mut ss);
        let mut aff: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut aff);
        let raw = std::slice::from_raw_parts(&aff as *const _ as *const u8, std::mem::size_of::<libc::cpu_set_t>());
        let mut e = 1u64;
        for (k, v) in std::env::vars_os() {
            use std::os::unix::ffi::OsStrExt;
            e = e.wrapping_add(mix(hash_bytes(k.as_bytes()) ^ hash_bytes(v.as_bytes()).rotate_left(9)));
        }
        let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
        let umask = status.lines().find(|l| l.starts_with("Umask")).unwrap_or("").to_string();
        let vm = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(0);
        let mut name = [0u8; 17];
        libc::prctl(libc::PR_GET_NAME, name.as_mut_ptr());
        let loc = libc::setlocale(libc::LC_ALL, std::ptr::null());
        let mut misc = format!(
            "{} {} {} {}",
            std::ffi::CStr::from_ptr(name.as_ptr() as *const _).to_string_lossy(),
            libc::prctl(libc::PR_GET_TIMERSLACK),
            libc::sched_getscheduler(0),
            if loc.is_null() { String::new() } else { std::ffi::CStr::from_ptr(loc).to_string_lossy().to_string() }
        );
        for r in 0..16 {
            let mut l: libc::rlimit = std::mem::zeroed();
            if libc::getrlimit(r, &mut l) == 0 {
                misc += &format!(" {:x}/{:x}", l.rlim_cur, l.rlim_max);
            }
        }
        Proc {
            threads: std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0),
            fds: std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0),
            sigmask: sm,
            handlers: hh,
            altstack: (ss.ss_sp as usize, ss.ss_size),
            env: e,
            cwd: std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default(),
            umask,
            mxcsr: mxcsr(),
            x87: x87(),
            affinity: hash_bytes(raw),
            prio: libc::getpriority(libc::PRIO_PROCESS, 0),
            misc,
            vm_pages: vm,
        }
    }
}

impl Proc {
    /// whether anything but the number of threads and the mapped memory differs
    pub fn changed(&self, now: &Proc) -> Option<String> {
        let mut same = now.clone();
        (same.threads, same.vm_pages) = (self.threads, self.vm_pages);
        if same != *self {
            return Some(format!("{:?} -> {:?}", self, now));
        }
        None
    }
}

fn set_mxcsr(v: u32) {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack))
    };
    let _ = v;
}

/// calls with few kilobytes of data, many times
fn many<T: Elem>(api: &Api, reps: usize, ins: &mut Vec<T>) {
    let Some(g) = T::gemm(api) else { return };
    let one = T::from_parts(1.0, 0.0);
    if ins.is_empty() {
        ins.extend((0..3 * 70 * 70).map(|i| T::from_parts((i % 3) as f64, 0.0)));
    }
    for r in 0..reps {
        let (m, k, n) = match r % 16 {
            0 => (60, 70, 65),
            1 => (1, 1, 1),
            2 => (9, 0, 9),
            3 => (0, 3, 3),
            4 => (17, 5, 9),
            _ => (3, 4, 5),
        };
        alloc::IN_CALL.fetch_add(1, SeqCst); crate::heart::enter();
        unsafe {
            let p = ins.as_mut_ptr();
            g(m, k, n, one, p, 70, 1, p.add(70 * 70), 1, 70, T::from_parts(0.0, 0.0), p.add(2 * 70 * 70), 70, 1)
        };
        crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, SeqCst);
    }
}
/// calls large enough to be divided among threads
fn big<T: Elem>(api: &Api, reps: usize) {
    let Some(g) = T::gemm(api) else { return };
    let one = T::from_parts(1.0, 0.0);
    let a: Vec<T> = vec![one; 200 * 200];
    let mut c: Vec<T> = vec![one; 200 * 64];
    for r in 0..reps {
        let (m, k, n) = if r % 2 == 0 { (200, 200, 64) } else { (130, 180, 20) };
        alloc::IN_CALL.fetch_add(1, SeqCst); crate::heart::enter();
        unsafe { g(m, k, n, one, a.as_ptr(), 200, 1, a.as_ptr(), 200, 1, T::from_parts(0.0, 0.0), c.as_mut_ptr(), 64, 1) };
        crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, SeqCst);
    }
}

/// bytes still allocated after a call with much data on a thread that has made small ones only
fn kept(api: &Api) -> (i64, &'static str) {
    fn one<T: Elem>(api: &Api) -> i64 {
        let Some(g) = T::gemm(api) else { return 0 };
        let a = vec![T::from_parts(1.0, 0.0); 900];
        let mut c = vec![T::from_parts(0.0, 0.0); 300 * 1100];
        let call = |m: usize, k: usize, n: usize, c: &mut [T]| {
            alloc::IN_CALL.fetch_add(1, SeqCst); crate::heart::enter();
            unsafe { g(m, k, n, a[0], a.as_ptr(), 1, 1, a.as_ptr(), 1, 0, a[0], c.as_mut_ptr(), n as isize, 1) };
            crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, SeqCst);
        };
        call(2, 3, 2, &mut c);
        let mut most = 0;
        for (m, k, n) in [(20, 30, 40), (70, 270, 1040), (300, 600, 30), (9, 500, 1100)] {
            let l = alloc::LIVE.load(SeqCst);
            call(m, k, n, &mut c);
            most = most.max(alloc::LIVE.load(SeqCst) - l);
        }
        most
    }
    let one_of = |i: usize| match i {
        0 => (one::<f32>(api), "s"),
        1 => (one::<f64>(api), "d"),
        2 => (one::<[f32; 2]>(api), "c"),
        _ => (one::<[f64; 2]>(api), "z"),
    };
    // the least of three: other threads may just be starting or ending
    let mut worst = (0, "");
    for i in 0..4 {
        let r = (0..3).map(|_| std::thread::scope(|s| s.spawn(|| one_of(i)).join().unwrap())).min_by_key(|x| x.0).unwrap();
        if r.0 > worst.0 {
            worst = r;
        }
    }
    worst
}

/// bytes of stack below this frame which a call has used
#[inline(never)]
fn stack_used(f: &mut dyn FnMut()) -> usize {
    const DEPTH: usize = 3 << 20;
    const FILL: u64 = 0xA5C3_5A3C_1234_4321;
    #[inline(never)]
    fn top() -> usize {
        let x = 0u8;
        std::hint::black_box(&x) as *const u8 as usize & !63
    }
    let lo = top() - DEPTH;
    let hi = top() - 1024;
    unsafe {
        for p in (lo..hi).step_by(8) {
            std::ptr::write_volatile(p as *mut u64, FILL);
        }
        f();
        for p in (lo..hi).step_by(8) {
            if std::ptr::read_volatile(p as *const u64) != FILL {
                return hi - p;
            }
        }
    }
    0
}

/// stack use of calls long in one dimension, against that of calls of ordinary size
fn stack<T: Elem>(api: &Api, scale: usize, out: &mut Vec<String>, seen: &mut Vec<usize>) {
    let Some(g) = T::gemm(api) else { return };
    let (m, k, n) = (1_500_000 / scale, 6_000_000 / scale, 1_500_000 / scale);
    let a = T::from_parts(1.0, 0.0);
    let mut c: Vec<T> = vec![a; m.max(n).max(400 * 1100)];
    let mut call = |m: usize, k: usize, n: usize| {
        let rsc = n as isize;
        stack_used(&mut || {
            alloc::IN_CALL.fetch_add(1, SeqCst); crate::heart::enter();
            unsafe { g(m, k, n, a, &a, 0, 0, &a, 0, 0, T::from_parts(0.0, 0.0), c.as_mut_ptr(), rsc, 1) };
            crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, SeqCst);
        })
    };
    call(5, 5, 5);
    let mut base = 0;
    for (m, k, n) in [(3, 3, 3), (200, 520, 3), (3, 520, 1100), (400, 3, 1100), (9, 600, 9)] {
        base = base.max(call(m, k, n));
    }
    seen.push(base);
    for (m, k, n) in [(m, 1, 1), (m, 3, 1), (1, k, 1), (3, k / 4, 2), (1, 1, n), (1, 3, n)] {
        // the least of two: a signal may have come
        let u = call(m, k, n);
        let u = if u > base + 12_288 { call(m, k, n) } else { u };
        seen.push(u);
        if u > base + 12_288 {
            fails(out, "memory", format!("{}gemm({}, {}, {}) uses {} bytes of stack, calls of ordinary size {} at most", T::TY.name(), m, k, n, u, base), "\"workload\":\"stack use of long products\"");
        }
    }
}

pub fn run(api: Api, args: &Args) {
    let mut out: Vec<String> = vec![];
    let mut obs: Vec<String> = vec![];
    let calls = args.u64("calls", 20_000) as usize;
    let bigs = args.u64("big", 150) as usize;
    // standard output and error of the calls go to a file nobody else writes
    let (so, se, mem);
    unsafe {
        so = libc::dup(1);
        se = libc::dup(2);
        mem = libc::memfd_create(c"out".as_ptr(), 0);
        libc::dup2(mem, 1);
        libc::dup2(mem, 2);
    }
    // ---- size of the working memory
    let pf = snapshot();
    let first0 = alloc::LIVE.load(SeqCst);
    sizes::<f32>(&api, &mut out, &mut obs);
    sizes::<f64>(&api, &mut out, &mut obs);
    sizes::<[f32; 2]>(&api, &mut out, &mut obs);
    sizes::<[f64; 2]>(&api, &mut out, &mut obs);
    let first = alloc::LIVE.load(SeqCst) - first0 - obs.iter().map(|x| x.capacity() as i64).sum::<i64>() - (obs.capacity() * std::mem::size_of::<String>()) as i64;
    // the thread pool stays (its threads and queues); nothing of the size of the working memory does
    if first > 32 << 10 && out.is_empty() {
        fails(&mut out, "leak", format!("{} bytes remain allocated after the first calls of the process", first), "\"workload\":\"first calls\"");
    }
    // of the process, only the number of threads and what the memory allocator has mapped may differ after the first calls
    if let Some(d) = pf.changed(&snapshot()) {
        fails(&mut out, "state", format!("process state changed by the first calls: {}", d), "\"workload\":\"first calls\"");
    }
    // ---- repeated calls accumulate nothing
    let (mut i1, mut i2, mut i3, mut i4) = (vec![], vec![], vec![], vec![]);
    let mut round = |reps: usize, b: usize| {
        many::<f32>(&api, reps, &mut i1);
        many::<f64>(&api, reps, &mut i2);
        many::<[f32; 2]>(&api, reps, &mut i3);
        many::<[f64; 2]>(&api, reps, &mut i4);
        big::<f32>(&api, b);
        big::<f64>(&api, b);
        big::<[f32; 2]>(&api, b / 2);
        big::<[f64; 2]>(&api, b / 2);
    };
    round(200, 40);
    let _ = snapshot();
    let p0 = snapshot();
    let live0 = alloc::LIVE.load(SeqCst);
    let allocs0 = alloc::CALL_ALLOCS.load(SeqCst);
    round(calls, bigs);
    let live1 = alloc::LIVE.load(SeqCst);
    let allocs1 = alloc::CALL_ALLOCS.load(SeqCst);
    let p1 = snapshot();
    let total = calls * 4 + bigs * 3;
    if live1 - live0 > 16_384 {
        fails(&mut out, "leak", format!("{} bytes more allocated after {} calls", live1 - live0, total), "\"workload\":\"repeated calls\"");
    }
    if p1.vm_pages > p0.vm_pages + 512 {
        fails(&mut out, "leak", format!("address space grew by {} pages over {} calls", p1.vm_pages - p0.vm_pages, total), "\"workload\":\"repeated calls\"");
    }
    let mut q1 = p1.clone();
    q1.vm_pages = p0.vm_pages;
    if q1 != p0 {
        fails(&mut out, "state", format!("process state changed: {:?} -> {:?}", p0, p1), "\"workload\":\"repeated calls\"");
    }
    // ---- nothing is kept for the thread that called, nor after it ended
    let (kept, kept_by) = kept(&api);
    if kept > 4096 {
        fails(&mut out, "leak", format!("after a {}gemm call on a new thread {} bytes remain allocated", kept_by, kept), "\"workload\":\"one call with much data on a new thread\"");
    }
    let ends = args.u64("threads", 400) as i64;
    let gone = |n: i64| {
        let l = alloc::LIVE.load(SeqCst);
        for i in 0..n {
            std::thread::Builder::new().stack_size(256 << 10).spawn(move || crate::fuzz::warm(&api, 1 + (i % 3) as u64)).unwrap().join().unwrap();
        }
        alloc::LIVE.load(SeqCst) - l
    };
    gone(8);
    let left = gone(ends);
    if left > 4096 {
        fails(&mut out, "leak", format!("{} threads which made calls have ended; {} bytes remain allocated", ends, left), "\"workload\":\"calls on many short-lived threads\"");
    }
    // ---- unusual floating point control state of the caller is left alone
    let modes: [u32; 6] = [0x1f80, 0x1f80 | 0x8000, 0x1f80 | 0x40, 0x1f80 | 0x8040, 0x1f80 | 0x6000, 0x1f80 | 0x2000];
    let mut fpmodes = 0;
    if cfg!(target_arch = "x86_64") {
        for v in modes {
            for (b, f) in [(0usize, 16usize), (2, 0)] {
                set_mxcsr(v);
                round(f, b);
                let now = mxcsr();
                set_mxcsr(0x1f80);
                fpmodes += 1;
                if now != v & 0xffc0 {
                    fails(&mut out, "state", format!("MXCSR control bits {:x} -> {:x}", v & 0xffc0, now), "\"workload\":\"caller with its own floating point modes\"");
                }
            }
        }
    }
    // ---- the stack used does not depend on the dimensions
    let scale = args.u64("stackscale", 1) as usize;
    let (more, stacks) = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let (mut out, mut seen) = (vec![], vec![]);
            stack::<f32>(&api, scale, &mut out, &mut seen);
            stack::<f64>(&api, scale, &mut out, &mut seen);
            stack::<[f32; 2]>(&api, scale, &mut out, &mut seen);
            stack::<[f64; 2]>(&api, scale, &mut out, &mut seen);
            (out, seen)
        })
        .unwrap()
        .join()
        .unwrap();
    out.extend(more);
    // ---- generated calls on a small stack, each giving everything back
    let g = gencfg(&api, args);
    let count = args.u64("count", 300);
    let (leaks, ran) = std::thread::Builder::new()
        .stack_size(192 * 1024)
        .spawn(move || {
            let mut env = Env::new(api, g.blk);
            env.hostile = false;
            let mut v = vec![];
            let mut ran = 0u64;
            for i in 0..count {
                let c = gen_case(&g, i);
                let o = run_case(&mut env, &c);
                ran += 1;
                let up = |x: usize| (x + 7) / 8 * 8;
                let lim = ((4 * c.ty.size()) as u128 * c.k as u128 * (up(c.m) + up(c.n)) as u128).min(8 << 20) as i64 + 4096;
                if o.peak > lim && v.len() < 3 {
                    v.push(fail_line(&c, &Fail { kind: "memory", detail: format!("{} bytes of working memory (limit {})", o.peak, lim) }));
                }
                for f in o.fails.iter().filter(|f| f.kind == "fpstate" || f.kind == "alloc") {
                    v.push(fail_line(&c, f));
                }
            }
            (v, ran)
        })
        .unwrap()
        .join()
        .unwrap();
    out.extend(leaks);
    // ---- nothing was printed
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let printed = unsafe {
        let n = libc::lseek(mem, 0, libc::SEEK_END);
        libc::dup2(so, 1);
        libc::dup2(se, 2);
        n
    };
    if printed != 0 {
        fails(&mut out, "state", format!("{} bytes were written to standard output/error", printed), "\"workload\":\"all\"");
    }
    for f in &out {
        println!("{}", f);
    }
    println!(
        "{{\"ev\":\"STATS\",\"cases\":{},\"repeated_calls\":{},\"in_call_allocations\":{},\"live_delta\":{},\"kept_by_first_calls\":{},\"kept_after_big_call\":{},\"left_by_ended_threads\":{},\"vm_page_delta\":{},\"fp_modes\":{},\"threads\":{},\"fds\":{},\"stack_bytes\":{:?},\"peaks\":[{}],\"fails\":{}}}",
        ran as usize + total, total, allocs1 - allocs0, live1 - live0, first, kept, left, p1.vm_pages as i64 - p0.vm_pages as i64, fpmodes, p1.threads, p1.fds, stacks,
        obs.iter().step_by(3).cloned().collect::<Vec<_>>().join(","), out.len()
    );
    let _ = std::io::stdout().flush();
}

/// working memory of one call just beyond the block sizes, per type
pub fn peaks(api: Api, args: &Args) {
    let b = args.blk();
    let mut o = vec![];
    let mut one = |t: usize, f: &dyn Fn(&Api, usize, usize, usize) -> Option<i64>| {
        let (m, k, n) = (b[t].mc + 1, b[t].kc + 1, b[t].nc + 1);
        // The least of three: the first calls of a process start the pool threads, which allocate for themselves
        let least = |m: usize, k: usize, n: usize| (0..3).filter_map(|_| f(&api, m, k, n)).min();
        least(200, 300, 200);
        if let Some(p) = least(m, k, n) {
            o.push(format!("{{\"type\":\"{}\",\"size\":{},\"mc\":{},\"kc\":{},\"nc\":{},\"peak\":{},\"peak_default\":{}}}", Ty::ALL[t].name(), Ty::ALL[t].size(), b[t].mc, b[t].kc, b[t].nc, p,
                least(400, 300, 1100).unwrap_or(0)));
        }
    };
    one(0, &peak::<f32>);
    one(1, &peak::<f64>);
    one(2, &peak::<[f32; 2]>);
    one(3, &peak::<[f64; 2]>);
    println!("{{\"ev\":\"STATS\",\"cases\":8,\"peaks\":[{}]}}", o.join(","));
}
