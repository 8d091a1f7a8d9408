//! Concurrent callers.
use crate::case::*;
use crate::elem::*;
use crate::exec::*;
use crate::fuzz::{fail_line, gencfg};
use crate::rng::{mix, Rng};
use crate::{alloc, esc, Args};
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

/// Disturbs the schedule: signals random threads of the process (the library's workers included), whose handler
/// then sleeps or spins for a random short time.
#[cfg(not(miri))]
pub mod noise {
    use super::*;
    pub static SENT: AtomicU64 = AtomicU64::new(0);
    pub static HANDLED: AtomicU64 = AtomicU64::new(0);
    static SEED: AtomicU64 = AtomicU64::new(1);
    extern "C" fn on_usr1(_: i32) {
        let x = mix(SEED.fetch_add(1, Relaxed));
        HANDLED.fetch_add(1, Relaxed);
        unsafe {
            let e = *libc::__errno_location();
            match x % 4 {
                0 => {
                    libc::sched_yield();
                }
                1 => {
                    for _ in 0..(x >> 8) % 3000 {
                        std::hint::spin_loop();
                    }
                }
                _ => {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 8) % 150_000) as i64 };
                    libc::nanosleep(&ts, std::ptr::null_mut());
                }
            }
            *libc::__errno_location() = e;
        }
    }
    pub fn start(seed: u64, stop: &'static AtomicBool) {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_usr1 as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        }
        SEED.store(seed, Relaxed);
        std::thread::spawn(move || {
            let me = unsafe { libc::syscall(libc::SYS_gettid) };
            let pid = std::process::id();
            let mut r = Rng(seed);
            let (mut last, mut since) = (0, std::time::Instant::now());
            while !stop.load(Relaxed) {
                // no progress: fall silent, so that the driver can see whether everybody just sleeps
                let now = crate::heart::count();
                if now != last || now == 0 {
                    last = now;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_secs() >= 5 {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    continue;
                }
                let mut tids: Vec<i64> = vec![];
                if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                    for e in d.flatten() {
                        if let Ok(t) = e.file_name().to_string_lossy().parse::<i64>() {
                            if t != me {
                                tids.push(t);
                            }
                        }
                    }
                }
                for _ in 0..20 {
                    if tids.is_empty() {
                        break;
                    }
                    let t = *r.pick(&tids);
                    unsafe {
                        libc::syscall(libc::SYS_tgkill, pid as i64, t, libc::SIGUSR1 as i64);
                    }
                    SENT.fetch_add(1, Relaxed);
                    std::thread::sleep(std::time::Duration::from_micros(r.below(300)));
                }
            }
        });
    }
}

#[cfg(not(miri))]
fn pin(r: &mut Rng) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let ncpu = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let n = *r.pick(&[1usize, 2, 3, ncpu, ncpu]);
        let first = r.below(ncpu as u64) as usize;
        for i in 0..n.min(ncpu) {
            libc::CPU_SET((first + i) % ncpu, &mut set);
        }
        if let Ok(d) = std::fs::read_dir("/proc/self/task") {
            for e in d.flatten() {
                if let Ok(t) = e.file_name().to_string_lossy().parse::<i32>() {
                    libc::sched_setaffinity(t, std::mem::size_of::<libc::cpu_set_t>(), &set);
                }
            }
        }
    }
}
#[cfg(miri)]
fn pin(_r: &mut Rng) {}

struct Shared {
    order: Mutex<Vec<u16>>,
    seen: Mutex<HashSet<u64>>,
    fails: Mutex<Vec<String>>,
    calls: AtomicU64,
    in_flight: AtomicUsize,
    max_in_flight: AtomicUsize,
}

/// one call on raw interleaved storage
unsafe fn raw_call<T: Elem>(api: &Api, sh: &Shared, tag: u16, f: impl FnOnce(Gemm<T>)) {
    if let Some(g) = T::gemm(api) {
        let n = sh.in_flight.fetch_add(1, SeqCst) + 1;
        sh.max_in_flight.fetch_max(n, SeqCst);
        alloc::IN_CALL.fetch_add(1, SeqCst);
        crate::heart::enter();
        f(g);
        crate::heart::leave();
        alloc::IN_CALL.fetch_sub(1, SeqCst);
        sh.in_flight.fetch_sub(1, SeqCst);
        sh.calls.fetch_add(1, SeqCst);
        sh.order.lock().unwrap().push(tag);
    }
}

#[derive(Clone, Copy)]
struct P<T>(*mut T);
unsafe impl<T> Send for P<T> {}
unsafe impl<T> Sync for P<T> {}
impl<T> P<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

/// T callers share A and B; their destinations partition one buffer (interleaved elements, row bands or column bands).
fn shared_round<T: Elem>(api: &Api, sh: &Shared, callers: usize, seed: u64, tiny: bool) {
    if T::gemm(api).is_none() {
        return;
    }
    let mut r = Rng(seed);
    let r = &mut r;
    let kind = r.below(4);
    let (m, k, n) = if tiny {
        (r.usize(1, 9), r.usize(1, 6), r.usize(1, 9))
    } else if r.chance(1, 3) {
        (r.usize(90, 200), r.usize(120, 300), r.usize(60, 130))
    } else {
        (r.usize(1, 70), r.usize(1, 60), r.usize(1, 70))
    };
    let val = |r: &mut Rng| T::from_parts(r.range(-3, 3) as f64, if T::TY.complex() { r.range(-3, 3) as f64 } else { 0.0 });
    let mut a: Vec<T> = (0..m * k).map(|_| val(r)).collect();
    let mut b: Vec<T> = (0..k * n).map(|_| val(r)).collect();
    // layout of caller t's C
    let total = m * n * callers;
    let lay = |t: usize| -> (usize, Lay) {
        match kind {
            // interleaved element-wise
            0 => (t, Lay { rs: (n * callers) as isize, cs: callers as isize }),
            // interleaved rows: row i of caller t is row i*callers+t of a row major buffer
            1 => (t * n, Lay { rs: (n * callers) as isize, cs: 1 }),
            // side by side column bands of a row major buffer
            2 => (t * n, Lay { rs: (n * callers) as isize, cs: 1 }),
            // side by side row bands of a column major buffer
            _ => (t * m, Lay { rs: 1, cs: (m * callers) as isize }),
        }
    };
    let mut c: Vec<T> = (0..total).map(|_| val(r)).collect();
    let c_old = c.clone();
    let sc: Vec<(i64, i64)> = (0..callers).map(|_| (*r.pick(&[1i64, -1, 2]), *r.pick(&[0i64, 1, -1, 2]))).collect();
    let bar = Barrier::new(callers);
    let (pa, pb, pc) = (P(a.as_mut_ptr()), P(b.as_mut_ptr()), P(c.as_mut_ptr()));
    std::thread::scope(|s| {
        for t in 0..callers {
            let bar = &bar;
            let sc = &sc;
            s.spawn(move || unsafe {
                let (o, l) = lay(t);
                bar.wait();
                raw_call::<T>(api, sh, t as u16, |g| {
                    g(m, k, n, T::from_parts(sc[t].0 as f64, 0.0), pa.get(), k as isize, 1, pb.get(), n as isize, 1,
                      T::from_parts(sc[t].1 as f64, 0.0), pc.get().add(o), l.rs, l.cs)
                });
            });
        }
    });
    for t in 0..callers {
        let (o, l) = lay(t);
        for i in 0..m {
            for j in 0..n {
                let at = (o as isize + i as isize * l.rs + j as isize * l.cs) as usize;
                let (mut re, mut im) = (0.0, 0.0);
                for p in 0..k {
                    let (xr, xi) = a[i * k + p].parts();
                    let (yr, yi) = b[p * n + j].parts();
                    re += xr * yr - xi * yi;
                    im += xr * yi + xi * yr;
                }
                let (or, oi) = c_old[at].parts();
                let w = (sc[t].0 as f64 * re + sc[t].1 as f64 * or, sc[t].0 as f64 * im + sc[t].1 as f64 * oi);
                let g = c[at].parts();
                if g != w {
                    let mut f = sh.fails.lock().unwrap();
                    if f.len() < 3 {
                        f.push(format!(
                            "{{\"ev\":\"FAIL\",\"kind\":\"result\",\"detail\":\"{}\",\"case\":{{\"round\":\"shared inputs, destinations kind {}\",\"op\":\"{}gemm\",\"callers\":{},\"m\":{},\"k\":{},\"n\":{},\"seed\":{}}}}}",
                            esc(&format!("caller {} C[{},{}] = {:?}, alone it would be {:?}", t, i, j, g, w)),
                            kind, T::TY.name(), callers, m, k, n, seed
                        ));
                    }
                    return;
                }
            }
        }
    }
}

pub fn run(api: Api, args: &Args) {
    let g = gencfg(&api, args);
    let callers = args.u64("callers", 4) as usize;
    let rounds = args.u64("rounds", 20);
    let per = args.u64("per", 6);
    let time = args.u64("time", 0);
    let tiny = g.tiny;
    static STOP: AtomicBool = AtomicBool::new(false);
    let sh = Shared {
        order: Mutex::new(vec![]),
        seen: Mutex::new(HashSet::new()),
        fails: Mutex::new(vec![]),
        calls: AtomicU64::new(0),
        in_flight: AtomicUsize::new(0),
        max_in_flight: AtomicUsize::new(0),
    };
    let mut r = Rng::derive(g.seed, 0xC0C0, callers as u64);
    let t0 = std::time::Instant::now();
    #[cfg(not(miri))]
    if args.u64("noise", 0) != 0 {
        noise::start(g.seed, &STOP);
    }
    let mut out = std::io::stdout();
    let mut orders = 0u64;
    let mut envs: Vec<Env> = (0..callers)
        .map(|_| {
            let mut e = Env::new(api, g.blk);
            e.hostile = false;
            e.no_protect = args.u64("noprotect", 0) != 0;
            e
        })
        .collect();
    let mut solo_env = Env::new(api, g.blk);
    solo_env.hostile = false;
    let hostile = args.u64("hostile", 0) as usize;
    let mut done = 0;
    for round in 0..rounds {
        if time > 0 && t0.elapsed().as_secs() >= time {
            break;
        }
        CUR_CASE.store(round, SeqCst);
        crate::heart::beat(round);
        if round > 0 && args.u64("noise", 0) != 0 {
            pin(&mut r);
        }
        if hostile != 0 {
            alloc::HOSTILE.store(1 + (round % 2) as usize, SeqCst);
        }
        let seed = r.u64();
        // the very first round makes the first calls of the process race
        if round % 2 == 1 || (round == 0 && args.u64("first", 0) == 1) {
            match mix(seed) % 4 {
                0 => shared_round::<f32>(&api, &sh, callers, seed, tiny),
                1 => shared_round::<f64>(&api, &sh, callers, seed, tiny),
                2 => shared_round::<[f32; 2]>(&api, &sh, callers, seed, tiny),
                _ => shared_round::<[f64; 2]>(&api, &sh, callers, seed, tiny),
            }
        } else {
            // independent calls of mixed types and sizes
            let bar = Barrier::new(callers);
            let res: Vec<Vec<(Case, u64)>> = std::thread::scope(|s| {
                let hs: Vec<_> = envs
                    .iter_mut()
                    .enumerate()
                    .map(|(t, env)| {
                        let (g, sh, bar) = (&g, &sh, &bar);
                        s.spawn(move || {
                            bar.wait();
                            let mut v = vec![];
                            for q in 0..per {
                                let c = gen_case(g, (round * 64 + t as u64) * 64 + q);
                                let n = sh.in_flight.fetch_add(1, SeqCst) + 1;
                                sh.max_in_flight.fetch_max(n, SeqCst);
                                let o = run_case(env, &c);
                                sh.in_flight.fetch_sub(1, SeqCst);
                                sh.calls.fetch_add(1, SeqCst);
                                sh.order.lock().unwrap().push((t * 64 + q as usize) as u16);
                                for f in &o.fails {
                                    sh.fails.lock().unwrap().push(fail_line(&c, f));
                                }
                                v.push((c, o.hash_bits));
                            }
                            v
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            // alone, afterwards: must be the same bits
            alloc::HOSTILE.store(0, SeqCst);
            if !tiny {
                for (c, h) in res.into_iter().flatten() {
                    if c.k > 0 && c.work() < 3_000_000 {
                        let o = run_case(&mut solo_env, &c);
                        if o.hash_bits != h && o.fails.is_empty() {
                            sh.fails.lock().unwrap().push(fail_line(&c, &Fail { kind: "result", detail: "concurrent result differs from the result of the same call alone".into() }));
                        }
                    }
                }
            }
        }
        alloc::HOSTILE.store(0, SeqCst);
        let o = std::mem::take(&mut *sh.order.lock().unwrap());
        let mut h = 7u64;
        for x in o {
            h = mix(h ^ x as u64);
        }
        orders += 1;
        sh.seen.lock().unwrap().insert(mix(h ^ round));
        done += 1;
        let f = std::mem::take(&mut *sh.fails.lock().unwrap());
        if !f.is_empty() {
            for l in f.iter().take(4) {
                let _ = writeln!(out, "{}", l);
            }
            break;
        }
    }
    STOP.store(true, SeqCst);
    #[cfg(not(miri))]
    let (sent, handled) = (noise::SENT.load(SeqCst), noise::HANDLED.load(SeqCst));
    #[cfg(miri)]
    let (sent, handled) = (0, 0);
    let _ = writeln!(
        out,
        "{{\"ev\":\"STATS\",\"rounds\":{},\"cases\":{},\"max_in_flight\":{},\"completion_orders\":{},\"orders_hash\":[{}],\"delays_sent\":{},\"delays_taken\":{},\"callers\":{},\"wall\":{:.3}}}",
        done, sh.calls.load(SeqCst), sh.max_in_flight.load(SeqCst), orders,
        sh.seen.lock().unwrap().iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","),
        sent, handled, callers, t0.elapsed().as_secs_f64()
    );
    let _ = out.flush();
}
