//! Very many calls, on very many threads, every one of them verified.  All calls of one thread use the same memory,
//! whose contents change from call to call.
use crate::elem::*;
use crate::rng::Rng;
use crate::{alloc, esc, Args};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

struct Task<T> {
    m: usize,
    k: usize,
    n: usize,
    st: [isize; 6],
    alpha: T,
    beta: T,
    a: Vec<T>,
    b: Vec<T>,
    c: Vec<T>,
    want: Vec<T>,
}

const SIZES: [(usize, usize, usize); 16] = [(1, 1, 1), (2, 1, 2), (3, 2, 2), (1, 4, 3), (4, 4, 4), (8, 3, 8), (9, 2, 9), (8, 8, 8), (2, 2, 1), (5, 0, 3), (1, 1, 1), (2, 2, 2), (17, 4, 5), (3, 9, 33), (1, 16, 1), (4, 1, 8)];

fn tasks<T: Elem>(r: &mut Rng, count: usize) -> Vec<Task<T>> {
    let cx = T::TY.complex();
    (0..count)
        .map(|i| {
            let (m, k, n) = SIZES[(i / 2) % SIZES.len()];
            let val = |r: &mut Rng| (r.range(-4, 4), if cx { r.range(-4, 4) } else { 0 });
            let el = |x: (i64, i64)| T::from_parts(x.0 as f64, x.1 as f64);
            let lay = |r: &mut Rng, p: usize, q: usize| if r.chance(1, 2) { (q.max(1) as isize, 1isize) } else { (1, p.max(1) as isize) };
            let (rsa, csa) = lay(r, m, k);
            let (rsb, csb) = lay(r, k, n);
            let (rsc, csc) = lay(r, m, n);
            let mut st = [rsa, csa, rsb, csb, rsc, csc];
            if r.chance(1, 4) {
                // one element, repeated
                st[0] = 0;
                st[1] = 0;
            }
            let av: Vec<_> = (0..(m * k).max(1)).map(|_| val(r)).collect();
            let bv: Vec<_> = (0..(k * n).max(1)).map(|_| val(r)).collect();
            let cv: Vec<_> = (0..m * n).map(|_| val(r)).collect();
            let al = (*r.pick(&[1, 1, 2, -1, 0]), if cx { *r.pick(&[0, 0, 1, -2]) } else { 0 });
            let be = (*r.pick(&[0, 1, 1, -1, 2]), if cx { *r.pick(&[0, 0, 0, 1, 3]) } else { 0 });
            let mul = |x: (i64, i64), y: (i64, i64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
            let at = |rs: isize, cs: isize, i: usize, j: usize| (i as isize * rs + j as isize * cs) as usize;
            let mut want = cv.clone();
            for i in 0..m {
                for j in 0..n {
                    let mut s = (0, 0);
                    for p in 0..k {
                        let x = mul(av[at(st[0], st[1], i, p)], bv[at(st[2], st[3], p, j)]);
                        s = (s.0 + x.0, s.1 + x.1);
                    }
                    let (x, y) = (mul(al, s), mul(be, cv[at(rsc, csc, i, j)]));
                    want[at(rsc, csc, i, j)] = (x.0 + y.0, x.1 + y.1);
                }
            }
            let v = |x: &[(i64, i64)]| x.iter().map(|x| el(*x)).collect::<Vec<T>>();
            let mut t = Task { m, k, n, st, alpha: el(al), beta: el(be), a: v(&av), b: v(&bv), c: v(&cv), want: v(&want) };
            if i % 2 == 1 {
                // values which round: the first call decides
                let mut fr = || T::from_parts(r.f01() * 2.0 - 1.0, if cx { r.f01() - 0.5 } else { 0.0 });
                for x in t.a.iter_mut().chain(t.b.iter_mut()).chain(t.c.iter_mut()) {
                    *x = fr();
                }
                if i % 4 == 1 {
                    t.alpha = fr();
                    t.beta = fr();
                }
                t.want.clear();
            }
            t
        })
        .collect()
}

/// on a thread of its own
fn first<T: Elem>(api: &Api, t: &mut [Task<T>]) {
    let Some(g) = T::gemm(api) else { return };
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut w = Mem::new();
            for t in t.iter_mut().filter(|t| t.want.is_empty()) {
                let _ = call(g, t, &mut w);
                t.want = w.c[..t.c.len()].to_vec();
            }
        });
    });
}

/// the memory of one caller
struct Mem<T> {
    a: Vec<T>,
    b: Vec<T>,
    c: Vec<T>,
}
impl<T: Elem> Mem<T> {
    fn new() -> Self {
        let z = T::from_parts(7.0, 0.0);
        Mem { a: vec![z; 400], b: vec![z; 400], c: vec![z; 400] }
    }
}

fn call<T: Elem>(g: Gemm<T>, t: &Task<T>, w: &mut Mem<T>) -> Result<(), String> {
    w.a[..t.a.len()].copy_from_slice(&t.a);
    w.b[..t.b.len()].copy_from_slice(&t.b);
    w.c[..t.c.len()].copy_from_slice(&t.c);
    let s = &t.st;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { g(t.m, t.k, t.n, t.alpha, w.a.as_ptr(), s[0], s[1], w.b.as_ptr(), s[2], s[3], t.beta, w.c.as_mut_ptr(), s[4], s[5]) }));
    if r.is_err() {
        return Err("the call panicked".into());
    }
    for (i, x) in t.want.iter().enumerate() {
        let y = w.c[i];
        let (p, q) = (x.parts(), y.parts());
        if (p.0 != q.0 && p.0 == p.0) || (p.1 != q.1 && p.1 == p.1) {
            return Err(format!("element {} of C is {:?}, not {:?}", i, y.parts(), x.parts()));
        }
    }
    Ok(())
}

struct All {
    s: Vec<Task<f32>>,
    d: Vec<Task<f64>>,
    c: Vec<Task<[f32; 2]>>,
    z: Vec<Task<[f64; 2]>>,
}
struct Caller {
    s: Mem<f32>,
    d: Mem<f64>,
    c: Mem<[f32; 2]>,
    z: Mem<[f64; 2]>,
}
impl Caller {
    fn new() -> Caller {
        Caller { s: Mem::new(), d: Mem::new(), c: Mem::new(), z: Mem::new() }
    }
    fn go(&mut self, api: &Api, t: &All, x: u64) -> Result<(), (Ty, usize, usize, usize, String)> {
        let i = (x >> 8) as usize;
        fn one<T: Elem>(api: &Api, t: &[Task<T>], i: usize, w: &mut Mem<T>) -> Result<(), (Ty, usize, usize, usize, String)> {
            let Some(g) = T::gemm(api) else { return Ok(()) };
            let t = &t[i % t.len()];
            call(g, t, w).map_err(|e| (T::TY, t.m, t.k, t.n, e))
        }
        match x % 8 {
            0..=2 => one(api, &t.s, i, &mut self.s),
            3..=5 => one(api, &t.d, i, &mut self.d),
            6 => one(api, &t.c, i, &mut self.c),
            _ => one(api, &t.z, i, &mut self.z),
        }
    }
}

pub fn run(api: Api, args: &Args) {
    let seed = args.u64("seed", 1);
    let mut r = Rng::derive(seed, 0x3A27, 0);
    let mut t = All { s: tasks(&mut r, 32), d: tasks(&mut r, 32), c: tasks(&mut r, 32), z: tasks(&mut r, 32) };
    let callers = args.u64("callers", 1) as usize;
    let fails = Mutex::new(Vec::<String>::new());
    let calls = AtomicU64::new(0);
    let done = AtomicUsize::new(0);
    let fail = |at: u64, what: &str, e: (Ty, usize, usize, usize, String)| {
        done.store(1, SeqCst);
        let kind = if e.4.contains("panicked") { "panic" } else { "result" };
        fails.lock().unwrap().push(format!("{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{{\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{},\"seed\":{}}}}}", kind, esc(&format!("{} ({}, call {})", e.4, what, at)), e.0.name(), e.1, e.2, e.3, seed));
    };
    let mut threads = 0u64;
    alloc::IN_CALL.fetch_add(1, SeqCst);
    crate::heart::enter();
    first(&api, &mut t.s);
    first(&api, &mut t.d);
    first(&api, &mut t.c);
    first(&api, &mut t.z);
    let t = t;
    // one process, very many calls
    let total = args.u64("calls", 0);
    if total > 0 {
        std::thread::scope(|s| {
            for c in 0..callers {
                let (t, fail, calls, done, api) = (&t, &fail, &calls, &done, &api);
                s.spawn(move || {
                    let mut w = Caller::new();
                    let mut r = Rng::derive(seed, 0x3A28, c as u64);
                    let per = total / callers as u64;
                    for i in 0..per {
                        if i % 4096 == 0 {
                            crate::heart::beat(i);
                            if done.load(Relaxed) != 0 {
                                return;
                            }
                        }
                        if let Err(e) = w.go(api, t, r.u64()) {
                            fail(i, "very many calls", e);
                            return;
                        }
                        calls.fetch_add(1, Relaxed);
                    }
                });
            }
        });
        threads += callers as u64;
    }
    // very many threads, one after another
    let short = args.u64("short", 0);
    for i in 0..short {
        if i % 256 == 0 {
            crate::heart::beat(i);
        }
        if done.load(Relaxed) != 0 {
            break;
        }
        let x = r.u64();
        std::thread::scope(|s| {
            let (t, fail, calls, api) = (&t, &fail, &calls, &api);
            let _ = std::thread::Builder::new().stack_size(1 << 17).spawn_scoped(s, move || {
                if let Err(e) = Caller::new().go(api, t, x) {
                    fail(i, "each call on a new thread", e);
                }
                calls.fetch_add(1, Relaxed);
            }).unwrap();
        });
        threads += 1;
    }
    // very many threads at the same time
    let crowd = args.u64("crowd", 0) as usize;
    let mut most = 0;
    if crowd > 0 {
        let (bar, inn, top) = (Barrier::new(crowd), AtomicUsize::new(0), AtomicUsize::new(0));
        std::thread::scope(|s| {
            for c in 0..crowd {
                let (t, fail, calls, done, api, bar, inn, top) = (&t, &fail, &calls, &done, &api, &bar, &inn, &top);
                let b = std::thread::Builder::new().stack_size(1 << 18);
                let _ = b.spawn_scoped(s, move || {
                    let mut w = Caller::new();
                    let mut r = Rng::derive(seed, 0x3A29, c as u64);
                    for round in 0..args.u64("rounds", 30) {
                        bar.wait();
                        if c == 0 {
                            crate::heart::beat(round);
                        }
                        if c == 0 {
                            alloc::MEET_IN.store(0, SeqCst);
                            alloc::MEET_N.store(crowd, SeqCst);
                        }
                        bar.wait();
                        for q in 0..20 {
                            if done.load(Relaxed) != 0 {
                                break;
                            }
                            let x = inn.fetch_add(1, SeqCst) + 1;
                            top.fetch_max(x, SeqCst);
                            alloc::MEET.with(|m| m.set(q == 0));
                            if let Err(e) = w.go(api, t, r.u64()) {
                                fail(round, &format!("{} threads", crowd), e);
                            }
                            inn.fetch_sub(1, SeqCst);
                            calls.fetch_add(1, Relaxed);
                            if r.chance(1, 4) {
                                std::thread::yield_now();
                            }
                        }
                    }
                }).unwrap();
            }
        });
        threads += crowd as u64;
        alloc::MEET_N.store(0, SeqCst);
        most = top.load(SeqCst);
    }
    crate::heart::leave();
    alloc::IN_CALL.fetch_sub(1, SeqCst);
    let f = fails.lock().unwrap();
    for l in f.iter().take(4) {
        println!("{}", l);
    }
    println!("{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"calling_threads\":{},\"max_in_flight\":{},\"fails\":{}}}", calls.load(SeqCst), 128, threads, most, f.len());
    let _ = std::io::stdout().flush();
}
