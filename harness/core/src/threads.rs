//! Which threads take part in a call?  Observed as CPU time consumed per thread of the process during the call.
use crate::elem::*;
use crate::spawns::Spawns;
use crate::{alloc, esc, Args};
use std::collections::BTreeMap;
use std::io::Write;

fn cpu() -> BTreeMap<u64, u64> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let p = e.path().join("schedstat");
            if let (Ok(t), Ok(s)) = (e.file_name().to_string_lossy().parse::<u64>(), std::fs::read_to_string(p)) {
                let ns = s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0);
                m.insert(t, ns);
            }
        }
    }
    m
}

struct Obs {
    fails: Vec<String>,
    calls: u64,
    /// large sizes of the scan
    sizes: u64,
    /// histogram: number of participants -> calls
    parts: BTreeMap<usize, u64>,
    max_tasks: usize,
    spawns: Option<Spawns>,
    /// threads created, and ended after work, during calls
    created: i64,
    ended: usize,
    /// no thread may be created
    none: bool,
}

fn one<T: Elem>(api: &Api, m: usize, k: usize, n: usize, max: usize, min: usize, no_new: bool, o: &mut Obs, label: &str) {
    let Some(g) = T::gemm(api) else { return };
    let val = |i: usize, j: usize| ((i * 7 + j * 13) % 5) as f64 - 2.0;
    let cv = |i: usize, j: usize| T::from_parts(val(i, j), if T::TY.complex() { val(j, i) } else { 0.0 });
    let mut a = Vec::with_capacity(m * k);
    for i in 0..m {
        for j in 0..k {
            a.push(cv(i, j));
        }
    }
    let mut b = Vec::with_capacity(k * n);
    for i in 0..k {
        for j in 0..n {
            b.push(cv(i, j));
        }
    }
    let mut c = vec![T::from_parts(0.0, 0.0); m * n];
    let rep = ((4e8 / (m * k * n) as f64 / if T::TY.complex() { 4.0 } else { 1.0 }) as usize).clamp(1, 200);
    let tasks0 = cpu().len();
    // let threads of earlier calls go to sleep
    std::thread::sleep(std::time::Duration::from_millis(15));
    let t0 = cpu();
    let sp0 = o.spawns.map_or((0, 0), |s| s.now());
    let mut gone = 0;
    for _ in 0..rep {
        let e0 = o.spawns.map_or(0, |s| s.now().1);
        alloc::IN_CALL.fetch_add(1, std::sync::atomic::Ordering::SeqCst); crate::heart::enter();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
            g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), k as isize, 1, b.as_ptr(), n as isize, 1, T::from_parts(0.0, 0.0), c.as_mut_ptr(), n as isize, 1)
        }));
        crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        if r.is_err() {
            o.fails.push(fail(T::TY, m, k, n, label, "panic", "the call panicked"));
            return;
        }
        gone = gone.max(o.spawns.map_or(0, |s| s.busy(e0, 60_000)));
    }
    let t1 = cpu();
    created(T::TY, m, k, n, label, sp0.0, o);
    o.ended += gone;
    o.calls += rep as u64;
    o.max_tasks = o.max_tasks.max(t1.len());
    if no_new && t1.len() > tasks0 {
        o.fails.push(fail(T::TY, m, k, n, label, "threads", &format!("a single-threaded call left {} more thread(s) behind", t1.len() - tasks0)));
    }
    let delta: Vec<u64> = t1.iter().map(|(t, v)| v - t0.get(t).copied().unwrap_or(0)).collect();
    let total: u64 = delta.iter().sum();
    let parts = delta.iter().filter(|d| **d > 60_000 && **d * 200 > total).count() + gone;
    let heavy = delta.iter().filter(|d| **d * 12 > total).count();
    *o.parts.entry(parts).or_insert(0) += 1;
    let us: Vec<u64> = delta.iter().map(|d| d / 1000).collect();
    if parts > max {
        o.fails.push(fail(T::TY, m, k, n, label, "threads", &format!("{} threads took part, allowed are {} (CPU time per thread in us: {:?})", parts, max, us)));
    }
    if heavy < min {
        o.fails.push(fail(T::TY, m, k, n, label, "threads", &format!("only {} thread(s) computed a large product although more are allowed (CPU time per thread in us: {:?})", heavy, us)));
    }
    // spot check of the result
    for t in 0..200 {
        let (i, j) = ((t * 7919) % m, (t * 104729) % n);
        let (mut re, mut im) = (0.0, 0.0);
        for p in 0..k {
            let (x, y) = (a[i * k + p].parts(), b[p * n + j].parts());
            re += x.0 * y.0 - x.1 * y.1;
            im += x.0 * y.1 + x.1 * y.0;
        }
        if c[i * n + j].parts() != (re, im) {
            o.fails.push(fail(T::TY, m, k, n, label, "result", &format!("C[{},{}] = {:?}, expected {:?}", i, j, c[i * n + j].parts(), (re, im))));
            break;
        }
    }
}

/// threads created by a call
fn created(ty: Ty, m: usize, k: usize, n: usize, label: &str, before: i64, o: &mut Obs) {
    let Some(s) = o.spawns else { return };
    let c = s.now().0 - before;
    o.created += c;
    if o.none && c > 0 {
        o.fails.push(fail(ty, m, k, n, label, "threads", &format!("{} thread(s) were created although the threading feature is off", c)));
    }
}

/// A product of any size with broadcast operands (all rows of A, and all rows of B, are the same memory)
fn broad<T: Elem>(api: &Api, m: usize, k: usize, n: usize, max: usize, min: usize, o: &mut Obs, label: &str) {
    let Some(g) = T::gemm(api) else { return };
    let a: Vec<T> = (0..k).map(|p| T::from_parts((p % 3) as f64 - 1.0, 0.0)).collect();
    let b: Vec<T> = (0..n).map(|j| T::from_parts((j % 5) as f64 - 2.0, 0.0)).collect();
    let mut c = vec![T::from_parts(0.0, 0.0); m * n];
    std::thread::sleep(std::time::Duration::from_millis(15));
    let t0 = cpu();
    let sp0 = o.spawns.map_or((0, 0), |s| s.now());
    alloc::IN_CALL.fetch_add(1, std::sync::atomic::Ordering::SeqCst); crate::heart::enter();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), 0, 1, b.as_ptr(), 0, 1, T::from_parts(0.0, 0.0), c.as_mut_ptr(), n as isize, 1)
    }));
    crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    if r.is_err() {
        o.fails.push(fail(T::TY, m, k, n, label, "panic", "the call panicked"));
        return;
    }
    let t1 = cpu();
    let gone = o.spawns.map_or(0, |s| s.busy(sp0.1, 60_000));
    created(T::TY, m, k, n, label, sp0.0, o);
    o.ended += gone;
    o.calls += 1;
    o.sizes += 1;
    o.max_tasks = o.max_tasks.max(t1.len());
    let delta: Vec<u64> = t1.iter().map(|(t, v)| v - t0.get(t).copied().unwrap_or(0)).collect();
    let total: u64 = delta.iter().sum();
    let parts = delta.iter().filter(|d| **d > 60_000 && **d * 200 > total).count() + gone;
    let heavy = delta.iter().filter(|d| **d * 12 > total).count();
    *o.parts.entry(parts).or_insert(0) += 1;
    let us: Vec<u64> = delta.iter().map(|d| d / 1000).collect();
    if parts > max {
        o.fails.push(fail(T::TY, m, k, n, label, "threads", &format!("{} threads took part, allowed are {} (CPU time per thread in us: {:?})", parts, max, us)));
    }
    if heavy < min {
        o.fails.push(fail(T::TY, m, k, n, label, "threads", &format!("only {} thread(s) computed a large product although more are allowed (CPU time per thread in us: {:?})", heavy, us)));
    }
    let s: f64 = (0..k).map(|p| (p % 3) as f64 - 1.0).sum();
    for t in 0..200 {
        let (i, j) = ((t * 7919) % m, (t * 104729) % n);
        let w = s * ((j % 5) as f64 - 2.0);
        if c[i * n + j].parts().0 != w {
            o.fails.push(fail(T::TY, m, k, n, label, "result", &format!("C[{},{}] = {:?}, expected {}", i, j, c[i * n + j].parts(), w)));
            break;
        }
    }
}

/// Large sizes across the whole range: the work counts (and their sum of the operands' sizes) pass every power of two, so a
/// decision kept in too few bits shows.
fn sizes(api: &Api, seed: u64, count: u64, huge: bool, max: usize, min: usize, o: &mut Obs, label: &str) {
    let mut r = crate::rng::Rng::derive(seed, 0x517E, 0);
    // m*k + k*n = w * 2^14 with w just above a power of two (times a factor)
    for i in 0..count {
        let w: usize = if i % 4 == 3 { r.usize(32, 1200) } else { (1 << (7 + (i as usize / 4 + i as usize) % 5)) * r.usize(1, 3) + r.usize(0, 1) };
        let tot = w << 14;
        // k, then m + n
        let k = r.usize(200, 2000);
        let mn = tot / k + 1;
        if mn < 400 {
            continue;
        }
        let m = r.usize(128, (mn - 128).min(3000));
        let n = (mn - m).min(40_000_000 / m).max(64);
        if m < 128 {
            continue;
        }
        match i % 2 {
            0 => broad::<f32>(api, m, k, n, max, min, o, label),
            _ => broad::<f64>(api, m, k, n, max, min, o, label),
        }
        if o.fails.len() > 2 {
            return;
        }
    }
    // exactly around 2^22 = 256 * 2^14
    broad::<f32>(api, 1448, 1449, 1448, max, min, o, label);
    broad::<f64>(api, 2048, 1025, 2048, max, min, o, label);
    if huge {
        // sizes of the operands around 2^32
        broad::<f32>(api, 65536, 65536, 1, max, min, o, label);
        broad::<f32>(api, 1 << 20, 4097, 1, max, min, o, label);
    }
}

fn fail(ty: Ty, m: usize, k: usize, n: usize, label: &str, kind: &str, d: &str) -> String {
    format!(
        "{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{{\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{},\"env\":\"{}\"}}}}",
        kind, esc(d), ty.name(), m, k, n, esc(label)
    )
}

pub fn run(api: Api, args: &Args) {
    let max = args.u64("max", 4) as usize;
    let min = args.u64("min", 1) as usize;
    let rounds = args.u64("rounds", 1);
    let label = args.str("label", "").to_string();
    let mut o = Obs { fails: vec![], calls: 0, sizes: 0, parts: BTreeMap::new(), max_tasks: 0, spawns: Spawns::find(), created: 0, ended: 0, none: args.u64("nothreads", 0) == 1 };
    let machine = args.str("machine", "");
    if !machine.is_empty() && !std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default().contains("mmcheck") {
        eprintln!("the process does not see the other machine");
        std::process::exit(2);
    }
    let before = cpu().len();
    let no_new = max == 1;
    // first call of the process: small; no thread may be needed for it, but a pool may be set up
    one::<f32>(&api, 8, 8, 8, max, 0, no_new, &mut o, &label);
    for _ in 0..rounds {
        // shapes: large in every direction, and ones only one of the loops can split
        one::<f32>(&api, 512, 512, 512, max, min, no_new, &mut o, &label);
        one::<f64>(&api, 384, 512, 400, max, min, no_new, &mut o, &label);
        one::<[f32; 2]>(&api, 256, 300, 256, max, min, no_new, &mut o, &label);
        one::<[f64; 2]>(&api, 256, 300, 256, max, min, no_new, &mut o, &label);
        one::<f64>(&api, 32, 512, 700, max, 0, no_new, &mut o, &label);
        one::<f32>(&api, 2000, 512, 4, max, 0, no_new, &mut o, &label);
        one::<f64>(&api, 100, 130, 60, max, 0, no_new, &mut o, &label);
        one::<f64>(&api, 96, 2000, 96, max, 0, no_new, &mut o, &label);
        // past every block size
        one::<f32>(&api, 100, 1040, 2100, max, min, no_new, &mut o, &label);
        one::<f64>(&api, 200, 530, 1040, max, min, no_new, &mut o, &label);
        one::<[f64; 2]>(&api, 40, 520, 1040, max, 0, no_new, &mut o, &label);
    }
    if args.u64("sizes", 0) > 0 {
        sizes(&api, args.u64("seed", 1), args.u64("sizes", 0), args.u64("huge", 0) == 1, max, min, &mut o, &label);
    }
    let after = cpu().len();
    for f in &o.fails {
        println!("{}", f);
    }
    let parts: Vec<String> = o.parts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!(
        "{{\"ev\":\"STATS\",\"cases\":{},\"sizes\":{},\"participants\":{{{}}},\"threads_before\":{},\"threads_after\":{},\"max_threads\":{},\"creation_observed\":{},\"created_in_calls\":{},\"ended_after_work\":{},\"fails\":{}}}",
        o.calls, o.sizes, parts.join(","), before, after, o.max_tasks, o.spawns.is_some() as u8, o.created, o.ended, o.fails.len()
    );
    let _ = std::io::stdout().flush();
}
