//! Very long dimensions: more blocks than fit 16 bits, more elements than fit 32.
//!
//! Each matrix is a vector seen as a matrix (a stride is zero), so that the whole result can be checked by a formula.
use crate::elem::*;
use crate::rng::mix;
use crate::{alloc, esc, Args};
use std::sync::atomic::Ordering::*;

/// small integers which differ between neighbours at any distance
fn val(i: usize) -> f64 {
    (mix(i as u64) % 7) as f64 - 3.0
}

fn vec<T: Elem>(n: usize, f: impl Fn(usize) -> f64) -> Vec<T> {
    (0..n).map(|i| T::from_parts(f(i), 0.0)).collect()
}

struct Res {
    fails: Vec<String>,
    calls: u64,
    elems: u64,
    count: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
fn call<T: Elem>(g: Gemm<T>, m: usize, k: usize, n: usize, alpha: f64, a: &[T], ra: isize, ca: isize, b: &[T], rb: isize, cb: isize, beta: f64, c: &mut [T], rc: isize, cc: isize) -> bool {
    alloc::IN_CALL.fetch_add(1, SeqCst);
    crate::heart::enter();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        g(m, k, n, T::from_parts(alpha, 0.0), a.as_ptr(), ra, ca, b.as_ptr(), rb, cb, T::from_parts(beta, 0.0), c.as_mut_ptr(), rc, cc)
    }));
    crate::heart::leave();
    alloc::IN_CALL.fetch_sub(1, SeqCst);
    r.is_ok()
}

fn one<T: Elem>(api: &Api, what: &str, blk: crate::case::Blk, extra: usize, r: &mut Res) {
    let Some(g) = T::gemm(api) else { return };
    let t = T::TY.name();
    let past = |b: usize| b * 65536 + b + 3 + extra;
    let mut bad = |r: &mut Res, m: usize, k: usize, n: usize, d: String| {
        if r.fails.len() < 6 {
            r.fails.push(format!("{{\"ev\":\"FAIL\",\"kind\":\"result\",\"detail\":\"{}\",\"case\":{{\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{}}}}}", esc(&d), t, m, k, n));
        }
    };
    let eq = |x: T, want: f64| x.parts() == (want, 0.0);
    r.calls += 1;
    match what {
        // m: rows of A are scalars s[i], columns of B scalars u[p]: C[i,j] = 2 s[i] sum(u) w[j] ...
        "m" => {
            let (m, k, n) = (past(blk.mc), 2, 3);
            let a: Vec<T> = vec(m + 1, val);
            let b: Vec<T> = vec(k * n, |i| (i as f64) - 2.0);
            let mut c: Vec<T> = vec(m * n, |i| (i % 5) as f64);
            // A[i,p] = a[i+p]
            if !call(g, m, k, n, 2.0, &a, 1, 1, &b, n as isize, 1, 3.0, &mut c, 1, m as isize) {
                return bad(r, m, k, n, "panic".into());
            }
            for j in 0..n {
                for i in 0..m {
                    let w = 2.0 * (val(i) * (j as f64 - 2.0) + val(i + 1) * ((n + j) as f64 - 2.0)) + 3.0 * ((i + j * m) % 5) as f64;
                    if !eq(c[i + j * m], w) {
                        return bad(r, m, k, n, format!("C[{},{}] = {:?}, not {}", i, j, c[i + j * m].parts(), w));
                    }
                }
            }
            r.elems += (m * n) as u64;
        }
        "n" => {
            let (m, k, n) = (2, 1, past(blk.nc));
            let a: Vec<T> = vec(2, |i| i as f64 + 1.0);
            let b: Vec<T> = vec(n, val);
            let mut c: Vec<T> = vec(m * n, |_| f64::NAN);
            if !call(g, m, k, n, -1.0, &a, 1, 1, &b, 0, 1, 0.0, &mut c, n as isize, 1) {
                return bad(r, m, k, n, "panic".into());
            }
            for i in 0..m {
                for j in 0..n {
                    let w = -(i as f64 + 1.0) * val(j);
                    if !eq(c[i * n + j], w) {
                        return bad(r, m, k, n, format!("C[{},{}] = {:?}, not {}", i, j, c[i * n + j].parts(), w));
                    }
                }
            }
            r.elems += (m * n) as u64;
        }
        "k" => {
            let (m, k, n) = (2, past(blk.kc), 2);
            // sums stay small enough to be exact in single precision
            let s = |i: usize| ((mix(i as u64) >> 9) % 3) as f64 - 1.0;
            let a: Vec<T> = vec(k + 1, s);
            let b: Vec<T> = vec(k + 1, |i| s(i + 77));
            let mut c: Vec<T> = vec(4, |i| i as f64);
            // A[i,p] = a[i+p], B[p,j] = b[p+j]
            if !call(g, m, k, n, 1.0, &a, 1, 1, &b, 1, 1, 1.0, &mut c, 2, 1) {
                return bad(r, m, k, n, "panic".into());
            }
            for i in 0..m {
                for j in 0..n {
                    let w: f64 = (0..k).map(|p| s(i + p) * s(p + j + 77)).sum::<f64>() + (i * 2 + j) as f64;
                    if !eq(c[i * 2 + j], w) {
                        return bad(r, m, k, n, format!("C[{},{}] = {:?}, not {}", i, j, c[i * 2 + j].parts(), w));
                    }
                }
            }
            r.elems += 4;
        }
        // more than 2^32 products per element; all the same
        "k32" => {
            let (m, k, n) = (1, (1usize << 32) + 300 + extra, 1);
            let a: Vec<T> = vec(1, |_| 3.0);
            let b: Vec<T> = vec(1, |_| 1.0);
            let mut c: Vec<T> = vec(1, |_| 5.0);
            if !call(g, m, k, n, 1.0, &a, 0, 0, &b, 0, 0, 1.0, &mut c, 1, 1) {
                return bad(r, m, k, n, "panic".into());
            }
            let w = 3.0 * k as f64 + 5.0;
            if !eq(c[0], w) {
                return bad(r, m, k, n, format!("C[0,0] = {:?}, not {}", c[0].parts(), w));
            }
            r.elems += 1;
        }
        // more than 2^32 elements of A and B each (all in one short vector: A[i,p] = a[i+p])
        "mk32" | "kn32" => {
            let (long, k) = (70_001 + extra, 66_003usize);
            let v: Vec<T> = vec(long + k, |i| s3(i));
            let u: Vec<T> = vec(k, |i| s3(i + 5));
            let (m, n) = if what == "mk32" { (long, 1) } else { (1, long) };
            let mut c: Vec<T> = vec(long, |i| i as f64 % 9.0);
            let ok = if what == "mk32" { call(g, m, k, n, 1.0, &v, 1, 1, &u, 1, 1, 1.0, &mut c, 1, 1) } else { call(g, m, k, n, 1.0, &u, 1, 1, &v, 1, 1, 1.0, &mut c, 1, 1) };
            if !ok {
                return bad(r, m, k, n, "panic".into());
            }
            // v has period 3 after reduction, so only three different sums
            let sums: Vec<f64> = (0..3).map(|o| (0..k).map(|p| s3(o + p) * s3(p + 5)).sum()).collect();
            for i in 0..long {
                let w = sums[i % 3] + i as f64 % 9.0;
                if !eq(c[i], w) {
                    return bad(r, m, k, n, format!("element {} is {:?}, not {}", i, c[i].parts(), w));
                }
            }
            r.elems += long as u64;
        }
        _ => panic!("unknown kind {}", what),
    }
    r.count.push(format!("\"{}gemm.{}\":1", t, what));
}
/// period 3, integers
fn s3(i: usize) -> f64 {
    [2.0, -1.0, 1.0][i % 3]
}

pub fn run(api: Api, args: &Args) {
    let blk = args.blk();
    let types = args.str("types", "sdcz").to_string();
    let mut r = Res { fails: vec![], calls: 0, elems: 0, count: vec![] };
    let extra = (mix(args.u64("seed", 1)) % 23) as usize;
    for what in args.str("what", "m,n,k").split(',') {
        for t in types.chars() {
            match t {
                's' => one::<f32>(&api, what, blk[0], extra, &mut r),
                'd' => one::<f64>(&api, what, blk[1], extra, &mut r),
                'c' => one::<[f32; 2]>(&api, what, blk[2], extra, &mut r),
                _ => one::<[f64; 2]>(&api, what, blk[3], extra, &mut r),
            }
        }
    }
    for f in &r.fails {
        println!("{}", f);
    }
    println!("{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"elements_compared\":{},\"fails\":{},\"count\":{{{}}}}}", r.calls, r.calls, r.elems, r.fails.len(), r.count.join(","));
}
