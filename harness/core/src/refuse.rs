//! Settings which cannot be supported must be refused by a panic before C is modified.
use crate::elem::*;
use crate::{alloc, esc, Args};
use std::io::Write;

fn one<T: Elem>(api: &Api, m: usize, k: usize, n: usize, beta: f64, fails: &mut Vec<String>, refused: &mut u64) {
    let Some(g) = T::gemm(api) else { return };
    let v = |x: usize| T::from_parts((x % 5) as f64 - 2.0, 0.0);
    let a: Vec<T> = (0..m * k).map(v).collect();
    let b: Vec<T> = (0..k * n).map(v).collect();
    let c0: Vec<T> = (0..m * n).map(v).collect();
    let mut c = c0.clone();
    alloc::IN_CALL.fetch_add(1, std::sync::atomic::Ordering::SeqCst); crate::heart::enter();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        g(m, k, n, T::from_parts(1.0, 0.0), a.as_ptr(), k as isize, 1, b.as_ptr(), n as isize, 1, T::from_parts(beta, 0.0), c.as_mut_ptr(), n as isize, 1)
    }));
    crate::heart::leave(); alloc::IN_CALL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    let same = c.iter().zip(&c0).all(|(x, y)| x.bits() == y.bits());
    let case = format!("\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{},\"beta\":{}", T::TY.name(), m, k, n, beta);
    let mut f = |d: &str| fails.push(format!("{{\"ev\":\"FAIL\",\"kind\":\"refuse\",\"detail\":\"{}\",\"case\":{{{}}}}}", esc(d), case));
    match (r.is_err(), same) {
        (false, _) => f("a setting outside the documented constraints was accepted"),
        (true, false) => f("the call panicked, but after modifying C"),
        (true, true) => *refused += 1,
    }
}

pub fn run(api: Api, args: &Args) {
    let types = args.str("types", "sdcz").to_string();
    let mut fails = vec![];
    let mut refused = 0;
    for (m, k, n) in [(1, 1, 1), (9, 3, 17), (70, 40, 30), (3, 300, 5), (130, 140, 20)] {
        for beta in [0.0, 1.0, 2.0] {
            for t in types.chars() {
                match t {
                    's' => one::<f32>(&api, m, k, n, beta, &mut fails, &mut refused),
                    'd' => one::<f64>(&api, m, k, n, beta, &mut fails, &mut refused),
                    'c' => one::<[f32; 2]>(&api, m, k, n, beta, &mut fails, &mut refused),
                    _ => one::<[f64; 2]>(&api, m, k, n, beta, &mut fails, &mut refused),
                }
            }
        }
    }
    for f in fails.iter().take(4) {
        println!("{}", f);
    }
    println!("{{\"ev\":\"STATS\",\"cases\":{},\"refused\":{},\"fails\":{}}}", refused as usize + fails.len(), refused, fails.len());
    let _ = std::io::stdout().flush();
}
