//! Generic workload: many generated cases, every monitor armed.
use crate::case::*;
use crate::elem::*;
use crate::exec::*;
use crate::rng::mix;
use crate::{esc, Args};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub elems: u64,
    pub gaps: u64,
    pub affected: u64,
    pub flops: u128,
    pub freivalds: u64,
    pub owned: u64,
    pub shapes: HashSet<u64>,
    pub count: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_peak: i64,
    pub fails: u64,
}
impl Stats {
    fn bump(&mut self, k: &'static str) {
        *self.count.entry(k).or_insert(0) += 1;
    }
    pub fn note(&mut self, c: &Case, o: &Outcome) {
        self.cases += 1;
        self.elems += o.elems;
        self.gaps += o.gaps;
        self.affected += o.affected;
        self.flops += c.work();
        self.freivalds += o.freivalds as u64;
        self.owned += o.owned;
        self.max_peak = self.max_peak.max(o.peak);
        if c.m > 0 && c.n > 0 {
            self.shapes.insert(c.shape_hash());
        }
        self.bump(["type.s", "type.d", "type.c", "type.z"][c.ty.idx()]);
        self.bump(c.class);
        self.bump(if c.data == Data::Exact { "data.exact" } else { "data.rounding" });
        let neg = |l: Lay| l.rs < 0 || l.cs < 0;
        if neg(c.a) || neg(c.b) || neg(c.c) { self.bump("stride.negative") }
        let zero = |l: Lay| l.rs == 0 || l.cs == 0;
        if zero(c.a) || zero(c.b) { self.bump("stride.zero") }
        if !injective(c.a, c.m, c.k) || !injective(c.b, c.k, c.n) { self.bump("inputs.overlapping") }
        if c.share.is_some() { self.bump("inputs.shared") }
        if c.sparse { self.bump("stride.huge") }
        if c.c.rs == 1 { self.bump("c.colmajor") } else if c.c.cs == 1 { self.bump("c.rowmajor") } else { self.bump("c.general") }
        if c.beta.is_zero() { self.bump(match c.cinit { CInit::Values => "beta0.values", CInit::Garbage => "beta0.garbage", CInit::Uninit => "beta0.uninit" }) } else { self.bump("beta.nonzero") }
        if c.k > 256 { self.bump("multi.k-block") }
        if c.dangling { self.bump("dangling") }
        if self.samples.len() < 3 && self.cases % 37 == 5 {
            self.samples.push(c.json());
        }
    }
    pub fn json(&self, extra: &str) -> String {
        let cnt: Vec<String> = self.count.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        format!(
            "{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"elements_compared\":{},\"gap_elements_compared\":{},\"affected\":{},\"multiply_adds\":{},\"random_vector_checked\":{},\"concurrently_owned_elements\":{},\"max_working_memory\":{},\"fails\":{},\"hostile_blocks\":{},\"count\":{{{}}},\"samples\":[{}]{}}}",
            self.cases, self.shapes.len(), self.elems, self.gaps, self.affected, self.flops, self.freivalds, self.owned, self.max_peak, self.fails,
            crate::alloc::HOSTILE_ALLOCS.load(std::sync::atomic::Ordering::SeqCst),
            cnt.join(","), self.samples.join(","), extra
        )
    }
}

pub fn gencfg(api: &Api, args: &Args) -> GenCfg {
    GenCfg {
        profile: args.str("profile", "prod").to_string(),
        seed: args.u64("seed", 1),
        blk: args.blk(),
        cap: args.u64("cap", 30_000_000),
        complex: api.c.is_some() || args.u64("complex", 0) != 0,
        tiny: args.u64("tiny", 0) != 0,
        no_sparse: crate::vg::running() || args.u64("nosparse", 0) == 1,
        only: match args.str("only", "") {
            "s" => Some(Ty::S),
            "d" => Some(Ty::D),
            "c" => Some(Ty::C),
            "z" => Some(Ty::Z),
            _ => None,
        },
    }
}

/// Small calls of every type, as a process may have made before
pub fn warm(api: &Api, n: u64) {
    fn one<T: Elem>(api: &Api, i: u64) {
        let Some(g) = T::gemm(api) else { return };
        let u = T::from_parts(1.0, 0.0);
        let a = [u; 16];
        let mut c = [u; 16];
        let (m, k, n) = [(1, 1, 1), (2, 2, 2), (4, 1, 3), (1, 4, 4), (3, 3, 1), (2, 0, 3), (0, 1, 1)][(i % 7) as usize];
        unsafe { g(m, k, n, u, a.as_ptr(), 4, 1, a.as_ptr(), 1, 4, u, c.as_mut_ptr(), 1, 4) }
    }
    for i in 0..n {
        one::<f32>(api, i);
        one::<f64>(api, i);
        one::<[f32; 2]>(api, i);
        one::<[f64; 2]>(api, i);
    }
}

struct AtExit(*mut Env, *const Case, *mut Option<Outcome>);
unsafe impl Send for AtExit {}
impl Drop for AtExit {
    fn drop(&mut self) {
        unsafe { *self.2 = Some(run_case(&mut *self.0, &*self.1)) }
    }
}
thread_local! {
    static AT_EXIT: std::cell::RefCell<Option<AtExit>> = const { std::cell::RefCell::new(None) };
}

/// 0 here, 1 on a new thread, 2 while a thread ends (in a destructor of a thread local), 3 on a thread with a small stack,
/// 5 in a destructor while a panic unwinds, 4 any of 0 to 3
pub fn place_call(env: &mut Env, c: &Case, fresh: u64) -> Outcome {
    let fresh = if fresh == 4 { mix(c.seed ^ 0xF4) % 4 } else { fresh };
    match fresh {
        0 => run_case(env, c),
        1 => std::thread::scope(|sc| sc.spawn(|| run_case(env, c)).join().unwrap()),
        2 => {
            let mut out: Option<Outcome> = None;
            let how = mix(c.seed ^ 0xF2) % 3;
            let api = env.api;
            let g = AtExit(env, c, &mut out);
            std::thread::scope(|sc| {
                sc.spawn(move || {
                    let g = g;
                    if how == 1 {
                        warm(&api, 1);
                    }
                    AT_EXIT.with(|x| *x.borrow_mut() = Some(g));
                    if how == 2 {
                        warm(&api, 1);
                    }
                })
                .join()
                .unwrap()
            });
            out.expect("thread local destructor ran")
        }
        5 => {
            let mut out: Option<Outcome> = None;
            let g = AtExit(env, c, &mut out);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _g = g;
                std::panic::resume_unwind(Box::new(()));
            }));
            drop(r);
            out.expect("the panic unwound")
        }
        _ => std::thread::scope(|sc| std::thread::Builder::new().stack_size(192 << 10).spawn_scoped(sc, || run_case(env, c)).unwrap().join().unwrap()),
    }
}

pub fn fail_line(c: &Case, f: &Fail) -> String {
    format!("{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{}}}", f.kind, esc(&f.detail), c.json())
}

pub fn run(api: Api, args: &Args) {
    let g = gencfg(&api, args);
    let start = args.u64("start", 0);
    let count = args.u64("count", 1000);
    let step = args.u64("step", 1);
    let time = args.u64("time", 0);
    let max_fail = args.u64("max-fail", 3);
    let mut env = Env::new(api, g.blk);
    env.hostile = args.u64("hostile", 1) != 0;
    env.vg = crate::vg::running();
    if args.u64("noprotect", 0) != 0 {
        env.no_protect = true;
    }
    env.gap_owner = args.u64("gapowner", 0) != 0;
    let mut st = Stats::default();
    let mut hashes: Option<std::io::BufWriter<std::fs::File>> = args.kv.get("hashes").map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap()));
    let t0 = std::time::Instant::now();
    let mut done = 0;
    let mut other = 0u64;
    let mut leaks = 0;
    let kinds = args.str("kinds", "").to_string();
    let mut idx = start;
    let order = args.str("order", "fwd").to_string();
    let fresh = args.u64("fresh", 0);
    let again = args.u64("again", if cfg!(miri) { 0 } else { 8 });
    warm(&env.api, args.u64("warm", 0));
    let relayout = args.u64("relayout", 0);
    let seq: Vec<u64> = {
        let mut v: Vec<u64> = (0..if order == "fwd" { 0 } else { count }).map(|i| start + i * step).collect();
        if order == "rev" {
            v.reverse();
        } else if order == "shuf" {
            let mut r = crate::rng::Rng::derive(g.seed, 99, relayout);
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        v
    };
    let mut out = std::io::stdout();
    let progress = args.u64("progress", 0) != 0;
    #[cfg(not(miri))]
    let state = if args.u64("state", 0) != 0 { Some(crate::resources::snapshot()) } else { None };
    // most threads that may take part in a call; 0: none may be created
    #[cfg(not(miri))]
    let spawns = args.kv.get("maxthreads").and_then(|x| Some((x.parse::<usize>().unwrap(), crate::spawns::Spawns::find()?)));
    while done < count {
        if time > 0 && t0.elapsed().as_secs() >= time {
            break;
        }
        if !seq.is_empty() {
            idx = seq[done as usize];
        }
        let mut c = gen_case(&g, idx);
        if relayout > 0 {
            crate::case::relayout(&mut c, relayout);
        }
        CUR_CASE.store(idx, std::sync::atomic::Ordering::SeqCst);
        crate::heart::beat(idx);
        if progress {
            let _ = writeln!(out, "{{\"ev\":\"CASE\",\"case\":{}}}", c.json());
            let _ = out.flush();
        }
        #[cfg(not(miri))]
        let made = spawns.map(|s| s.1.now());
        let mut o = place_call(&mut env, &c, fresh);
        st.note(&c, &o);
        #[cfg(not(miri))]
        if let (Some((max, s)), Some((c0, e0))) = (spawns, made) {
            st.bump("creation_observed");
            let (c1, e1) = s.now();
            if max == 0 && c1 > c0 {
                o.fails.push(Fail { kind: "threads", detail: format!("{} thread(s) were created although the threading feature is off", c1 - c0) });
            } else if e1 > e0 && s.busy(e0, 60_000) >= max {
                o.fails.push(Fail { kind: "threads", detail: format!("{} threads besides the caller worked for this call, allowed are {} with it", s.busy(e0, 60_000), max) });
            }
        }
        if o.kept > 0 && o.fails.is_empty() && leaks < 2 {
            // what is kept once (a pool, a cache) is not kept again by the same call
            st.bump("kept_memory");
            let times = if leaks > 0 { 8 } else { 48 };
            let kept: Vec<i64> = (0..times).map(|_| place_call(&mut env, &c, 0).kept).take_while(|&k| k > 0).collect();
            if kept.len() == times {
                leaks += 1;
                o.fails.push(Fail { kind: "leak", detail: format!("{} identical calls each left memory allocated, the last one {} bytes", times, kept[times - 1]) });
            }
        }
        if again > 0 && o.fails.is_empty() && mix(c.seed ^ 0xA6A1) % again == 0 {
            // the same storage, sizes and strides once more, with other contents
            let mut c2 = c.clone();
            let h = mix(c.seed ^ 0xA6A2);
            match h % 4 {
                0 => c2.seed = h,
                1 => c2.tweak = Some((0, h >> 8)),
                2 => c2.tweak = Some((1, h >> 8)),
                _ => c2.tweak = Some((2, h >> 8)),
            }
            let o2 = place_call(&mut env, &c2, fresh);
            st.note(&c2, &o2);
            st.bump("again");
            o.fails = o2.fails;
            if !o.fails.is_empty() {
                c = c2;
            }
        }
        if let Some(h) = hashes.as_mut() {
            writeln!(h, "{} {:016x} {:016x} {}", idx, o.hash_norm, o.hash_bits, if c.data == Data::Exact { "E" } else { "R" }).unwrap();
        }
        let wanted = |f: &Fail| kinds.is_empty() || kinds.split(',').any(|k| k == f.kind);
        for f in &o.fails {
            if wanted(f) || other < 3 {
                let _ = writeln!(out, "{}", fail_line(&c, f));
            }
            other += !wanted(f) as u64;
        }
        if o.fails.iter().any(wanted) {
            let _ = out.flush();
            st.fails += 1;
            if st.fails >= max_fail {
                break;
            }
        }
        done += 1;
        idx += step;
    }
    #[cfg(not(miri))]
    if let Some(s0) = state {
        st.bump("state_compared");
        let s1 = crate::resources::snapshot();
        if let Some(d) = s0.changed(&s1) {
            st.fails += 1;
            let _ = writeln!(out, "{{\"ev\":\"FAIL\",\"kind\":\"state\",\"detail\":\"process state changed: {}\",\"case\":{{\"idx\":{}}}}}", esc(&d), idx);
        }
        if s1.threads > s0.threads + 3 {
            let _ = writeln!(out, "{{\"ev\":\"FAIL\",\"kind\":\"state\",\"detail\":\"{} threads, {} before\",\"case\":{{\"idx\":{}}}}}", s1.threads, s0.threads, idx);
        }
    }
    if let Some(h) = hashes.as_mut() {
        h.flush().unwrap();
    }
    let _ = writeln!(out, "{}", st.json(&format!(",\"next\":{},\"wall\":{:.3}", idx, t0.elapsed().as_secs_f64())));
    let _ = out.flush();
}

/// prints the generated cases without running them (to look at the workload)
pub fn dump(api: Api, args: &Args) {
    let g = gencfg(&api, args);
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for i in 0..args.u64("count", 100) {
        let _ = writeln!(out, "{}", gen_case(&g, i).json());
    }
}
