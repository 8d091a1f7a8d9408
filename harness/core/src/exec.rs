//! Runs one case against the real code and judges what happened.
use crate::alloc;
use crate::arena::Arena;
use crate::case::*;
use crate::elem::*;
use crate::rng::{mix, Rng};
use crate::vg;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub static CUR_CASE: AtomicU64 = AtomicU64::new(u64::MAX);
pub static PANIC_MSG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

#[derive(Debug, Clone)]
pub struct Fail {
    /// result gap margin-c margin-ab panic alloc nonfinite undef vg
    pub kind: &'static str,
    pub detail: String,
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub fails: Vec<Fail>,
    /// hash of the result with NaNs and zero signs normalised
    pub hash_norm: u64,
    /// hash of the result bits (NaNs normalised)
    pub hash_bits: u64,
    pub elems: u64,
    pub gaps: u64,
    pub affected: u64,
    pub peak: i64,
    /// bytes allocated during the call which are still allocated after it
    pub kept: i64,
    pub freivalds: bool,
    pub owned: u64,
}
#[derive(Clone, Copy)]
struct Addr(usize);

pub struct Env {
    pub api: Api,
    pub dense: [Arena; 3],
    pub sparse: Option<[Arena; 3]>,
    pub hostile: bool,
    pub vg: bool,
    pub blk: [Blk; 4],
    /// keep A and B writable (several threads share pages ...)
    pub no_protect: bool,
    /// another thread owns the gaps and reads the inputs while the call runs (for the race detectors)
    pub gap_owner: bool,
    pub keep_c: bool,
    pub last_c: Vec<u128>,
}

impl Env {
    pub fn new(api: Api, blk: [Blk; 4]) -> Env {
        let cap = 224 << 20;
        Env {
            api,
            dense: [Arena::new("A", cap), Arena::new("B", cap), Arena::new("C", cap)],
            sparse: None,
            hostile: true,
            vg: false,
            blk,
            no_protect: false,
            gap_owner: false,
            keep_c: false,
            last_c: vec![],
        }
    }
}

#[inline]
fn off(l: Lay, i: usize, j: usize) -> isize {
    i as isize * l.rs + j as isize * l.cs
}

struct Placed<T> {
    /// pointer to element (0,0)
    p: *mut T,
    /// start and length (elements) of the storage
    buf: *mut T,
    len: usize,
}

/// decode to integer representation
fn ints<T: Elem>(v: &[T], e: i32) -> Vec<(i64, i64)> {
    v.iter()
        .map(|x| {
            let (re, im) = x.parts();
            (to_int(re, e).unwrap_or(0), to_int(im, e).unwrap_or(0))
        })
        .collect()
}

fn fmt_parts(p: (f64, f64), cplx: bool) -> String {
    if cplx { format!("({:e}, {:e})", p.0, p.1) } else { format!("{:e}", p.0) }
}

fn cmul(a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    // wrapping: this crate is built without overflow checks
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn cadd(a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    (a.0 + b.0, a.1 + b.1)
}

// double-double
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let split = |x: f64| {
        let t = 134217729.0 * x;
        let h = t - (t - x);
        (h, x - h)
    };
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
#[derive(Clone, Copy)]
struct Dd(f64, f64);
impl Dd {
    fn add_prod(self, a: f64, b: f64) -> Dd {
        let (p, e) = two_prod(a, b);
        let (s, t) = two_sum(self.0, p);
        let lo = self.1 + t + e;
        let (h, l) = two_sum(s, lo);
        Dd(h, l)
    }
    fn scale(self, a: f64) -> Dd {
        let (p, e) = two_prod(self.0, a);
        let (h, l) = two_sum(p, e + self.1 * a);
        Dd(h, l)
    }
    fn add(self, o: Dd) -> Dd {
        let (s, t) = two_sum(self.0, o.0);
        let (h, l) = two_sum(s, t + self.1 + o.1);
        Dd(h, l)
    }
}

fn canon_bits<T: Elem>(x: T, zero: bool) -> u64 {
    let (re, im) = x.parts();
    let f = |v: f64| {
        if v.is_nan() {
            0x7ff8_0000_0000_0000u64
        } else if zero && v == 0.0 {
            0
        } else {
            v.to_bits()
        }
    };
    mix(f(re)) ^ mix(f(im)).rotate_left(17)
}

pub fn run_case(env: &mut Env, c: &Case) -> Outcome {
    match c.ty {
        Ty::S => run_typed::<f32>(env, c),
        Ty::D => run_typed::<f64>(env, c),
        Ty::C => run_typed::<[f32; 2]>(env, c),
        Ty::Z => run_typed::<[f64; 2]>(env, c),
    }
}

/// values of a matrix entry before the call
#[allow(clippy::too_many_arguments)]
fn entry<T: Elem>(c: &Case, r: &mut Rng, v: i64, e: i32, mat: usize, i: usize, j: usize, rows: usize, cols: usize) -> T {
    let x = drawn::<T>(c, r, v, e);
    if let Some((w, pos)) = c.tweak {
        if w as usize == mat && pos % (rows as u64 * cols as u64) == (i * cols + j) as u64 {
            let u = T::from_parts(scale(1, if c.data == Data::Exact { e } else { 0 }), 0.0);
            return if x.bits() == u.bits() { T::from_parts(0.0, 0.0) } else { u };
        }
    }
    match c.pattern(c.fill[mat], i, j, rows, cols) {
        Fill::Keep => x,
        Fill::Zero => T::from_parts(0.0, 0.0),
        Fill::NegZero => T::from_parts(-0.0, -0.0),
        Fill::One => T::from_parts(scale(1, if c.data == Data::Exact { e } else { 0 }), 0.0),
    }
}

fn drawn<T: Elem>(c: &Case, r: &mut Rng, v: i64, e: i32) -> T {
    match c.data {
        Data::Exact => {
            let mut f = || {
                let x = r.range(-v, v);
                scale(x, e)
            };
            let re = f();
            let im = if T::TY.complex() { f() } else { 0.0 };
            T::from_parts(re, im)
        }
        Data::Round(rg) => {
            let mut f = || {
                let m = r.f01() * 2.0 - 1.0;
                m * pow2(r.range(-(rg as i64), rg as i64) as i32)
            };
            let re = f();
            let im = if T::TY.complex() { f() } else { 0.0 };
            T::from_parts(re, im)
        }
    }
}

fn place<T: Elem>(ar: &mut Arena, l: Lay, r: usize, c: usize, pl: Place) -> Placed<T> {
    let sz = std::mem::size_of::<T>();
    match extent(l, r, c) {
        None => {
            let p = ar.place(0, std::mem::align_of::<T>(), pl) as *mut T;
            Placed { p, buf: p, len: 0 }
        }
        Some((lo, hi)) => {
            let len = (hi - lo + 1) as usize;
            let buf = ar.place(len * sz, std::mem::align_of::<T>(), pl) as *mut T;
            Placed { p: buf.wrapping_offset(-lo as isize), buf, len }
        }
    }
}

unsafe fn for_each(r: usize, c: usize, mut f: impl FnMut(usize, usize)) {
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c {
            f(i, j);
            j += 1;
        }
        i += 1;
    }
}

pub fn run_typed<T: Elem>(env: &mut Env, c: &Case) -> Outcome {
    let mut out = Outcome::default();
    let Some(gemm) = T::gemm(&env.api) else { return out };
    let blk = env.blk[c.ty.idx()];
    if c.sparse && env.sparse.is_none() {
        const CAP: usize = ((1u64 << 41) + (1 << 36)) as usize;
        env.sparse = Some([Arena::new("A", CAP), Arena::new("B", CAP), Arena::new("C", CAP)]);
    }
    let vgon = env.vg;
    let no_protect = env.no_protect;
    let hostile = env.hostile;
    let gap_owner = env.gap_owner;
    let ars: &mut [Arena; 3] = if c.sparse { env.sparse.as_mut().unwrap() } else { &mut env.dense };
    let (m, k, n) = (c.m, c.k, c.n);
    let esz = std::mem::size_of::<T>();
    let mut rng = Rng(c.seed);
    let cplx = c.ty.complex();
    let [ar_a, ar_b, ar_c] = ars;
    unsafe {
        // ---- lay out storage
        let pa: Placed<T>;
        let pb: Placed<T>;
        if let Some(shift) = c.share {
            let (alo, ahi) = extent(c.a, m, k).unwrap();
            let (blo, bhi) = extent(c.b, k, n).unwrap();
            let la = (ahi - alo + 1) as usize;
            let lb = (bhi - blo + 1) as usize;
            let len = la.max(lb + shift);
            let buf = ar_a.place(len * esz, std::mem::align_of::<T>(), c.place[0]) as *mut T;
            ar_b.place(0, std::mem::align_of::<T>(), c.place[1]);
            pa = Placed { p: buf.wrapping_offset(-alo as isize), buf, len };
            pb = Placed { p: buf.wrapping_add(shift).wrapping_offset(-blo as isize), buf, len: 0 };
        } else {
            pa = place(ar_a, c.a, m, k, c.place[0]);
            pb = place(ar_b, c.b, k, n, c.place[1]);
        }
        let pc: Placed<T> = place(ar_c, c.c, m, n, c.place[2]);
        // ---- contents
        if !c.sparse && !cfg!(miri) {
            for i in 0..pa.len {
                pa.buf.add(i).write(T::hole(1));
            }
            for i in 0..pb.len {
                pb.buf.add(i).write(T::hole(2));
            }
            for i in 0..pc.len {
                pc.buf.add(i).write(T::hole(3 + i as u32));
            }
        } else if cfg!(miri) {
            for i in 0..pc.len {
                pc.buf.add(i).write(T::hole(3 + i as u32));
            }
        }
        for_each(m, k, |i, j| pa.p.offset(off(c.a, i, j)).write(entry::<T>(c, &mut rng, c.va, c.ea, 0, i, j, m, k)));
        for_each(k, n, |i, j| pb.p.offset(off(c.b, i, j)).write(entry::<T>(c, &mut rng, c.vb, c.eb, 1, i, j, k, n)));
        let mut c0: Vec<T> = Vec::with_capacity(m * n);
        for_each(m, n, |i, j| {
            let v = entry::<T>(c, &mut rng, c.vc, c.ec, 2, i, j, m, n);
            let p = pc.p.offset(off(c.c, i, j));
            match c.cinit {
                CInit::Values => {
                    p.write(v);
                    c0.push(v)
                }
                CInit::Garbage | CInit::Uninit => {
                    let g = match rng.below(6) {
                        0 => T::from_parts(f64::INFINITY, f64::NEG_INFINITY),
                        1 => T::from_parts(f64::NAN, 1.0),
                        2 => T::from_parts(1e30, f64::NAN),
                        _ => T::hole(0x7777),
                    };
                    if cfg!(miri) && c.cinit == CInit::Uninit {
                        (p as *mut std::mem::MaybeUninit<T>).write(std::mem::MaybeUninit::uninit());
                    } else {
                        p.write(g);
                    }
                    c0.push(T::from_parts(0.0, 0.0));
                }
            }
        });
        for x in &c.inject {
            let f = match x.what {
                NonFin::Nan => f64::NAN,
                NonFin::PInf => f64::INFINITY,
                NonFin::NInf => f64::NEG_INFINITY,
            };
            let (p, l) = match x.mat {
                0 => (pa.p, c.a),
                1 => (pb.p, c.b),
                _ => (pc.p, c.c),
            };
            let q = p.offset(off(l, x.i, x.j));
            let (re, im) = (*q).parts();
            let v = if x.comp == 0 { T::from_parts(f, im) } else { T::from_parts(re, f) };
            q.write(v);
            if x.mat == 2 {
                c0[x.i * n + x.j] = v;
            }
        }
        // what is stored now (aliasing layouts overwrite)
        let mut da: Vec<T> = Vec::with_capacity(m * k);
        for_each(m, k, |i, j| da.push(*pa.p.offset(off(c.a, i, j))));
        let mut db: Vec<T> = Vec::with_capacity(k * n);
        for_each(k, n, |i, j| db.push(*pb.p.offset(off(c.b, i, j))));
        // copy of C's storage to compare the gaps with
        let shadow: Vec<u8> = if c.sparse || (cfg!(miri) && c.cinit == CInit::Uninit) {
            vec![]
        } else {
            std::slice::from_raw_parts(pc.buf as *const u8, pc.len * esz).to_vec()
        };
        let (ar, ai) = c.alpha.parts();
        let (br, bi) = c.beta.parts();
        let alpha = T::from_parts(ar, ai);
        let beta = T::from_parts(br, bi);

        // pointers handed over
        let dang = |p: *mut T, r: usize, cc: usize, salt: u64| -> *mut T {
            if c.dangling && (r == 0 || cc == 0 || m == 0 || n == 0 || k == 0) {
                match mix(c.seed ^ salt) % 4 {
                    0 => std::ptr::null_mut(),
                    1 => std::mem::align_of::<T>() as *mut T,
                    2 if !cfg!(miri) => (usize::MAX - 0xfff) as *mut T,
                    _ => p,
                }
            } else {
                p
            }
        };
        // with k = 0, A and B are not accessed at all; with m or n = 0, nothing is
        let fa = if k == 0 || m == 0 || n == 0 { dang(pa.p, 0, 0, 1) } else { pa.p };
        let fb = if k == 0 || m == 0 || n == 0 { dang(pb.p, 0, 0, 2) } else { pb.p };
        let fc = if m == 0 || n == 0 { dang(pc.p, 0, 0, 3) } else { pc.p };

        // ---- arm the monitors
        if vgon && !c.sparse {
            for (p, _l) in [(&pa, 0), (&pb, 1), (&pc, 2)] {
                vg::noaccess(p.buf as *const u8, p.len * esz);
            }
            for a in [&*ar_a, &*ar_b, &*ar_c] {
                for (p, l) in a.margin_ranges() {
                    vg::noaccess(p, l);
                }
            }
            if k > 0 && n > 0 {
                for_each(m, k, |i, j| vg::defined(pa.p.offset(off(c.a, i, j)) as _, esz));
            }
            if m > 0 && k > 0 {
                for_each(k, n, |i, j| vg::defined(pb.p.offset(off(c.b, i, j)) as _, esz));
            }
            for_each(m, n, |i, j| {
                let p = pc.p.offset(off(c.c, i, j)) as *const u8;
                if c.beta.is_zero() { vg::undefined(p, esz) } else { vg::defined(p, esz) }
            });
        }
        let verr0 = if vgon { vg::errors() } else { 0 };
        if !no_protect {
            ar_a.protect(true);
            ar_b.protect(true);
            if k == 0 || m == 0 || n == 0 {
                ar_a.forbid(true);
                ar_b.forbid(true);
            }
            if m == 0 || n == 0 {
                ar_c.forbid(true);
            }
        }
        // storage another thread works on meanwhile: gaps and surroundings (written), inputs (read)
        let owner: Option<(Vec<Addr>, Vec<Addr>)> = if gap_owner && !c.sparse {
            let mut taken = std::collections::HashSet::new();
            let mut reads = vec![];
            for_each(m, k, |i, j| {
                let p = pa.p.offset(off(c.a, i, j)) as usize;
                if taken.insert(p) { reads.push(Addr(p)) }
            });
            for_each(k, n, |i, j| {
                let p = pb.p.offset(off(c.b, i, j)) as usize;
                if taken.insert(p) { reads.push(Addr(p)) }
            });
            for_each(m, n, |i, j| {
                taken.insert(pc.p.offset(off(c.c, i, j)) as usize);
            });
            let mut writes = vec![];
            for p in [&pa, &pb, &pc] {
                for i in 0..p.len {
                    let q = p.buf.add(i) as usize;
                    if !taken.contains(&q) { writes.push(Addr(q)) }
                }
            }
            for a in [&*ar_a, &*ar_b, &*ar_c] {
                for (i, (p, l)) in a.margin_ranges().into_iter().enumerate() {
                    for e in 0..(l / esz).min(16) {
                        let q = if i == 0 { p.wrapping_add(l).wrapping_sub((e + 1) * esz) } else { p.wrapping_add(e * esz) };
                        writes.push(Addr(q as usize));
                    }
                }
            }
            Some((writes, reads))
        } else {
            None
        };
        let mxcsr0 = mxcsr();
        if hostile {
            alloc::HOSTILE.store(c.alloc as usize, Relaxed);
        }
        let live0 = alloc::LIVE.load(Relaxed);
        let threaded = owner.is_some();
        alloc::PEAK.store(live0, Relaxed);
        CUR_CASE.store(c.idx, SeqCst);
        alloc::IN_CALL.fetch_add(1, SeqCst);
        crate::heart::enter();
        // ---- the call
        let call = || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                gemm(m, k, n, alpha, fa, c.a.rs, c.a.cs, fb, c.b.rs, c.b.cs, beta, fc, c.c.rs, c.c.cs);
            }))
        };
        let res = match owner {
            None => call(),
            Some((writes, reads)) => {
                out.owned = (writes.len() + reads.len()) as u64;
                std::thread::scope(|s| {
                    s.spawn(move || {
                        let (writes, reads) = (writes, reads);
                        for p in writes.iter() {
                            let q = p.0 as *mut T;
                            q.write_volatile(q.read_volatile());
                        }
                        for p in reads.iter() {
                            std::hint::black_box((p.0 as *const T).read_volatile());
                        }
                    });
                    call()
                })
            }
        };
        crate::heart::leave();
        alloc::IN_CALL.fetch_sub(1, SeqCst);
        out.peak = alloc::PEAK.load(Relaxed) - live0;
        if !threaded && res.is_ok() {
            out.kept = alloc::LIVE.load(Relaxed) - live0;
        }
        if hostile {
            alloc::HOSTILE.store(0, Relaxed);
        }
        let mxcsr1 = mxcsr();
        if !no_protect {
            if k == 0 || m == 0 || n == 0 {
                ar_a.forbid(false);
                ar_b.forbid(false);
            }
            if m == 0 || n == 0 {
                ar_c.forbid(false);
            }
            ar_a.protect(false);
            ar_b.protect(false);
        }
        if vgon && !c.sparse {
            let verr1 = vg::errors();
            if verr1 != verr0 {
                out.fails.push(Fail { kind: "vg", detail: format!("memcheck reported {} error(s) during the call", verr1 - verr0) });
            }
            let mut und = 0u64;
            for_each(m, n, |i, j| {
                if vg::check_defined(pc.p.offset(off(c.c, i, j)) as _, esz) != 0 {
                    und += 1;
                }
            });
            if und > 0 {
                out.fails.push(Fail { kind: "undef", detail: format!("{} elements of C undefined (or dependent on undefined data) after the call", und) });
            }
            for p in [&pa, &pb, &pc] {
                vg::defined(p.buf as *const u8, p.len * esz);
            }
            for a in [&*ar_a, &*ar_b, &*ar_c] {
                for (p, l) in a.margin_ranges() {
                    vg::defined(p, l);
                }
            }
        }
        if let Err(_) = res {
            let msg = PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default();
            out.fails.push(Fail { kind: "panic", detail: msg });
            return out;
        }
        if mxcsr0 != mxcsr1 {
            out.fails.push(Fail { kind: "fpstate", detail: format!("MXCSR control bits {:x} -> {:x}", mxcsr0, mxcsr1) });
        }
        let v = alloc::VIOL.swap(0, SeqCst);
        if v != 0 {
            out.fails.push(Fail {
                kind: "alloc",
                detail: format!("allocator contract: code {} info {:?}", v, alloc::VIOL_INFO.each_ref().map(|x| x.load(SeqCst))),
            });
        }
        // ---- results
        let mut dc: Vec<T> = Vec::with_capacity(m * n);
        for_each(m, n, |i, j| dc.push(*pc.p.offset(off(c.c, i, j))));
        out.elems = (m * n) as u64;
        let mut h1 = 0x1234u64;
        let mut h2 = 0x4321u64;
        for x in &dc {
            h1 = mix(h1 ^ canon_bits(*x, true));
            h2 = mix(h2 ^ canon_bits(*x, false));
        }
        out.hash_norm = h1;
        out.hash_bits = h2;
        if env.keep_c {
            env.last_c = dc.iter().map(|x| x.bits()).collect();
        }
        // ---- gaps and surroundings
        if !shadow.is_empty() {
            let old = shadow.as_ptr() as *const T;
            for_each(m, n, |i, j| {
                let o = pc.p.offset(off(c.c, i, j)).offset_from(pc.buf);
                pc.buf.offset(o).write(old.offset(o).read_unaligned());
            });
            let now = std::slice::from_raw_parts(pc.buf as *const u8, pc.len * esz);
            out.gaps = (pc.len - (m * n).min(pc.len)) as u64;
            if now != &shadow[..] {
                let at = now.iter().zip(&shadow).position(|(a, b)| a != b).unwrap();
                out.fails.push(Fail { kind: "gap", detail: format!("element offset {} of C's storage (a gap between its elements) was modified", at / esz) });
            }
        }
        for (a, kind) in [(&*ar_a, "margin-ab"), (&*ar_b, "margin-ab"), (&*ar_c, "margin-c")] {
            if let Some(o) = a.check_margins() {
                out.fails.push(Fail { kind, detail: format!("byte {} relative to the storage of {} was modified", o, a.name) });
            }
        }
        if c.sparse {
            ar_a.drop_pages();
            ar_b.drop_pages();
            ar_c.drop_pages();
        }
        // ---- judge
        judge::<T>(c, blk, &da, &db, &c0, &dc, cplx, &mut out);
    }
    out
}

#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn mxcsr() -> u32 {
    let mut x: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)) };
    x & 0xffc0
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub fn mxcsr() -> u32 {
    0
}

fn judge<T: Elem>(c: &Case, blk: Blk, da: &[T], db: &[T], c0: &[T], dc: &[T], cplx: bool, out: &mut Outcome) {
    let (m, k, n) = (c.m, c.k, c.n);
    if m == 0 || n == 0 {
        return;
    }
    let nonfin = !c.inject.is_empty() || c.alpha.nonfin.is_some() || c.beta.nonfin.is_some();
    if c.data == Data::Exact {
        let e = c.ea + c.eb + c.alpha.e;
        let ia = ints(da, c.ea);
        let ib = ints(db, c.eb);
        let beta0 = c.beta.is_zero();
        let ic = if beta0 { vec![(0, 0); m * n] } else { ints(c0, c.ec) };
        let al = (c.alpha.re, c.alpha.im);
        let be = if beta0 { (0, 0) } else { (c.beta.re, c.beta.im) };
        // exponent of the result: the product term decides, or beta*C where there is none
        let e = if k == 0 { c.ec + c.beta.e } else { e };
        let (ia, ib, ic): (&[(i64, i64)], &[(i64, i64)], &[(i64, i64)]) = (&ia, &ib, &ic);
        let expect = |i: usize, j: usize| -> (i64, i64) {
            // plain loops and operators: this also runs interpreted
            let mut s = (0i64, 0i64);
            let (mut p, mut q) = (i * k, j);
            if cplx {
                while p < i * k + k {
                    let (x, y) = (ia[p], ib[q]);
                    s.0 += x.0 * y.0 - x.1 * y.1;
                    s.1 += x.0 * y.1 + x.1 * y.0;
                    p += 1;
                    q += n;
                }
            } else {
                while p < i * k + k {
                    s.0 += ia[p].0 * ib[q].0;
                    p += 1;
                    q += n;
                }
            }
            cadd(cmul(al, s), cmul(be, ic[i * n + j]))
        };
        let got = |i: usize, j: usize| -> Option<(i64, i64)> {
            let (re, im) = dc[i * n + j].parts();
            Some((to_int(re, e)?, to_int(im, e)?))
        };
        let bad = |i: usize, j: usize, out: &mut Outcome| {
            if out.fails.iter().filter(|f| f.kind == "result").count() < 3 {
                let x = expect(i, j);
                out.fails.push(Fail {
                    kind: "result",
                    detail: format!("C[{},{}] = {} but exact value is {}", i, j, fmt_parts(dc[i * n + j].parts(), cplx), fmt_parts((scale(x.0, e), scale(x.1, e)), cplx)),
                });
            }
        };
        if nonfin {
            // zero where the stored value is not finite: those elements are judged separately
            nonfinite::<T>(c, da, db, c0, dc, cplx, out, &mut |i, j, out| {
                if got(i, j) != Some(expect(i, j)) {
                    let x = expect(i, j);
                    out.fails.push(Fail {
                        kind: "nonfinite",
                        detail: format!("C[{},{}] = {} does not depend on any non-finite input; exact value is {}", i, j, fmt_parts(dc[i * n + j].parts(), cplx), fmt_parts((scale(x.0, e), scale(x.1, e)), cplx)),
                    });
                }
            });
            return;
        }
        let lim = if cfg!(miri) { 60_000 } else { 150_000 };
        if c.work() <= lim {
            for i in 0..m {
                for j in 0..n {
                    if got(i, j) != Some(expect(i, j)) {
                        bad(i, j, out);
                    }
                }
            }
        } else {
            // C x = alpha A (B x) + beta C0 x in exact (wrapping) arithmetic, for random x
            out.freivalds = true;
            let mut r = Rng(c.seed ^ 0xF5E1_5A1D);
            let x: Vec<(i64, i64)> = (0..n).map(|_| (r.u64() as i64 | 1, if cplx { r.u64() as i64 } else { 0 })).collect();
            let mv = |mat: &[(i64, i64)], rows: usize, cols: usize, x: &[(i64, i64)]| -> Vec<(i64, i64)> {
                (0..rows)
                    .map(|i| {
                        let row = &mat[i * cols..(i + 1) * cols];
                        let mut s = (0i64, 0i64);
                        if cplx {
                            for p in 0..cols {
                                s = cadd(s, cmul(row[p], x[p]));
                            }
                        } else {
                            for p in 0..cols {
                                s.0 = s.0.wrapping_add(row[p].0.wrapping_mul(x[p].0));
                            }
                        }
                        s
                    })
                    .collect()
            };
            let y = mv(ib, k, n, &x);
            let z = mv(ia, m, k, &y);
            let w = mv(ic, m, n, &x);
            let mut gi = Vec::with_capacity(m * n);
            for i in 0..m {
                for j in 0..n {
                    match got(i, j) {
                        Some(v) => gi.push(v),
                        None => {
                            gi.push((0, 0));
                            bad(i, j, out);
                        }
                    }
                }
            }
            let g = mv(&gi, m, n, &x);
            for i in 0..m {
                let want = cadd(cmul(al, z[i]), cmul(be, w[i]));
                if g[i] != want {
                    let mut found = false;
                    for j in 0..n {
                        if got(i, j) != Some(expect(i, j)) {
                            bad(i, j, out);
                            found = true;
                        }
                    }
                    if !found {
                        out.fails.push(Fail { kind: "harness", detail: format!("row check of row {} disagrees with element check", i) });
                    }
                    break;
                }
            }
        }
        return;
    }
    // rounding data: error bound
    let nb = (k + blk.kc.max(1) - 1) / blk.kc.max(1);
    let (alr, ali) = T::from_parts(c.alpha.parts().0, c.alpha.parts().1).parts();
    let (ber, bei) = if c.beta.is_zero() { (0.0, 0.0) } else { T::from_parts(c.beta.parts().0, c.beta.parts().1).parts() };
    let steps = if cplx { 1.5 * (2 * k + 3 * nb + 24) as f64 } else { 1.05 * (k + 2 * nb + 16) as f64 };
    let check = |i: usize, j: usize, out: &mut Outcome| {
        let mut re = Dd(0.0, 0.0);
        let mut im = Dd(0.0, 0.0);
        let mut s = 0.0f64;
        for p in 0..k {
            let (xr, xi) = da[i * k + p].parts();
            let (yr, yi) = db[p * n + j].parts();
            re = re.add_prod(xr, yr);
            if cplx {
                re = re.add_prod(-xi, yi);
                im = im.add_prod(xr, yi);
                im = im.add_prod(xi, yr);
            }
            s += (xr.abs() + xi.abs()) * (yr.abs() + yi.abs());
        }
        let (cr, ci) = c0[i * n + j].parts();
        let mut er = re.scale(alr).add(im.scale(-ali));
        let mut ei = im.scale(alr).add(re.scale(ali));
        er = er.add_prod(ber, cr).add_prod(-bei, ci);
        ei = ei.add_prod(ber, ci).add_prod(bei, cr);
        let sabs = s * (alr.abs() + ali.abs()) + (cr.abs() + ci.abs()) * (ber.abs() + bei.abs());
        let bound = steps * T::U * sabs + (k + 8) as f64 * T::TINY;
        let (gr, gi) = dc[i * n + j].parts();
        let d = ((gr - er.0) - er.1).abs().max(((gi - ei.0) - ei.1).abs());
        if !(d <= bound) && out.fails.len() < 3 {
            out.fails.push(Fail {
                kind: "result",
                detail: format!("C[{},{}] = {} but true value is {}; error {:e} exceeds the forward error bound {:e}", i, j, fmt_parts((gr, gi), cplx), fmt_parts((er.0, ei.0), cplx), d, bound),
            });
        }
    };
    if c.work() <= 60_000 {
        for i in 0..m {
            for j in 0..n {
                check(i, j, out);
            }
        }
    } else {
        let mut r = Rng(c.seed ^ 0xABCD);
        let cnt = (3_000_000 / k.max(1)).clamp(16, 300);
        for t in 0..cnt {
            let i = match t % 4 {
                0 => m - 1 - r.usize(0, m.min(9) - 1),
                1 => r.usize(0, m.min(9) - 1),
                _ => r.usize(0, m - 1),
            };
            let j = match (t / 4) % 4 {
                0 => n - 1 - r.usize(0, n.min(9) - 1),
                1 => r.usize(0, n.min(9) - 1),
                _ => r.usize(0, n - 1),
            };
            check(i, j, out);
        }
        // cheap pass over everything: non-finite results cannot be right
        for (q, x) in dc.iter().enumerate() {
            let (re, im) = x.parts();
            if !(re.is_finite() && im.is_finite()) && out.fails.len() < 3 {
                out.fails.push(Fail { kind: "result", detail: format!("C[{},{}] = {} from finite inputs", q / n, q % n, fmt_parts((re, im), cplx)) });
            }
        }
    }
}

/// IEEE class expected for elements depending on non-finite inputs; `exact` judges the others
fn nonfinite<T: Elem>(c: &Case, da: &[T], db: &[T], c0: &[T], dc: &[T], cplx: bool, out: &mut Outcome, exact: &mut dyn FnMut(usize, usize, &mut Outcome)) {
    let (m, k, n) = (c.m, c.k, c.n);
    let fin = |x: &T| {
        let (a, b) = x.parts();
        a.is_finite() && b.is_finite()
    };
    let beta0 = c.beta.is_zero();
    let (ar, ai) = c.alpha.parts();
    let (br, bi) = c.beta.parts();
    let alpha_bad = k > 0 && !(ar.is_finite() && ai.is_finite());
    let beta_bad = !(br.is_finite() && bi.is_finite());
    let row_bad: Vec<bool> = (0..m).map(|i| (0..k).any(|p| !fin(&da[i * k + p]))).collect();
    let mut col_bad = vec![false; n];
    for p in 0..k {
        for j in 0..n {
            if !fin(&db[p * n + j]) {
                col_bad[j] = true;
            }
        }
    }
    for i in 0..m {
        for j in 0..n {
            let cbad = !beta0 && !fin(&c0[i * n + j]);
            if !(row_bad[i] || col_bad[j] || cbad || alpha_bad || beta_bad) {
                exact(i, j, out);
                continue;
            }
            out.affected += 1;
            let (gr, gi) = dc[i * n + j].parts();
            let lost = |out: &mut Outcome, why: &str| {
                if out.fails.len() < 4 {
                    out.fails.push(Fail { kind: "nonfinite", detail: format!("C[{},{}] = {}: {}", i, j, fmt_parts((gr, gi), cplx), why) });
                }
            };
            if cplx {
                if gr.is_finite() && gi.is_finite() {
                    lost(out, "depends on a non-finite value but is finite");
                }
                continue;
            }
            // real: NaN / sign classes
            let (mut nan, mut pos, mut neg) = (false, false, false);
            let mut some_unknown = false;
            let put = |v: f64, nan: &mut bool, pos: &mut bool, neg: &mut bool| {
                if v.is_nan() {
                    *nan = true
                } else if v == f64::INFINITY {
                    *pos = true
                } else if v == f64::NEG_INFINITY {
                    *neg = true
                }
            };
            let (mut tn, mut tp, mut tm) = (false, false, false);
            for p in 0..k {
                let x = da[i * k + p].parts().0;
                let y = db[p * n + j].parts().0;
                if !x.is_finite() || !y.is_finite() {
                    put(x * y, &mut tn, &mut tp, &mut tm);
                }
            }
            if k > 0 {
                if ar.is_nan() || tn {
                    nan = true;
                } else if ar.is_infinite() {
                    some_unknown = true;
                } else if tp || tm {
                    if ar == 0.0 {
                        nan = true
                    } else {
                        if tp { put(ar * f64::INFINITY, &mut nan, &mut pos, &mut neg) }
                        if tm { put(ar * f64::NEG_INFINITY, &mut nan, &mut pos, &mut neg) }
                    }
                }
            }
            if !beta0 {
                put(br * c0[i * n + j].parts().0, &mut nan, &mut pos, &mut neg);
            }
            if nan || (pos && neg) {
                if !gr.is_nan() {
                    lost(out, "must be NaN");
                }
            } else if some_unknown {
                if gr.is_finite() {
                    lost(out, "must not be finite");
                }
            } else if pos {
                if gr != f64::INFINITY {
                    lost(out, "must be +inf");
                }
            } else if neg {
                if gr != f64::NEG_INFINITY {
                    lost(out, "must be -inf");
                }
            } else if gr.is_finite() == false {
                // nothing non-finite remains in exact class arithmetic (cannot happen: inf/NaN terms always put a class)
                lost(out, "must be finite");
            }
        }
    }
}
