//! Which CPU instructions does a call execute on which (emulated) CPU?
//!
//! Every call runs single-stepped (trap flag) in a forked child whose CPUID and XGETBV answers are replaced by those
//! of a lesser CPU.  Each instruction executed inside the main executable is classified by its encoding and must
//! belong to an instruction set the emulated CPU and operating system report.
#![cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
use crate::elem::*;
use crate::rng::Rng;
use crate::{esc, Args};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const SSE3: u32 = 1 << 0;
pub const SSSE3: u32 = 1 << 1;
pub const SSE41: u32 = 1 << 2;
pub const SSE42: u32 = 1 << 3;
pub const POPCNT: u32 = 1 << 4;
pub const AVX: u32 = 1 << 5;
pub const FMA: u32 = 1 << 6;
pub const AVX2: u32 = 1 << 7;
pub const F16C: u32 = 1 << 8;
pub const BMI: u32 = 1 << 9;
pub const AVX512: u32 = 1 << 10;
pub const MOVBE: u32 = 1 << 11;
pub const OTHER: u32 = 1 << 12; // XOP, FMA4 ...
pub const OSXSAVE: u32 = 1 << 13;
pub const YMM: u32 = 1 << 14; // the operating system saves YMM state
pub const ZMM: u32 = 1 << 15;
const NAMES: [&str; 13] = ["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "fma", "avx2", "f16c", "bmi", "avx512", "movbe", "other"];

pub fn names(m: u32) -> String {
    let mut v: Vec<String> = (0..13).filter(|i| m >> i & 1 == 1).map(|i| NAMES[i].to_string()).collect();
    if m & OSXSAVE != 0 {
        v.push("osxsave".into());
    }
    if m & YMM != 0 {
        v.push("os-ymm".into());
    }
    if m & ZMM != 0 {
        v.push("os-zmm".into());
    }
    if v.is_empty() { "sse2".into() } else { v.join("+") }
}

static PROFILE: AtomicU32 = AtomicU32::new(0);
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_HI: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static CPUIDS: AtomicU64 = AtomicU64::new(0);
static COUNT: [AtomicU64; 13] = [const { AtomicU64::new(0) }; 13];
static BAD_CLASS: AtomicU32 = AtomicU32::new(0);
static BAD_RIP: AtomicUsize = AtomicUsize::new(0);
static ALLOWED: AtomicU32 = AtomicU32::new(0);

unsafe fn real_cpuid(leaf: u32, sub: u32) -> [u32; 4] {
    let r = std::arch::x86_64::__cpuid_count(leaf, sub);
    [r.eax, r.ebx, r.ecx, r.edx]
}

/// what the machine itself offers
pub fn host() -> u32 {
    unsafe {
        let l1 = real_cpuid(1, 0);
        let l7 = real_cpuid(7, 0);
        let c = l1[2];
        let b = |v: u32, n: u32| v >> n & 1 == 1;
        let mut m = 0;
        let mut put = |x: bool, f: u32| {
            if x {
                m |= f
            }
        };
        put(b(c, 0), SSE3);
        put(b(c, 9), SSSE3);
        put(b(c, 19), SSE41);
        put(b(c, 20), SSE42);
        put(b(c, 23), POPCNT);
        put(b(c, 22), MOVBE);
        put(b(c, 28), AVX);
        put(b(c, 12), FMA);
        put(b(c, 29), F16C);
        put(b(l7[1], 5), AVX2);
        put(b(l7[1], 3) && b(l7[1], 8), BMI);
        put(b(l7[1], 16), AVX512);
        put(b(c, 27), OSXSAVE);
        if b(c, 27) {
            let x = xgetbv();
            put(x & 6 == 6, YMM);
            put(x & 0xe6 == 0xe6, ZMM);
        }
        m
    }
}
unsafe fn xgetbv() -> u64 {
    let (lo, hi): (u32, u32);
    std::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") hi, options(nomem, nostack));
    (hi as u64) << 32 | lo as u64
}

unsafe fn fake_cpuid(leaf: u32, sub: u32, p: u32) -> [u32; 4] {
    let mut r = real_cpuid(leaf, sub);
    let clr = |v: &mut u32, bit: u32, f: u32| {
        if p & f == 0 {
            *v &= !(1 << bit)
        }
    };
    match leaf {
        1 => {
            clr(&mut r[2], 0, SSE3);
            clr(&mut r[2], 1, SSE42);
            clr(&mut r[2], 9, SSSE3);
            clr(&mut r[2], 12, FMA);
            clr(&mut r[2], 19, SSE41);
            clr(&mut r[2], 20, SSE42);
            clr(&mut r[2], 22, MOVBE);
            clr(&mut r[2], 23, POPCNT);
            clr(&mut r[2], 25, SSE42);
            clr(&mut r[2], 26, OSXSAVE);
            clr(&mut r[2], 27, OSXSAVE);
            clr(&mut r[2], 28, AVX);
            clr(&mut r[2], 29, F16C);
        }
        7 if sub == 0 => {
            clr(&mut r[1], 3, BMI);
            clr(&mut r[1], 5, AVX2);
            clr(&mut r[1], 8, BMI);
            for b in [16, 17, 21, 26, 27, 28, 30, 31] {
                clr(&mut r[1], b, AVX512);
            }
            if p & AVX512 == 0 {
                r[2] &= !(1 << 1 | 1 << 6 | 1 << 8 | 1 << 9 | 1 << 10 | 1 << 11 | 1 << 12 | 1 << 14);
                r[3] &= !(1 << 2 | 1 << 3 | 1 << 8 | 1 << 23 | 1 << 22 | 1 << 24 | 1 << 25);
            }
        }
        7 => {
            if p & AVX512 == 0 {
                r = [0; 4];
            }
        }
        0x8000_0001 => {
            r[2] &= !(1 << 6 | 1 << 11 | 1 << 16 | 1 << 21);
            clr(&mut r[2], 5, BMI);
        }
        _ => {}
    }
    r
}

/// instruction set of the instruction at p
pub unsafe fn classify(p: *const u8) -> u32 {
    let mut q = p;
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    for _ in 0..12 {
        match *q {
            0x66 => p66 = true,
            0xF2 => pf2 = true,
            0xF3 => pf3 = true,
            0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {}
            _ => break,
        }
        q = q.add(1);
    }
    let _ = p66;
    if (*q & 0xf0) == 0x40 {
        q = q.add(1);
    }
    match *q {
        0x62 => AVX512,
        0xC5 => vex(1, *q.add(1) >> 2 & 1 == 1, *q.add(2), *q.add(3)),
        0xC4 => vex(*q.add(1) & 0x1f, *q.add(2) >> 2 & 1 == 1, *q.add(3), *q.add(4)),
        0x8F if *q.add(1) & 0x38 != 0 => OTHER,
        0x0F => match *q.add(1) {
            0x38 => match *q.add(2) {
                0x00..=0x0B | 0x1C..=0x1E => SSSE3,
                0x37 => SSE42,
                0xF0 | 0xF1 => if pf2 { SSE42 } else { MOVBE },
                0xDB..=0xDF => OTHER,
                0xC8..=0xCD | 0xCF | 0xF5..=0xFF => OTHER,
                _ => SSE41,
            },
            0x3A => match *q.add(2) {
                0x0F => SSSE3,
                0x60..=0x63 => SSE42,
                0x44 | 0xCC..=0xCF | 0xDF => OTHER,
                _ => SSE41,
            },
            0xB8 if pf3 => POPCNT,
            0xD0 | 0x7C | 0x7D => SSE3,
            0xF0 if pf2 => SSE3,
            0x12 if pf2 || pf3 => SSE3,
            0x16 if pf3 => SSE3,
            _ => 0,
        },
        _ => 0,
    }
}
fn vex(map: u8, l: bool, op: u8, modrm: u8) -> u32 {
    match map {
        1 => match op {
            // integer instructions widened by AVX2
            0x60..=0x6D | 0x70..=0x76 | 0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xFE if l => AVX2,
            _ => AVX,
        },
        2 => match op {
            0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF => FMA,
            0x13 => F16C,
            0xF2 | 0xF3 | 0xF5 | 0xF6 | 0xF7 => BMI,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX2,
            0x18 | 0x19 if modrm >> 6 == 3 => AVX2,
            0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x40 if l => AVX2,
            0x50..=0x53 => OTHER,
            _ => AVX,
        },
        3 => match op {
            0x00..=0x02 | 0x38 | 0x39 | 0x46 => AVX2,
            0x1D => F16C,
            0xF0 => BMI,
            0x0E | 0x0F | 0x42 | 0x4C if l => AVX2,
            0x68..=0x6F | 0x78..=0x7F => OTHER,
            _ => AVX,
        },
        _ => OTHER,
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let u = &mut *(uc as *mut libc::ucontext_t);
        let g = &mut u.uc_mcontext.gregs;
        let p = PROFILE.load(Relaxed);
        loop {
            let rip = g[libc::REG_RIP as usize] as *const u8;
            STEPS.fetch_add(1, Relaxed);
            if *rip == 0x0F && *rip.add(1) == 0xA2 {
                let r = fake_cpuid(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32, p);
                g[libc::REG_RAX as usize] = r[0] as i64;
                g[libc::REG_RBX as usize] = r[1] as i64;
                g[libc::REG_RCX as usize] = r[2] as i64;
                g[libc::REG_RDX as usize] = r[3] as i64;
                g[libc::REG_RIP as usize] += 2;
                CPUIDS.fetch_add(1, Relaxed);
                continue;
            }
            if *rip == 0x0F && *rip.add(1) == 0x01 && *rip.add(2) == 0xD0 {
                let mut x = xgetbv();
                if p & YMM == 0 {
                    x &= !0xfc;
                }
                if p & ZMM == 0 {
                    x &= !0xe0;
                }
                g[libc::REG_RAX as usize] = (x & 0xffff_ffff) as i64;
                g[libc::REG_RDX as usize] = (x >> 32) as i64;
                g[libc::REG_RIP as usize] += 3;
                CPUIDS.fetch_add(1, Relaxed);
                continue;
            }
            let a = rip as usize;
            if a >= TEXT_LO.load(Relaxed) && a < TEXT_HI.load(Relaxed) {
                let c = classify(rip);
                if c != 0 {
                    COUNT[c.trailing_zeros() as usize].fetch_add(1, Relaxed);
                    if c & ALLOWED.load(Relaxed) == 0 && BAD_CLASS.load(Relaxed) == 0 {
                        BAD_RIP.store(a, Relaxed);
                        BAD_CLASS.store(c, Relaxed);
                    }
                }
            }
            return;
        }
    }
}

#[inline(always)]
unsafe fn tf(on: bool) {
    if on {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    } else {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

fn text_range() -> (usize, usize) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap().display().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let (mut lo, mut hi) = (usize::MAX, 0);
    for l in maps.lines() {
        if l.contains("r-xp") && l.ends_with(&exe) {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            lo = lo.min(usize::from_str_radix(a, 16).unwrap());
            hi = hi.max(usize::from_str_radix(b, 16).unwrap());
        }
    }
    (lo, hi)
}

/// how a small matrix is stored
#[derive(Clone, Copy, Debug)]
enum Lay {
    Row,
    Col,
    /// both strides above one
    RowGap,
    ColGap,
    /// unit stride with unused elements after each row or column
    RowPad,
    ColPad,
}

const LAYS: [Lay; 6] = [Lay::Row, Lay::Col, Lay::RowGap, Lay::ColGap, Lay::RowPad, Lay::ColPad];

impl Lay {
    fn strides(self, rows: usize, cols: usize) -> [usize; 2] {
        match self {
            Lay::Row => [cols.max(1), 1],
            Lay::Col => [1, rows.max(1)],
            Lay::RowGap => [cols * 2 + 3, 2],
            Lay::ColGap => [3, rows * 3 + 1],
            Lay::RowPad => [cols + 5, 1],
            Lay::ColPad => [1, rows + 3],
        }
    }
}

fn span(rows: usize, cols: usize, rs: usize, cs: usize) -> usize {
    if rows == 0 || cols == 0 { 1 } else { (rows - 1) * rs + (cols - 1) * cs + 1 }
}

#[derive(Clone, Copy, Debug)]
struct Shape {
    m: usize,
    k: usize,
    n: usize,
    la: Lay,
    lb: Lay,
    lc: Lay,
    alpha: f64,
    beta: f64,
}

impl Shape {
    fn new(m: usize, k: usize, n: usize, lc: Lay) -> Shape {
        Shape { m, k, n, la: Lay::Row, lb: Lay::Row, lc, alpha: 1.0, beta: 1.0 }
    }
}

/// returns (class counts, steps, cpuids) through the pipe as a text line per type
unsafe fn child<T: Elem>(api: &Api, fd: i32, shapes: &[Shape]) {
    let Some(g) = T::gemm(api) else { return };
    for c in COUNT.iter() {
        c.store(0, Relaxed);
    }
    STEPS.store(0, Relaxed);
    let mut wrong = 0;
    for s in shapes {
        let (m, k, n) = (s.m, s.k, s.n);
        let v = |x: usize| T::from_parts((x % 5) as f64 - 2.0, if T::TY.complex() { (x % 3) as f64 - 1.0 } else { 0.0 });
        let ([rsa, csa], [rsb, csb], [rsc, csc]) = (s.la.strides(m, k), s.lb.strides(k, n), s.lc.strides(m, n));
        let a: Vec<T> = (0..span(m, k, rsa, csa)).map(v).collect();
        let b: Vec<T> = (0..span(k, n, rsb, csb)).map(|x| v(x * 3 + 1)).collect();
        let c0: Vec<T> = (0..span(m, n, rsc, csc)).map(|x| v(x * 2 + 1)).collect();
        let mut c = c0.clone();
        let (cp, ap, bp) = (c.as_mut_ptr(), a.as_ptr(), b.as_ptr());
        let (alpha, beta) = (T::from_parts(s.alpha, 0.0), T::from_parts(s.beta, 0.0));
        tf(true);
        g(m, k, n, alpha, ap, rsa as isize, csa as isize, bp, rsb as isize, csb as isize, beta, cp, rsc as isize, csc as isize);
        tf(false);
        let mut want = c0;
        for i in 0..m {
            for j in 0..n {
                let at = i * rsc + j * csc;
                let (mut re, mut im) = (0.0, 0.0);
                for p in 0..k {
                    let (x, y) = (a[i * rsa + p * csa].parts(), b[p * rsb + j * csb].parts());
                    re += x.0 * y.0 - x.1 * y.1;
                    im += x.0 * y.1 + x.1 * y.0;
                }
                let w = want[at].parts();
                want[at] = T::from_parts(s.alpha * re + s.beta * w.0, s.alpha * im + s.beta * w.1);
            }
        }
        for (x, y) in c.iter().zip(&want) {
            wrong += (x.parts() != y.parts()) as u32;
        }
    }
    let cnt: Vec<String> = COUNT.iter().map(|c| c.load(Relaxed).to_string()).collect();
    let br = BAD_RIP.swap(0, Relaxed);
    let bc = BAD_CLASS.swap(0, Relaxed);
    let mut bytes = String::new();
    if br != 0 {
        for i in 0..12 {
            bytes += &format!("{:02x}", *(br as *const u8).add(i));
        }
    }
    let off = if br != 0 { br - TEXT_LO.load(Relaxed) } else { 0 };
    let s = format!("{} {} {} {} {} {} {} {}\n", T::TY.name(), STEPS.load(Relaxed), CPUIDS.load(Relaxed), wrong, bc, off, if bytes.is_empty() { "-" } else { &bytes }, cnt.join(","));
    libc::write(fd, s.as_ptr() as _, s.len());
}

pub fn run(api: Api, args: &Args) {
    let seed = args.u64("seed", 1);
    // instruction sets enabled at compile time
    let base = args.u64("base", 0) as u32;
    let random = args.u64("random", 10);
    // the kernels are selected at run time
    let dynamic = args.u64("dynamic", 1) != 0;
    let h = host();
    let (lo, hi) = text_range();
    TEXT_LO.store(lo, SeqCst);
    TEXT_HI.store(hi, SeqCst);
    let sse = SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | MOVBE;
    let mut profs: Vec<u32> = vec![
        h,
        h & !(AVX512 | ZMM),
        h & !(AVX512 | ZMM | FMA),
        h & !(AVX512 | ZMM | AVX2),
        h & !(AVX512 | ZMM | AVX2 | BMI),
        h & !(AVX512 | ZMM | FMA | AVX2 | BMI | F16C),
        h & sse,
        0,
        h & !(OSXSAVE | YMM | ZMM),
        h & !(YMM | ZMM),
        h & (SSE3 | SSSE3),
    ];
    let mut r = Rng::derive(seed, 0x6A7E, args.u64("start", 0));
    for _ in 0..random {
        let mut p = h & (r.u64() as u32);
        if r.chance(3, 4) {
            p |= h & (OSXSAVE | YMM);
        }
        // sets which build upon each other
        if p & AVX == 0 {
            p &= !(FMA | AVX2 | F16C | AVX512);
        }
        if p & AVX2 == 0 || p & FMA == 0 {
            p &= !AVX512;
        }
        if p & OSXSAVE == 0 {
            p &= !(YMM | ZMM);
        }
        if p & YMM == 0 {
            p &= !ZMM;
        }
        profs.push(p);
    }
    let mut out: Vec<String> = vec![];
    let mut steps = 0u64;
    let mut cpuids = 0u64;
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = std::collections::BTreeSet::new();
    let mut obs = vec![];
    let mut runs = 0u64;
    let (shard, shards) = (args.u64("shard", 0) as usize, args.u64("shards", 1) as usize);
    for (pi, &p) in profs.iter().enumerate().filter(|(i, _)| i % shards == shard) {
        let mut allowed = base;
        allowed |= p & (SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | MOVBE | BMI);
        if p & OSXSAVE != 0 && p & YMM != 0 {
            allowed |= p & (AVX | FMA | AVX2 | F16C);
            if p & ZMM != 0 {
                allowed |= p & AVX512;
            }
        }
        if !dynamic {
            allowed = base;
        }
        let mut shapes = vec![
            Shape::new(16, 5, 16, Lay::Col),
            Shape::new(16, 4, 16, Lay::Row),
            Shape::new(9, 3, 11, Lay::Row),
            Shape::new(1, 1, 1, Lay::Col),
            Shape::new(0, 3, 4, Lay::Col),
            Shape::new(7, 0, 5, Lay::Row),
            // the other ways of reading and of storing
            Shape { la: Lay::Col, lb: Lay::Col, alpha: 2.0, beta: 0.0, ..Shape::new(17, 3, 17, Lay::RowGap) },
            Shape { la: Lay::RowGap, lb: Lay::ColGap, alpha: -1.0, beta: 3.0, ..Shape::new(16, 2, 16, Lay::ColGap) },
            Shape { la: Lay::ColPad, lb: Lay::RowPad, alpha: 1.0, beta: 0.0, ..Shape::new(16, 9, 16, Lay::ColPad) },
            Shape { la: Lay::ColGap, lb: Lay::ColPad, alpha: 0.0, beta: 2.0, ..Shape::new(16, 9, 16, Lay::RowPad) },
        ];
        for _ in 0..4 {
            shapes.push(Shape {
                m: r.usize(1, 18),
                k: r.usize(1, 9),
                n: r.usize(1, 18),
                la: *r.pick(&LAYS),
                lb: *r.pick(&LAYS),
                lc: *r.pick(&LAYS),
                alpha: *r.pick(&[1.0, 1.0, 0.0, -1.0, 2.0, 0.5]),
                beta: *r.pick(&[0.0, 0.0, 1.0, -1.0, 2.0, 0.5]),
            });
        }
        PROFILE.store(p, SeqCst);
        ALLOWED.store(allowed, SeqCst);
        let lines = unsafe {
            let mut pipe = [0i32; 2];
            libc::pipe(pipe.as_mut_ptr());
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid == 0 {
                libc::close(pipe[0]);
                libc::alarm(100);
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_trap as usize;
                sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
                libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
                child::<f32>(&api, pipe[1], &shapes);
                child::<f64>(&api, pipe[1], &shapes);
                child::<[f32; 2]>(&api, pipe[1], &shapes);
                child::<[f64; 2]>(&api, pipe[1], &shapes);
                libc::_exit(0);
            }
            libc::close(pipe[1]);
            let mut s = vec![];
            let mut b = [0u8; 4096];
            loop {
                let n = libc::read(pipe[0], b.as_mut_ptr() as _, b.len());
                if n <= 0 {
                    break;
                }
                s.extend_from_slice(&b[..n as usize]);
            }
            libc::close(pipe[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let mut s = String::from_utf8_lossy(&s).to_string();
            if st != 0 {
                s += &format!("DIED {:x}\n", st);
            }
            s
        };
        let fail = |out: &mut Vec<String>, ty: &str, kind: &str, d: String| {
            if out.len() < 6 {
                out.push(format!(
                    "{{\"ev\":\"FAIL\",\"kind\":\"{}\",\"detail\":\"{}\",\"case\":{{\"op\":\"{}gemm\",\"cpu_profile\":{},\"cpu\":\"{}\",\"compiled_in\":\"{}\"}}}}",
                    kind, esc(&d), ty, pi, names(p), names(base)
                ));
            }
        };
        let mut o = vec![];
        for l in lines.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if f[0] == "DIED" || f[0].starts_with('{') || f.len() < 8 {
                fail(&mut out, "?", "gate-crash", format!("child ended abnormally: {}", l));
                continue;
            }
            runs += 1;
            let st: u64 = f[1].parse().unwrap();
            steps += st;
            cpuids = cpuids.max(f[2].parse().unwrap());
            let wrong: u64 = f[3].parse().unwrap();
            if wrong > 0 {
                fail(&mut out, f[0], "result", format!("{} wrong elements on this CPU", wrong));
            }
            let bc: u32 = f[4].parse().unwrap();
            if bc != 0 {
                fail(&mut out, f[0], "gate", format!("executed an instruction of {} (text offset {}, bytes {}), which is neither reported by the CPU/OS nor enabled at compile time", names(bc), f[5], f[6]));
            }
            let cnt: Vec<u64> = f[7].split(',').map(|x| x.parse().unwrap()).collect();
            let used: Vec<String> = cnt.iter().enumerate().filter(|(_, c)| **c > 0).map(|(i, c)| format!("{}:{}", NAMES[i], c)).collect();
            for (i, c) in cnt.iter().enumerate() {
                if *c > 0 {
                    *hist.entry(NAMES[i].to_string()).or_insert(0) += c;
                }
            }
            distinct.insert((p, f[0].to_string()));
            o.push(format!("{}gemm[{}]", f[0], used.join(" ")));
            // real products use AVX and FMA wherever there is either, complex ones where there is FMA
            let vexes = cnt[5] + cnt[6] + cnt[7];
            let real = f[0] == "s" || f[0] == "d";
            if vexes == 0 && allowed & if real { AVX } else { FMA } != 0 {
                fail(&mut out, f[0], "gate-unused", format!("the CPU offers {} but no AVX instruction was executed", if real { "AVX" } else { "FMA and AVX" }));
            }
            if real && allowed & FMA != 0 && allowed & AVX != 0 && cnt[6] == 0 {
                fail(&mut out, f[0], "gate-unused", "the CPU offers FMA but no FMA instruction was executed".into());
            }
        }
        obs.push(format!("{{\"cpu\":\"{}\",\"used\":\"{}\"}}", names(p), o.join(" ")));
    }
    for f in &out {
        println!("{}", f);
    }
    let hs: Vec<String> = hist.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!(
        "{{\"ev\":\"STATS\",\"cases\":{},\"distinct\":{},\"instructions_classified\":{},\"cpuid_answered\":{},\"host\":\"{}\",\"executed\":{{{}}},\"profiles\":[{}],\"fails\":{}}}",
        runs, distinct.len(), steps, cpuids, names(h), hs.join(","), obs.join(","), out.len()
    );
    let _ = std::io::stdout().flush();
}
