//! Case descriptions and their generators.  A case is a pure function of (profile, seed, index, block sizes).
use crate::elem::Ty;
use crate::rng::{hash_str, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lay {
    pub rs: isize,
    pub cs: isize,
}

/// (lowest, highest) element offset addressed by an r x c matrix
pub fn extent(l: Lay, r: usize, c: usize) -> Option<(i128, i128)> {
    if r == 0 || c == 0 {
        return None;
    }
    let a = (r as i128 - 1) * l.rs as i128;
    let b = (c as i128 - 1) * l.cs as i128;
    Some((a.min(0) + b.min(0), a.max(0) + b.max(0)))
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// no two elements of an r x c matrix share an address
pub fn injective(l: Lay, r: usize, c: usize) -> bool {
    if r > 1 && l.rs == 0 || c > 1 && l.cs == 0 {
        return false;
    }
    if r <= 1 || c <= 1 {
        return true;
    }
    let (rs, cs) = (l.rs.unsigned_abs() as u128, l.cs.unsigned_abs() as u128);
    let g = gcd(rs, cs);
    // collision iff di*rs == dj*cs for some 0 < di < r, 0 < dj < c
    !(cs / g < r as u128 && rs / g < c as u128)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    End,
    Start,
    Mid(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NonFin {
    Nan,
    PInf,
    NInf,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Data {
    /// entries are integers times a power of two such that every intermediate value is exact
    Exact,
    /// entries with full mantissas and exponents in -range..=range: every operation rounds
    Round(i32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CInit {
    /// meaningful finite values
    Values,
    /// NaN / infinity / garbage bit patterns (only when beta is zero)
    Garbage,
    /// uninitialised memory (interpreter, memcheck; garbage natively) (only when beta is zero)
    Uninit,
}

/// A scalar in exact representation: (re + i im) * 2^e
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Scal {
    pub re: i64,
    pub im: i64,
    pub e: i32,
    /// give zeros a negative sign
    pub negz: bool,
    pub nonfin: Option<(NonFin, u8)>,
}
impl Scal {
    pub fn int(re: i64) -> Scal {
        Scal { re, im: 0, e: 0, negz: false, nonfin: None }
    }
    pub fn is_zero(&self) -> bool {
        self.re == 0 && self.im == 0 && self.nonfin.is_none()
    }
    pub fn norm1(&self) -> i128 {
        self.re.unsigned_abs() as i128 + self.im.unsigned_abs() as i128
    }
    pub fn parts(&self) -> (f64, f64) {
        let z = |v: i64| if v == 0 && self.negz { -0.0 } else { crate::elem::scale(v, self.e) };
        let (mut re, mut im) = (z(self.re), z(self.im));
        if let Some((k, which)) = self.nonfin {
            let x = match k {
                NonFin::Nan => f64::NAN,
                NonFin::PInf => f64::INFINITY,
                NonFin::NInf => f64::NEG_INFINITY,
            };
            if which & 1 == 0 { re = x } else { im = x }
        }
        (re, im)
    }
}

#[derive(Clone, Debug)]
pub struct Inject {
    /// 0 = A, 1 = B, 2 = C
    pub mat: u8,
    pub i: usize,
    pub j: usize,
    pub what: NonFin,
    /// component (complex)
    pub comp: u8,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub idx: u64,
    pub ty: Ty,
    pub m: usize,
    pub k: usize,
    pub n: usize,
    pub a: Lay,
    pub b: Lay,
    pub c: Lay,
    /// B lives in A's storage, displaced by this many elements
    pub share: Option<usize>,
    pub alpha: Scal,
    pub beta: Scal,
    pub data: Data,
    /// magnitudes of integer entries and their exponents
    pub va: i64,
    pub vb: i64,
    pub vc: i64,
    pub ea: i32,
    pub eb: i32,
    pub ec: i32,
    pub cinit: CInit,
    pub place: [Place; 3],
    pub inject: Vec<Inject>,
    pub seed: u64,
    /// strides exceed what dense buffers allow: use the sparse arena
    pub sparse: bool,
    /// 0 system allocator, 1 guard page behind, 2 minimally aligned, guard page before
    pub alloc: u8,
    /// pass dangling pointers for operands which may not be accessed
    pub dangling: bool,
    /// pattern of zero or equal entries in A, B, C (see `Case::pattern`)
    pub fill: [u8; 3],
    /// one element (matrix, position) that differs from what `seed` gives
    pub tweak: Option<(u8, u64)>,
    pub class: &'static str,
}

/// what becomes of an entry
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    Keep,
    Zero,
    NegZero,
    One,
}

impl Case {
    /// entry (i, j) of an r x c matrix under pattern `f`
    pub fn pattern(&self, f: u8, i: usize, j: usize, r: usize, c: usize) -> Fill {
        let h = |x: usize, n: u64| crate::rng::mix(self.seed ^ (x as u64) << 8 ^ f as u64) % n;
        let zero = match f {
            0 => false,
            1 => true,
            2 => h(i, 2) == 0,
            3 => h(j, 2) == 0,
            4 => h(i * c + j, 8) != 0,
            5 => (i / 8 + j / 8) % 2 == 0,
            6 => return Fill::One,
            7 => i != j,
            8 => i < r / 2,
            9 => j < c / 2,
            10 => i + 1 < r,
            11 => j + 1 < c,
            12 => h(i / 8, 2) == 0,
            13 => h(j / 8, 2) == 0,
            _ => return Fill::NegZero,
        };
        if zero { Fill::Zero } else { Fill::Keep }
    }
    pub fn work(&self) -> u128 {
        self.m as u128 * self.k as u128 * self.n as u128
    }
    pub fn json(&self) -> String {
        let inj: Vec<String> = self
            .inject
            .iter()
            .map(|x| format!("[\"{}\",{},{},\"{:?}\",{}]", ["A", "B", "C"][x.mat as usize], x.i, x.j, x.what, x.comp))
            .collect();
        let (ar, ai) = self.alpha.parts();
        let (br, bi) = self.beta.parts();
        format!(
            "{{\"idx\":{},\"class\":\"{}\",\"op\":\"{}gemm\",\"m\":{},\"k\":{},\"n\":{},\"rsa\":{},\"csa\":{},\"rsb\":{},\"csb\":{},\"rsc\":{},\"csc\":{},\"alpha\":\"{:e}{:+e}i\",\"beta\":\"{:e}{:+e}i\",\"share\":\"{:?}\",\"data\":\"{:?}\",\"cinit\":\"{:?}\",\"place\":\"{:?}\",\"alloc\":{},\"inject\":[{}],\"exps\":[{},{},{}],\"fill\":{:?},\"tweak\":\"{:?}\"}}",
            self.idx, self.class, self.ty.name(), self.m, self.k, self.n, self.a.rs, self.a.cs, self.b.rs, self.b.cs, self.c.rs, self.c.cs,
            ar, ai, br, bi, self.share, self.data, self.cinit, self.place, self.alloc, inj.join(","), self.ea, self.eb, self.ec, self.fill, self.tweak
        )
    }
    /// identity of the call's shape (for counting distinct cases)
    pub fn shape_hash(&self) -> u64 {
        let sc = |s: &Scal| crate::rng::mix(crate::rng::mix(s.re as u64 ^ crate::rng::mix(s.im as u64)) ^ (s.e as u64) << 2 ^ s.nonfin.is_some() as u64);
        let v = [
            self.ty as u64, self.m as u64, self.k as u64, self.n as u64, self.a.rs as u64, self.a.cs as u64, self.b.rs as u64, self.b.cs as u64, self.c.rs as u64, self.c.cs as u64,
            sc(&self.alpha), sc(&self.beta), self.share.map_or(u64::MAX, |x| x as u64),
        ];
        let mut h = 0;
        for x in v {
            h = crate::rng::mix(h ^ x);
        }
        h
    }
}

/// Block sizes of a type: MC, KC, NC
#[derive(Clone, Copy, Debug)]
pub struct Blk {
    pub mc: usize,
    pub kc: usize,
    pub nc: usize,
}
pub const DEFAULT_BLK: [Blk; 4] = [
    Blk { mc: 64, kc: 256, nc: 1024 },
    Blk { mc: 64, kc: 256, nc: 1024 },
    Blk { mc: 32, kc: 256, nc: 512 },
    Blk { mc: 32, kc: 256, nc: 512 },
];

#[derive(Clone)]
pub struct GenCfg {
    pub profile: String,
    pub seed: u64,
    pub blk: [Blk; 4],
    /// approximate limit for m*k*n of a case
    pub cap: u64,
    pub complex: bool,
    /// interpreter: tiny cases
    pub tiny: bool,
    /// no strides beyond memory sizes (address space is short under memcheck)
    pub no_sparse: bool,
    pub only: Option<Ty>,
}

fn near(r: &mut Rng, x: usize) -> usize {
    let d = *r.pick(&[-9i64, -8, -7, -5, -4, -3, -2, -1, -1, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 7, 8, 9]);
    (x as i64 + d).max(1) as usize
}

#[derive(Clone, Copy, PartialEq)]
enum DimKind {
    Small,
    Tile,
    Boundary,
    Thin,
    Mid,
    Thread,
    /// as few operations as get divided among threads (interpreter)
    MThread,
    /// two or three of the loops over blocks at once, with exact and inexact ends
    Blocks,
    /// a square, or a product of squares
    Square,
}

fn gen_dims(r: &mut Rng, kind: DimKind, b: Blk, cap: u64) -> (usize, usize, usize) {
    for _ in 0..40 {
        let d = match kind {
            DimKind::Small => (r.usize(1, 12), r.usize(1, 14), r.usize(1, 12)),
            DimKind::Tile => {
                let f = |r: &mut Rng| if r.chance(1, 2) { r.usize(1, 40) } else { near(r, 8 * (1 + 0)) + 8 * r.usize(0, 5) };
                (f(r), r.usize(1, 70), f(r))
            }
            DimKind::Boundary => {
                let dim = |r: &mut Rng, blk: usize, mult: usize| match r.below(8) {
                    0 => r.usize(1, 9),
                    1 => r.usize(1, 33),
                    2 | 3 => near(r, blk),
                    4 => near(r, blk * 2),
                    5 => near(r, blk * r.clone().usize(1, mult)),
                    6 => near(r, (blk / 2).max(1)),
                    _ => r.logint(1, 2 * blk),
                };
                (dim(r, b.mc, 5), dim(r, b.kc, 4), dim(r, b.nc, 3))
            }
            DimKind::Thin => {
                let big = r.logint(30, 200_000);
                let s = |r: &mut Rng| r.logint(1, 24);
                match r.below(3) {
                    0 => (big, s(r), s(r)),
                    1 => (s(r), big, s(r)),
                    _ => (s(r), s(r), big),
                }
            }
            DimKind::Mid => (r.logint(1, 400), r.logint(1, 600), r.logint(1, 400)),
            DimKind::Blocks => {
                // what a dimension can be of its block: less, just that, just more, several
                let f = |r: &mut Rng, blk: usize, lo: usize, hi: usize| {
                    let x = blk * if r.chance(1, 2) { lo } else { r.usize(lo, hi) };
                    match r.below(5) {
                        0 | 1 => x.max(1),
                        2 => (x + 1).max(1),
                        3 => x.saturating_sub(1).max(1),
                        _ => (x + r.usize(1, blk)).max(1),
                    }
                };
                let s = |r: &mut Rng| match r.below(4) {
                    0 => 1,
                    1 => r.usize(2, 9),
                    2 => r.usize(1, 4) * 8,
                    _ => r.usize(1, 33),
                };
                match r.below(8) {
                    0 | 1 => (f(r, b.mc, 1, 4), f(r, b.kc, 1, 3), s(r)),
                    2 => (f(r, b.mc, 1, 3), s(r), f(r, b.nc, 1, 2)),
                    3 | 4 => (s(r), f(r, b.kc, 1, 4), f(r, b.nc, 1, 4)),
                    5 => {
                        // a single row or column of results through many blocks
                        let z = r.usize(1, 3);
                        match r.below(3) {
                            0 => (1, f(r, b.kc, 1, 5), f(r, b.nc, 1, 5)),
                            1 => (f(r, b.mc, 1, 40), f(r, b.kc, 1, 5), z),
                            _ => (z, f(r, b.kc, 3, 9), z),
                        }
                    }
                    _ => {
                        // all three
                        let d = |r: &mut Rng, blk: usize| blk + *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8, 9]);
                        match r.below(3) {
                            0 => (d(r, b.mc), d(r, b.kc), d(r, b.nc)),
                            1 => (d(r, b.mc) + b.mc / 2, d(r, b.kc), d(r, b.nc)),
                            _ => (d(r, b.mc), d(r, b.kc) - *r.pick(&[0usize, 9, 1]), d(r, b.nc)),
                        }
                    }
                }
            }
            DimKind::Square => {
                let x = match r.below(5) {
                    0 => 1usize << r.usize(1, 8),
                    1 => near(r, 1usize << r.clone().usize(3, 8)),
                    2 => near(r, b.mc),
                    3 => 4 * r.usize(1, 48),
                    _ => r.usize(2, 100),
                };
                let y = match r.below(3) {
                    0 => r.logint(1, 600),
                    1 => near(r, b.kc),
                    _ => 1usize << r.usize(0, 9),
                };
                match r.below(8) {
                    0 | 1 | 2 | 3 => (x, x, x),
                    4 | 5 => (x, y, x),
                    6 => (x, x, y),
                    _ => (y, x, x),
                }
            }
            DimKind::MThread => {
                let f = (if cap > 5_000_000 && r.chance(1, 3) { 4usize } else { 2 }) << 14;
                // enough rows for both loops to be divided, or for one only
                let up = (3 * (b.mc / 2) + 3) / 4 * 4;
                let (m, n) = match r.below(4) {
                    0 => (r.usize(1, 8), r.usize(9, 16)),
                    _ => (r.usize(up.max(13), up.max(13) + 3), r.usize(2, 4)),
                };
                (m, f / (m + n) + 1, n)
            }
            DimKind::Thread => {
                let m = match r.below(6) {
                    0 => near(r, 3 * (b.mc / 2)),
                    1 => near(r, 2 * b.mc),
                    2 => near(r, 3 * b.mc),
                    3 => near(r, b.mc),
                    4 if r.chance(1, 6) => near(r, b.mc * r.clone().usize(9, 60)),
                    4 => r.usize(1, 4 * b.mc),
                    _ => near(r, b.mc * r.clone().usize(2, 8)),
                };
                // m*k + k*n near a multiple of 2^14
                let f = r.usize(1, 6) << 14;
                let k = match r.below(4) {
                    0 => near(r, b.kc),
                    1 => near(r, 2 * b.kc),
                    _ => r.usize(b.kc / 2 + 1, 3 * b.kc),
                };
                let n = if r.chance(1, 2) {
                    let want = f / k;
                    near(r, want.saturating_sub(m).max(1))
                } else {
                    match r.below(5) {
                        0 => r.usize(1, 9),
                        1 => r.usize(1, 64),
                        2 => near(r, b.nc),
                        _ => r.usize(1, 300),
                    }
                };
                (m, k, n)
            }
        };
        let most = (d.0 as u128 * d.1 as u128).max(d.1 as u128 * d.2 as u128).max(d.0 as u128 * d.2 as u128);
        if d.0 as u128 * d.1 as u128 * d.2 as u128 <= cap as u128 && most <= MAX_DENSE as u128 / 2 {
            return d;
        }
    }
    (r.usize(1, 20), r.usize(1, 20), r.usize(1, 20))
}

const MAX_DENSE: i128 = 12 << 20; // elements

fn odd_stride(r: &mut Rng, zero_ok: bool) -> isize {
    let v = *r.pick(&[isize::MAX, isize::MIN, isize::MAX / 3, -1, 1, 7, -7, (1i64 << 40) as isize, (-(1i64 << 33)) as isize, 0, isize::MIN + 1, 3]);
    if v == 0 && !zero_ok { 1 } else { v }
}

/// a layout for an r x c matrix; `unique`: elements must not alias (destination)
fn gen_layout(r: &mut Rng, rows: usize, cols: usize, unique: bool, exotic: bool) -> Lay {
    let (ri, ci) = (rows as isize, cols as isize);
    for _ in 0..60 {
        let w = if exotic { r.below(18) } else { r.below(6) };
        let pad = r.range(0, 9) as isize;
        let mut l = match w {
            0 | 4 => Lay { rs: ci, cs: 1 },
            1 | 5 => Lay { rs: 1, cs: ri },
            2 => Lay { rs: ci + pad, cs: 1 },
            3 => Lay { rs: 1, cs: ri + pad },
            6 => {
                let s = r.range(2, 5) as isize;
                Lay { rs: ci * s + pad, cs: s }
            }
            7 => {
                let s = r.range(2, 5) as isize;
                Lay { rs: s, cs: ri * s + pad }
            }
            8 => {
                // as 0..3 with independent signs
                let (a, b) = if r.chance(1, 2) { (ci + pad, 1) } else { (1, ri + pad) };
                Lay { rs: if r.chance(2, 3) { -a } else { a }, cs: if r.chance(2, 3) { -b } else { b } }
            }
            9 => {
                let s = r.range(2, 4) as isize;
                let (a, b) = if r.chance(1, 2) { (ci * s + pad, s) } else { (s, ri * s + pad) };
                Lay { rs: if r.chance(1, 2) { -a } else { a }, cs: if r.chance(1, 2) { -b } else { b } }
            }
            10 => Lay { rs: r.range(-3, 3) as isize, cs: r.range(-3, 3) as isize },
            11 => match r.below(4) {
                0 => Lay { rs: 0, cs: *r.pick(&[1, -1, 2]) },
                1 => Lay { rs: *r.pick(&[1, -1, 3]), cs: 0 },
                2 => Lay { rs: 0, cs: 0 },
                _ => Lay { rs: 1, cs: 1 },
            },
            12 => {
                let (a, b) = (r.range(1, 40) as isize, r.range(1, 40) as isize);
                Lay { rs: if r.chance(1, 2) { a } else { -a }, cs: if r.chance(1, 2) { b } else { -b } }
            }
            13 => {
                // interleaved lattice: rs and cs of similar size
                let q = ri.max(ci) + r.range(0, 3) as isize;
                Lay { rs: q, cs: q + if r.chance(1, 2) { 1 } else { -1 } }
            }
            14 => {
                let s = 1 << r.range(1, 9);
                Lay { rs: s, cs: s * ri.max(1) }
            }
            15 | 16 => {
                // strides equal to sizes that mean something inside
                let f = |r: &mut Rng| {
                    let v = *r.pick(&[1, 1, 1, 2, 3, 4, 4, 8, 8, 8, 16, 16, 32, 64, 256, ri, ci, ri + 1, ci + 1]);
                    if r.chance(1, 5) { -v } else { v }
                };
                Lay { rs: f(r), cs: f(r) }
            }
            _ => {
                // power of two leading dimension
                let ld = (ci.max(ri) as usize).next_power_of_two() as isize;
                if r.chance(1, 2) { Lay { rs: ld, cs: 1 } } else { Lay { rs: 1, cs: ld } }
            }
        };
        if exotic && rows <= 1 && r.chance(1, 2) {
            l.rs = odd_stride(r, true);
        }
        if exotic && cols <= 1 && r.chance(1, 2) {
            l.cs = odd_stride(r, true);
        }
        if unique && !injective(l, rows, cols) {
            continue;
        }
        if let Some((lo, hi)) = extent(l, rows, cols) {
            if hi - lo + 1 > MAX_DENSE.max(3 * rows as i128 * cols as i128) {
                continue;
            }
        }
        return l;
    }
    Lay { rs: ci.max(1), cs: 1 }
}

fn gen_sparse_layout(r: &mut Rng, rows: usize, cols: usize, esz: usize) -> Lay {
    // total span below 2^41 bytes
    for _ in 0..50 {
        let lim = (1i64 << 41) / esz as i64;
        let per_r = lim / (rows as i64 + cols as i64);
        let f = |r: &mut Rng| {
            let v = match r.below(7) {
                // around 2^31 and 2^32 elements
                4 => (1i64 << 31) + r.range(-3, 3),
                5 => (1i64 << 32) + r.range(-3, 3),
                6 => r.range(per_r / 64, per_r / 16 + 1),
                // the same in bytes
                0 => (1i64 << 31) / esz as i64 + r.range(-3, 3),
                1 => (1i64 << 32) / esz as i64 + r.range(-3, 3),
                2 => r.range(per_r / 4, per_r),
                _ => r.range(1, 5),
            };
            if r.chance(1, 2) { v } else { -v }
        };
        let l = Lay { rs: f(r) as isize, cs: f(r) as isize };
        if let Some((lo, hi)) = extent(l, rows, cols) {
            if (hi - lo + 1) * esz as i128 >= 1 << 41 {
                continue;
            }
        }
        if injective(l, rows, cols) {
            return l;
        }
    }
    Lay { rs: cols as isize, cs: 1 }
}

#[derive(Clone, Copy, PartialEq)]
enum ScalKind {
    Simple,
    Special,
    BetaZero,
    BetaNonZero,
}

fn gen_scal(r: &mut Rng, cplx: bool, special: bool) -> Scal {
    let base = *r.pick(&[0i64, 1, -1, 1, 2, -2, 3, 5, -7, 11]);
    let mut s = Scal::int(base);
    if cplx && r.chance(2, 3) {
        s.im = *r.pick(&[0i64, 1, -1, 2, -3, 5]);
        if r.chance(1, 5) {
            s.re = 0;
        }
    }
    if special {
        s.negz = r.chance(1, 4);
        if r.chance(1, 3) {
            s.re = r.range(-1000, 1000);
        }
        if cplx && r.chance(1, 3) {
            s.im = r.range(-1000, 1000);
        }
    }
    if r.chance(1, 3) {
        s.e = r.range(-4, 3) as i32;
    }
    s
}

/// choose exponents and magnitudes such that the whole computation is exact
fn fit_exact(r: &mut Rng, c: &mut Case, wide_exp: bool) {
    let ty = c.ty;
    let cf: i128 = if ty.complex() { 2 } else { 1 };
    // leave one bit of slack in each of the two halves
    let cap: i128 = 1i128 << (ty.prec() - 1);
    let prod_cap = cap / 2;
    let anorm = c.alpha.norm1().max(1);
    let bnorm = c.beta.norm1().max(1);
    let k = c.k.max(1) as i128;
    let mut vab = prod_cap / (anorm * k * cf);
    while vab < 1 {
        // scalar too long for this k: shorten it
        c.alpha.re = c.alpha.re.signum();
        c.alpha.im = 0;
        vab = prod_cap / (k * cf);
        if vab < 1 {
            vab = 1;
        }
    }
    let full = r.chance(1, 2);
    let lim = |r: &mut Rng, x: i128| -> i64 {
        let x = x.max(1).min(1 << 40) as i64;
        if full { x } else { x.min(*r.pick(&[1, 2, 3, 7, 20])) }
    };
    let mut s = 1i128;
    while (s + 1) * (s + 1) <= vab && s < (1 << 26) {
        s *= 2;
        if s * s > vab {
            s /= 2;
            break;
        }
    }
    // unbalanced magnitudes now and then
    let sh = if full && s > 4 { r.below(3) as u32 } else { 0 };
    let va = lim(r, (s << sh).min(vab));
    let vb = lim(r, vab / (va as i128));
    c.va = va;
    c.vb = vb;
    if c.share.is_some() {
        c.va = va.min(vb);
        c.vb = c.va;
    }
    c.vc = {
        let x = prod_cap / (bnorm * cf);
        if x < 1 {
            c.beta.re = c.beta.re.signum();
            c.beta.im = 0;
        }
        lim(r, (prod_cap / (c.beta.norm1().max(1) * cf)).min(1 << 40))
    };
    // exponents: result exponent e = ea + eb + e_alpha = ec + e_beta; all values and intermediates must be representable
    let top = ty.emax() - ty.prec() as i32 - 2;
    let lo = ty.emin();
    for _ in 0..50 {
        let e = if wide_exp { r.range(lo as i64, top as i64) as i32 } else { *r.pick(&[0, 0, 0, -3, 10, -20]) };
        let eal = c.alpha.e;
        let ebe = c.beta.e;
        let eab = e - eal;
        let ec = e - ebe;
        if eab < lo || eab > top || ec < lo || ec > top {
            continue;
        }
        let ea = if wide_exp {
            let l = lo.max(eab - top);
            let h = top.min(eab - lo);
            if l > h {
                continue;
            }
            r.range(l as i64, h as i64) as i32
        } else {
            r.range(-3, 3) as i32
        };
        let eb = eab - ea;
        if ea < lo || ea > top || eb < lo || eb > top {
            continue;
        }
        if c.share.is_some() {
            if eab % 2 != 0 {
                continue;
            }
            c.ea = eab / 2;
            c.eb = eab / 2;
        } else {
            c.ea = ea;
            c.eb = eb;
        }
        c.ec = ec;
        return;
    }
    c.alpha.e = 0;
    c.beta.e = 0;
    c.ea = 0;
    c.eb = 0;
    c.ec = 0;
}

fn gen_place(r: &mut Rng, ty: Ty) -> Place {
    match r.below(4) {
        0 | 1 => Place::End,
        2 => Place::Start,
        _ => {
            let al = if ty.double() { 8 } else { 4 };
            Place::Mid(r.below(64 / al as u64 * 2) as usize * al)
        }
    }
}

const EXH_K: [usize; 12] = [1, 2, 3, 4, 5, 7, 8, 9, 11, 16, 17, 33];
/// number of cases of the exhaustive profile
pub const EXH_TOTAL: u64 = 18 * 18 * 12 * 4;

pub fn gen_case(g: &GenCfg, idx: u64) -> Case {
    let mut rr = Rng::derive(g.seed, hash_str(&g.profile), idx);
    let r = &mut rr;
    let p = g.profile.as_str();
    let mut ty = *r.pick(&Ty::ALL);
    if !g.complex {
        ty = if r.chance(1, 2) { Ty::S } else { Ty::D };
    }
    if let Some(t) = g.only {
        ty = t;
    }
    // -- dimensions
    let kinds: &[(DimKind, u64)] = match p {
        "prod" | "scal" | "empty" => &[(DimKind::Small, 22), (DimKind::Tile, 26), (DimKind::Boundary, 17), (DimKind::Thin, 8), (DimKind::Mid, 8), (DimKind::Thread, 7), (DimKind::Blocks, 4), (DimKind::Square, 8)],
        "layout" | "bz" | "nonfin" => &[(DimKind::Small, 26), (DimKind::Tile, 32), (DimKind::Boundary, 12), (DimKind::Thin, 5), (DimKind::Mid, 7), (DimKind::Thread, 7), (DimKind::Blocks, 3), (DimKind::Square, 8)],
        "foot" | "vg" => &[(DimKind::Small, 32), (DimKind::Tile, 36), (DimKind::Boundary, 9), (DimKind::Thin, 5), (DimKind::Mid, 4), (DimKind::Thread, 5), (DimKind::Blocks, 2), (DimKind::Square, 7)],
        "thr" => &[(DimKind::Thread, 68), (DimKind::Boundary, 12), (DimKind::Mid, 6), (DimKind::Blocks, 6), (DimKind::Square, 8)],
        "hist" => &[(DimKind::Small, 26), (DimKind::Tile, 36), (DimKind::Boundary, 13), (DimKind::Thread, 15), (DimKind::Blocks, 2), (DimKind::Square, 8)],
        "mthr" => &[(DimKind::MThread, 1)],
        "conc" => &[(DimKind::Small, 30), (DimKind::Tile, 26), (DimKind::Thread, 27), (DimKind::Boundary, 9), (DimKind::Square, 8)],
        _ => &[(DimKind::Small, 25), (DimKind::Tile, 35), (DimKind::Boundary, 25), (DimKind::Mid, 15)],
    };
    let mut w = r.below(kinds.iter().map(|x| x.1).sum());
    let mut kind = kinds[0].0;
    for &(kk, ww) in kinds {
        if w < ww {
            kind = kk;
            break;
        }
        w -= ww;
    }
    if g.tiny && kind != DimKind::MThread {
        kind = if r.chance(1, 2) { DimKind::Small } else { DimKind::Tile };
    }
    let exh = p == "exh";
    let (mut m, mut k, mut n) = if exh {
        // a permutation, so that any part of it is spread over everything
        let mut x = (idx % EXH_TOTAL) * 6151 % EXH_TOTAL;
        let t = (x % 4) as usize;
        x /= 4;
        ty = Ty::ALL[t];
        if !g.complex && t >= 2 {
            ty = Ty::ALL[t - 2];
        }
        let m = x % 18;
        x /= 18;
        let n = x % 18;
        x /= 18;
        (m as usize + 1, EXH_K[(x % 12) as usize], n as usize + 1)
    } else {
        gen_dims(r, kind, g.blk[ty.idx()], g.cap)
    };
    // a dimension of one now and then
    if !exh && r.chance(1, 12) {
        match r.below(3) {
            0 => m = 1,
            1 => k = 1,
            _ => n = 1,
        }
    }
    let class = match kind {
        _ if exh => "exhaustive",
        DimKind::Small => "small",
        DimKind::Tile => "tile",
        DimKind::Boundary => "boundary",
        DimKind::Thin => "thin",
        DimKind::Mid => "mid",
        DimKind::Thread | DimKind::MThread => "thread",
        DimKind::Blocks => "blocks",
        DimKind::Square => "square",
    };
    if p == "empty" {
        match r.below(7) {
            0 | 1 | 2 => k = 0,
            3 => m = 0,
            4 => n = 0,
            5 => {
                m = 0;
                n = 0
            }
            _ => {
                k = 0;
                if r.chance(1, 2) { m = 0 } else { n = 0 }
            }
        }
    }
    if p == "nonfin" && r.chance(1, 12) {
        // no product, only beta * C
        k = 0;
    }
    let mut c = Case {
        idx, ty, m, k, n,
        a: Lay { rs: 1, cs: 1 }, b: Lay { rs: 1, cs: 1 }, c: Lay { rs: 1, cs: 1 },
        share: None,
        alpha: Scal::int(1), beta: Scal::int(0),
        data: Data::Exact,
        va: 1, vb: 1, vc: 1, ea: 0, eb: 0, ec: 0,
        cinit: CInit::Values,
        place: [gen_place(r, ty), gen_place(r, ty), gen_place(r, ty)],
        inject: vec![],
        seed: r.u64(),
        sparse: false,
        alloc: r.below(3) as u8,
        dangling: false,
        fill: [0; 3],
        tweak: None,
        class,
    };
    // -- layouts
    let exotic = match p {
        "prod" | "exh" | "thr" => r.chance(1, 4),
        "scal" | "nonfin" | "hist" | "conc" => r.chance(1, 2),
        _ => r.chance(9, 10),
    };
    c.a = gen_layout(r, m, k, false, exotic);
    c.b = gen_layout(r, k, n, false, exotic);
    c.c = gen_layout(r, m, n, true, exotic);
    if exotic && p != "hist" && r.chance(1, 8) {
        // all three of a shape family where special relations hold
        c.b = Lay { rs: c.a.cs, cs: c.a.rs };
        if let Some((lo, hi)) = extent(c.b, k, n) {
            if hi - lo + 1 > MAX_DENSE {
                c.b = Lay { rs: n as isize, cs: 1 };
            }
        }
    }
    if (p == "layout" || p == "foot") && r.chance(1, 10) && m * k + k * n + m * n <= 600 && m > 0 && n > 0 && k > 0 && !g.tiny && !g.no_sparse && cfg!(target_pointer_width = "64") {
        c.sparse = true;
        let e = ty.size();
        if r.chance(2, 3) { c.a = gen_sparse_layout(r, m, k, e); }
        if r.chance(2, 3) { c.b = gen_sparse_layout(r, k, n, e); }
        if r.chance(2, 3) { c.c = gen_sparse_layout(r, m, n, e); }
    }
    if !c.sparse && (p == "layout" || p == "foot" || p == "hist") && r.chance(1, 6) && m > 0 && n > 0 && k > 0 {
        c.share = Some(if r.chance(1, 2) { 0 } else { r.usize(0, 7) });
        if r.chance(1, 3) || kind == DimKind::Square {
            // A * A^T style: b is the transpose of a
            c.b = Lay { rs: c.a.cs, cs: c.a.rs };
        }
        let ok = |l: Lay, rr: usize, cc: usize| extent(l, rr, cc).map_or(true, |(lo, hi)| hi - lo < MAX_DENSE);
        if !ok(c.b, k, n) {
            c.b = Lay { rs: 1, cs: 1 };
        }
    }
    // -- scalars
    let sk = match p {
        "scal" => ScalKind::Special,
        "bz" => ScalKind::BetaZero,
        "empty" => ScalKind::Special,
        _ => match r.below(4) {
            0 => ScalKind::BetaZero,
            1 => ScalKind::BetaNonZero,
            _ => ScalKind::Simple,
        },
    };
    c.alpha = gen_scal(r, ty.complex(), sk == ScalKind::Special);
    c.beta = gen_scal(r, ty.complex(), sk == ScalKind::Special);
    if r.chance(1, 12) {
        // scalars that stand in a relation with each other
        match r.below(5) {
            0 => c.beta = c.alpha.clone(),
            1 => {
                c.alpha = Scal::int(1);
                c.beta = Scal::int(1);
            }
            2 => {
                c.alpha = Scal::int(-1);
                c.beta = Scal::int(1);
            }
            3 if p == "scal" || p == "nonfin" || p == "hist" => {
                c.alpha = Scal::int(0);
                c.beta = Scal::int(1);
            }
            _ => {
                c.beta = c.alpha.clone();
                c.beta.im = -c.beta.im;
            }
        }
        if sk == ScalKind::BetaNonZero && c.beta.is_zero() {
            c.beta = Scal::int(1);
        }
    }
    if p != "scal" && c.alpha.is_zero() && r.chance(4, 5) {
        c.alpha = Scal::int(1);
    }
    match sk {
        ScalKind::BetaZero => {
            c.beta = Scal { re: 0, im: 0, e: 0, negz: r.chance(1, 2), nonfin: None };
        }
        ScalKind::BetaNonZero if c.beta.is_zero() => c.beta = Scal::int(if r.chance(1, 2) { 1 } else { -1 }),
        _ => {}
    }
    if p == "scal" && !exh {
        // extreme scalars
        let rng_e = |r: &mut Rng| {
            let (lo, hi) = (ty.emin(), ty.emax() - 11);
            *r.pick(&[lo, lo + 3, -126, -60, 0, 60, hi])
        };
        if r.chance(1, 4) { c.alpha.e = rng_e(r); }
        if r.chance(1, 4) { c.beta.e = rng_e(r); }
    }
    // -- data
    let round = match p {
        "thr" | "hist" => r.chance(3, 4),
        "prod" | "exh" | "layout" | "scal" | "conc" => r.chance(1, 4),
        "eq" => r.chance(1, 5),
        _ => false,
    };
    if round {
        c.data = Data::Round(*r.pick(&[0, 2, 8, 20]));
        c.alpha.e = c.alpha.e.clamp(-20, 20);
        c.beta.e = c.beta.e.clamp(-20, 20);
    } else {
        let wide = (p == "scal" || p == "prod") && r.chance(1, 4) || (p == "thr" || p == "layout" || p == "eq" || p == "hist" || p == "conc" || p == "exh") && r.chance(1, 8) || p == "scal" && (c.alpha.e.abs() > 8 || c.beta.e.abs() > 8);
        fit_exact(r, &mut c, wide);
    }
    // -- prior contents of C
    if c.beta.is_zero() {
        c.cinit = match p {
            "bz" | "empty" => *r.pick(&[CInit::Garbage, CInit::Garbage, CInit::Uninit]),
            _ => *r.pick(&[CInit::Values, CInit::Garbage, CInit::Uninit]),
        };
    }
    if p == "empty" {
        c.dangling = r.chance(2, 3);
        if r.chance(1, 6) { c.alpha.nonfin = Some((*r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]), r.below(2) as u8)); }
        if r.chance(1, 8) {
            c.beta.nonfin = Some((*r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]), r.below(2) as u8 * ty.complex() as u8));
            c.cinit = CInit::Values;
        }
        if r.chance(1, 8) && m > 0 && n > 0 && !c.beta.is_zero() {
            let comp = if ty.complex() { r.below(2) as u8 } else { 0 };
            c.inject.push(Inject { mat: 2, i: r.usize(0, m - 1), j: r.usize(0, n - 1), what: *r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]), comp });
        }
    }
    // -- zeros and equal entries in patterns
    if r.chance(1, 6) {
        for f in c.fill.iter_mut() {
            if r.chance(1, 2) {
                *f = r.below(15) as u8;
            }
        }
    }
    // -- non-finite values
    if p == "nonfin" {
        let cnt = r.usize(1, 3);
        for _ in 0..cnt {
            let what = *r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]);
            let comp = if ty.complex() { r.below(2) as u8 } else { 0 };
            let edge = |r: &mut Rng, x: usize| match r.below(4) {
                0 => x - 1,
                1 => 0,
                _ => r.usize(0, x - 1),
            };
            let mat = if k == 0 {
                2
            } else if c.beta.is_zero() {
                r.below(2) as u8
            } else {
                r.below(3) as u8
            };
            if mat == 2 && c.beta.is_zero() {
                continue;
            }
            let (i, j) = match mat {
                0 => (edge(r, m), edge(r, k)),
                1 => (edge(r, k), edge(r, n)),
                _ => (edge(r, m), edge(r, n)),
            };
            c.inject.push(Inject { mat, i, j, what, comp });
        }
        if r.chance(1, 10) {
            c.alpha.nonfin = Some((*r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]), r.below(2) as u8 * ty.complex() as u8));
        }
        if r.chance(1, 10) {
            c.beta.nonfin = Some((*r.pick(&[NonFin::Nan, NonFin::PInf, NonFin::NInf]), r.below(2) as u8 * ty.complex() as u8));
            c.cinit = CInit::Values;
        }
        for f in c.fill.iter_mut() {
            if r.chance(1, 4) {
                *f = r.below(15) as u8;
            }
        }
        // aliasing layouts would spread an injected value over several elements; the expectation is computed from
        // what is actually stored, so that is fine
    }
    c
}

/// The same call with the same values, but other storage layouts of A and B and other placements of everything.
pub fn relayout(c: &mut Case, salt: u64) {
    let mut rr = Rng::derive(c.seed, 0x11AF0, salt);
    let r = &mut rr;
    for p in 0..3 {
        c.place[p] = gen_place(r, c.ty);
    }
    c.alloc = r.below(3) as u8;
    if c.share.is_some() || c.sparse || !injective(c.a, c.m, c.k) || !injective(c.b, c.k, c.n) {
        return;
    }
    c.a = gen_layout(r, c.m, c.k, true, true);
    c.b = gen_layout(r, c.k, c.n, true, true);
}
