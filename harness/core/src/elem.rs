//! Element types and the signature of the operation under test.
pub type Gemm<T> = unsafe fn(usize, usize, usize, T, *const T, isize, isize, *const T, isize, isize, T, *mut T, isize, isize);

#[derive(Clone, Copy)]
pub struct Api {
    pub s: Gemm<f32>,
    pub d: Gemm<f64>,
    pub c: Option<Gemm<[f32; 2]>>,
    pub z: Option<Gemm<[f64; 2]>>,
    pub threading: bool,
    pub std: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    S,
    D,
    C,
    Z,
}
impl Ty {
    pub const ALL: [Ty; 4] = [Ty::S, Ty::D, Ty::C, Ty::Z];
    pub fn idx(self) -> usize {
        self as usize
    }
    pub fn name(self) -> &'static str {
        ["s", "d", "c", "z"][self as usize]
    }
    pub fn complex(self) -> bool {
        matches!(self, Ty::C | Ty::Z)
    }
    pub fn double(self) -> bool {
        matches!(self, Ty::D | Ty::Z)
    }
    pub fn prec(self) -> u32 {
        if self.double() { 53 } else { 24 }
    }
    pub fn emin(self) -> i32 {
        if self.double() { -1074 } else { -149 }
    }
    pub fn emax(self) -> i32 {
        if self.double() { 1023 } else { 127 }
    }
    pub fn size(self) -> usize {
        [4, 8, 8, 16][self as usize]
    }
}

pub trait Elem: Copy + Send + Sync + 'static {
    const TY: Ty;
    /// unit roundoff
    const U: f64;
    /// smallest positive number
    const TINY: f64;
    fn from_parts(re: f64, im: f64) -> Self;
    fn parts(self) -> (f64, f64);
    /// raw bits
    fn bits(self) -> u128;
    fn gemm(api: &Api) -> Option<Gemm<Self>>;
    /// hole pattern: a NaN with a recognisable payload in every component
    fn hole(k: u32) -> Self;
}
impl Elem for f32 {
    const TY: Ty = Ty::S;
    const U: f64 = 1.0 / (1u64 << 24) as f64;
    const TINY: f64 = 1.4012984643248171e-45;
    fn from_parts(re: f64, _im: f64) -> Self {
        re as f32
    }
    fn parts(self) -> (f64, f64) {
        (self as f64, 0.0)
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
    fn gemm(api: &Api) -> Option<Gemm<Self>> {
        Some(api.s)
    }
    fn hole(k: u32) -> Self {
        f32::from_bits(0x7fe5_0000 | (k & 0xffff))
    }
}
impl Elem for f64 {
    const TY: Ty = Ty::D;
    const U: f64 = 1.0 / (1u64 << 53) as f64;
    const TINY: f64 = 5e-324;
    fn from_parts(re: f64, _im: f64) -> Self {
        re
    }
    fn parts(self) -> (f64, f64) {
        (self, 0.0)
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
    fn gemm(api: &Api) -> Option<Gemm<Self>> {
        Some(api.d)
    }
    fn hole(k: u32) -> Self {
        f64::from_bits(0x7ffd_a5a5_0000_0000 | k as u64)
    }
}
impl Elem for [f32; 2] {
    const TY: Ty = Ty::C;
    const U: f64 = 1.0 / (1u64 << 24) as f64;
    const TINY: f64 = 1.4012984643248171e-45;
    fn from_parts(re: f64, im: f64) -> Self {
        [re as f32, im as f32]
    }
    fn parts(self) -> (f64, f64) {
        (self[0] as f64, self[1] as f64)
    }
    fn bits(self) -> u128 {
        (self[0].to_bits() as u128) << 64 | self[1].to_bits() as u128
    }
    fn gemm(api: &Api) -> Option<Gemm<Self>> {
        api.c
    }
    fn hole(k: u32) -> Self {
        [f32::hole(k), f32::hole(k ^ 0x5555)]
    }
}
impl Elem for [f64; 2] {
    const TY: Ty = Ty::Z;
    const U: f64 = 1.0 / (1u64 << 53) as f64;
    const TINY: f64 = 5e-324;
    fn from_parts(re: f64, im: f64) -> Self {
        [re, im]
    }
    fn parts(self) -> (f64, f64) {
        (self[0], self[1])
    }
    fn bits(self) -> u128 {
        (self[0].to_bits() as u128) << 64 | self[1].to_bits() as u128
    }
    fn gemm(api: &Api) -> Option<Gemm<Self>> {
        api.z
    }
    fn hole(k: u32) -> Self {
        [f64::hole(k), f64::hole(k ^ 0x5555)]
    }
}

/// v * 2^e, exactly (the result must be representable as an f64)
pub fn scale(v: i64, e: i32) -> f64 {
    let x = v as f64;
    if e < -1000 {
        // both steps exact: the first stays normal, the last result is representable
        return x * pow2(-60) * pow2(e + 60);
    }
    if e > 960 {
        return x * pow2(60) * pow2(e - 60);
    }
    x * pow2(e)
}
pub fn pow2(e: i32) -> f64 {
    if e >= -1022 && e <= 1023 {
        f64::from_bits(((e + 1023) as u64) << 52)
    } else if e < -1022 && e >= -1074 {
        f64::from_bits(1u64 << (e + 1074))
    } else if e > 1023 {
        f64::INFINITY
    } else {
        0.0
    }
}

/// x / 2^e as an exact integer, if it is one (and fits)
pub fn to_int(x: f64, e: i32) -> Option<i64> {
    if !x.is_finite() {
        return None;
    }
    if x == 0.0 {
        return Some(0);
    }
    let b = x.to_bits();
    let neg = (b >> 63) != 0;
    let ex = ((b >> 52) & 0x7ff) as i32;
    let frac = b & ((1u64 << 52) - 1);
    let (m, p) = if ex == 0 { (frac, -1074) } else { (frac | 1 << 52, ex - 1075) };
    let tz = m.trailing_zeros() as i32;
    let (m, p) = (m >> tz, p + tz);
    let sh = p - e;
    if sh < 0 {
        return None;
    }
    if sh > 62 || (m.leading_zeros() as i32) <= sh {
        return None;
    }
    let v = (m << sh) as i64;
    Some(if neg { -v } else { v })
}
