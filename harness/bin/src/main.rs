//! Thin binary around mmcore: the only crate that is recompiled when /repo changes.
use mmcore::elem::*;

#[global_allocator]
static GLOBAL: mmcore::alloc::MmAlloc = mmcore::alloc::MmAlloc;

#[cfg(feature = "cgemm")]
unsafe fn cg(m: usize, k: usize, n: usize, alpha: [f32; 2], a: *const [f32; 2], rsa: isize, csa: isize, b: *const [f32; 2], rsb: isize, csb: isize, beta: [f32; 2], c: *mut [f32; 2], rsc: isize, csc: isize) {
    use matrixmultiply::CGemmOption::Standard;
    matrixmultiply::cgemm(Standard, Standard, m, k, n, alpha, a, rsa, csa, b, rsb, csb, beta, c, rsc, csc)
}
#[cfg(feature = "cgemm")]
unsafe fn zg(m: usize, k: usize, n: usize, alpha: [f64; 2], a: *const [f64; 2], rsa: isize, csa: isize, b: *const [f64; 2], rsb: isize, csb: isize, beta: [f64; 2], c: *mut [f64; 2], rsc: isize, csc: isize) {
    use matrixmultiply::CGemmOption::Standard;
    matrixmultiply::zgemm(Standard, Standard, m, k, n, alpha, a, rsa, csa, b, rsb, csb, beta, c, rsc, csc)
}

fn main() {
    let api = Api {
        s: matrixmultiply::sgemm,
        d: matrixmultiply::dgemm,
        #[cfg(feature = "cgemm")]
        c: Some(cg),
        #[cfg(not(feature = "cgemm"))]
        c: None,
        #[cfg(feature = "cgemm")]
        z: Some(zg),
        #[cfg(not(feature = "cgemm"))]
        z: None,
        threading: cfg!(feature = "threading"),
        std: cfg!(feature = "std"),
    };
    mmcore::run(api);
}
