//! memcheck client requests (no-ops when not running under valgrind).
#[cfg(all(target_arch = "x86_64", not(miri)))]
pub unsafe fn request(code: u64, a1: u64, a2: u64) -> u64 {
    let args: [u64; 6] = [code, a1, a2, 0, 0, 0];
    let mut res: u64 = 0;
    std::arch::asm!(
        "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
        inout("rdx") res, in("rax") args.as_ptr(), options(nostack)
    );
    let _ = &args;
    std::hint::black_box(&args);
    res = std::hint::black_box(res);
    res
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub unsafe fn request(_code: u64, _a1: u64, _a2: u64) -> u64 {
    0
}
const MC: u64 = ((b'M' as u64) << 24) | ((b'C' as u64) << 16);
pub fn running() -> bool {
    unsafe { request(0x1001, 0, 0) != 0 }
}
pub fn noaccess(p: *const u8, n: usize) {
    if n > 0 {
        unsafe { request(MC, p as u64, n as u64) };
    }
}
pub fn undefined(p: *const u8, n: usize) {
    if n > 0 {
        unsafe { request(MC + 1, p as u64, n as u64) };
    }
}
pub fn defined(p: *const u8, n: usize) {
    if n > 0 {
        unsafe { request(MC + 2, p as u64, n as u64) };
    }
}
/// 0 if all bytes are defined, else the address of the first undefined one (also reported as an error)
pub fn check_defined(p: *const u8, n: usize) -> u64 {
    unsafe { request(MC + 5, p as u64, n as u64) }
}
pub fn errors() -> u64 {
    unsafe { request(0x1201, 0, 0) }
}
