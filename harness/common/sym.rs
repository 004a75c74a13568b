//! Interface between the harnesses and the symbolic executor (or, natively, the trace replayer).
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn symx_u8(p: *const u8, n: usize) -> u8;
        pub fn symx_u16(p: *const u8, n: usize) -> u16;
        pub fn symx_u32(p: *const u8, n: usize) -> u32;
        pub fn symx_u64(p: *const u8, n: usize) -> u64;
        pub fn symx_make(b: *mut u8, len: usize, p: *const u8, n: usize);
        pub fn symx_assume(c: bool);
        pub fn symx_check(c: bool, p: *const u8, n: usize);
        pub fn symx_reach(p: *const u8, n: usize);
        pub fn symx_out(tag: u64, v: u64);
        pub fn symx_concretize(v: u64) -> u64;
        pub fn symx_debug(v: u64);
        pub fn symx_catch(f: extern "C" fn(*mut u8), a: *mut u8) -> i32;
        pub fn symx_throw() -> !;
        pub fn symx_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
    }
}
pub fn u8(n: &str) -> u8 {
    unsafe { ffi::symx_u8(n.as_ptr(), n.len()) }
}
pub fn u16(n: &str) -> u16 {
    unsafe { ffi::symx_u16(n.as_ptr(), n.len()) }
}
pub fn u32(n: &str) -> u32 {
    unsafe { ffi::symx_u32(n.as_ptr(), n.len()) }
}
pub fn u64(n: &str) -> u64 {
    unsafe { ffi::symx_u64(n.as_ptr(), n.len()) }
}
pub fn bytes(b: &mut [u8], n: &str) {
    unsafe { ffi::symx_make(b.as_mut_ptr(), b.len(), n.as_ptr(), n.len()) }
}
pub fn assume(c: bool) {
    unsafe { ffi::symx_assume(c) }
}
#[track_caller]
pub fn check(c: bool, m: &str) {
    unsafe { ffi::symx_check(c, m.as_ptr(), m.len()) }
}
/// Marks a path as having exercised a non-vacuous case.
pub fn reach(m: &str) {
    unsafe { ffi::symx_reach(m.as_ptr(), m.len()) }
}
pub fn out(tag: u64, v: u64) {
    unsafe { ffi::symx_out(tag, v) }
}
/// Splits on the value (one path per feasible value).
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::symx_concretize(v) }
}
pub fn debug(v: u64) {
    unsafe { ffi::symx_debug(v) }
}
/// A length in lo..=hi, concrete on each path.
pub fn len(n: &str, lo: usize, hi: usize) -> usize {
    if lo == hi {
        return lo;
    }
    let v = u8(n);
    assume((v as usize) >= lo && (v as usize) <= hi);
    concretize(v as u64) as usize
}
pub fn boolean(n: &str) -> bool {
    let v = u8(n);
    assume(v <= 1);
    v == 1
}
extern "C" {
    fn symx_is_symbolic(v: u64) -> bool;
}
pub fn is_symbolic(v: u64) -> bool {
    unsafe { symx_is_symbolic(v) }
}
/// Runs f; false if `throw` ended it.
pub fn catch(f: extern "C" fn(*mut u8)) -> bool {
    unsafe { ffi::symx_catch(f, core::ptr::null_mut()) == 0 }
}
pub fn throw() -> ! {
    unsafe { ffi::symx_throw() }
}
/// The arguments of the process.
pub fn args(args: &[&str]) {
    let mut v = Vec::new();
    for a in args {
        let mut s = a.as_bytes().to_vec();
        s.push(0);
        v.push(s.leak().as_ptr());
    }
    v.push(core::ptr::null());
    let v: &'static [*const u8] = v.leak();
    unsafe { ffi::symx_args(args.len() as i32, v.as_ptr(), &v[args.len()]) }
}
