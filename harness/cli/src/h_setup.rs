//! Common to the harnesses of the programs.
use crate::sym;

/// a working directory /w and a file that nothing may touch
pub fn setup() -> usize {
    let f = crate::vfs::fs();
    f.reset();
    let w = f.dir(0, "w");
    f.cwd = w;
    f.file(w, "keep", b"keep".to_vec());
    let e = f.dir(0, "etc");
    f.file(e, "keep", b"keep".to_vec());
    w
}

/// contents whose first, middle and last byte are symbolic
pub fn data(seed: u8, n: usize) -> Vec<u8> {
    let mut v = crate::image::pattern(seed, n);
    if n != 0 {
        v[0] = sym::u8("data");
        v[n / 2] = sym::u8("data");
        v[n - 1] = sym::u8("data");
    }
    v
}
