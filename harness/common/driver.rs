
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        mod entry {
            $(
                #[no_mangle]
                #[inline(never)]
                pub extern "C" fn $f(a: u64, b: u64, c: u64, d: u64) {
                    crate::$m::$f(a, b, c, d)
                }
            )*
        }
        static ENTRIES: &[(&str, extern "C" fn(u64, u64, u64, u64))] = &[
            $((stringify!($f), entry::$f)),*
        ];
    };
}

#[no_mangle]
pub extern "C" fn harness_dispatch(name: *const std::ffi::c_char, args: *const u64, n: usize) -> i32 {
    let name = unsafe { std::ffi::CStr::from_ptr(name) }.to_str().unwrap();
    let mut a = [0u64; 4];
    for i in 0..n.min(4) {
        a[i] = unsafe { *args.add(i) };
    }
    for (k, f) in ENTRIES {
        if *k == name {
            f(a[0], a[1], a[2], a[3]);
            return 0;
        }
    }
    1
}

extern "C" {
    fn rt_main(argc: i32, argv: *const *const u8) -> i32;
}
#[no_mangle]
pub extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    unsafe { rt_main(argc, argv) }
}
