//! The commands, over the in-memory C library of vfs.rs.
pub use crate::h_setup::*;
use crate::sym;

pub const DESKTOP: bool = false;

/// the library's functions are not asynchronous here
pub fn wait<T>(t: T) -> T {
    t
}

static mut CODE: i32 = 0;

/// std::process::exit ends up here
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    CODE = code;
    sym::throw()
}

/// what `std::process::exit` becomes where a path runs two processes
pub fn leave(code: i32) -> ! {
    unsafe { exit(code) }
}

extern "C" fn program(_: *mut u8) {
    use std::io::Write;
    use std::process::{ExitCode, Termination};
    if crate::main().report() != ExitCode::SUCCESS {
        unsafe { CODE = 1 };
    }
    let _ = std::io::stdout().flush();
}

/// Runs the program with a command line that its parser accepts; an error: it exits with a status
/// other than 0.
pub fn exec(args: &[&str]) -> Result<(), ()> {
    sym::args(args);
    unsafe { CODE = 0 };
    let done = sym::catch(program);
    let code = unsafe { CODE };
    sym::check(code != 2, "the command line is accepted");
    let _ = done;
    if code == 0 {
        Ok(())
    } else {
        Err(())
    }
}

pub fn run(args: &[&str]) -> Result<(), ()> {
    let mut v = vec!["xdvdfs"];
    v.extend_from_slice(args);
    exec(&v)
}

/// Runs an extract-xiso command line.
pub fn exiso(args: &[&str]) -> Result<(), ()> {
    let mut v = vec!["extract-xiso"];
    v.extend_from_slice(args);
    exec(&v)
}
