//! The commands of the desktop application, in place of those of the command line program.
pub use crate::h_setup::*;
use crate::sym;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub const DESKTOP: bool = true;

pub fn wait<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

/// tauri runs commands on a pool of threads
fn sent<F: Future + Send>(f: F) -> F {
    f
}

/// The front end takes an answer without a message for success
pub fn run(args: &[&str]) -> Result<(), ()> {
    let w = tauri::Window::new();
    let a = args[1].to_string();
    let b = args[2].to_string();
    let r = match args[0] {
        "pack" => wait(sent(crate::pack::pack_image(w, a, b))),
        "unpack" => wait(sent(crate::unpack::unpack_image(w, a, b))),
        _ => wait(sent(crate::compress::compress_image(w, a, b))),
    };
    match r {
        None => Ok(()),
        Some(_) => Err(()),
    }
}

pub fn exiso(_args: &[&str]) -> Result<(), ()> {
    sym::check(false, "not a command of the desktop application");
    Err(())
}
