use std::future::Future;
use std::task::{Context, Poll, Waker};
mod compress;
mod pack;
mod unpack;

fn wait<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return v;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (w, s, d) = (tauri::Window::new(), a[2].clone(), a[3].clone());
    let r = match a[1].as_str() {
        "pack" => wait(pack::pack_image(w, s, d)),
        "unpack" => wait(unpack::unpack_image(w, s, d)),
        _ => wait(compress::compress_image(w, s, d)),
    };
    if let Some(m) = r {
        println!("{m}");
        std::process::exit(1);
    }
}
