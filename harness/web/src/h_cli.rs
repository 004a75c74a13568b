//! The operations of the web application, in place of the commands of the command line program.
pub use crate::h_setup::*;
use crate::js::*;
use crate::ops::browser::WebXDVDFSOps;
use crate::ops::XDVDFSOperations;
use crate::picker::PickerResult;
use crate::sym;
use crate::vfs::{fs, Kind};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub const DESKTOP: bool = true;

pub fn wait<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

fn node(p: &str) -> Option<usize> {
    fs().walk(p.as_bytes(), true, 0).ok().and_then(|x| x.2)
}

/// What the user picks: existing files and directories, or a new file or directory, which the
/// dialog creates.
fn pick(p: &str, dir: bool) -> FileSystemHandle {
    let f = fs();
    FileSystemHandle(node(p).unwrap_or_else(|| {
        let (d, name, _) = f.walk(p.as_bytes(), true, 0).unwrap_or((f.cwd, vec![], None));
        f.nodes.push(crate::vfs::Node { parent: d, name, kind: if dir { Kind::Dir } else { Kind::File }, data: vec![], pad: 0, tail: 0, lost: 0, live: true, new: false });
        f.nodes.len() - 1
    }))
}

fn source(p: &str) -> PickerResult<crate::picker::browser::WebFSBackend> {
    let h = pick(p, false);
    if fs().nodes[h.0].kind == Kind::Dir {
        PickerResult::DirectoryHandle(FileSystemDirectoryHandle(h))
    } else {
        PickerResult::FileHandle(FileSystemFileHandle(h))
    }
}

pub fn run(args: &[&str]) -> Result<(), ()> {
    let (a, b) = (args[1], args[2]);
    let r = match args[0] {
        "pack" => wait(WebXDVDFSOps::pack_image(source(a), FileSystemFileHandle(pick(b, false)), (|_| ()).into(), &(|_| ()).into())),
        "unpack" => wait(WebXDVDFSOps::unpack_image(FileSystemFileHandle(pick(a, false)), FileSystemDirectoryHandle(pick(b, true)), (|_| ()).into(), &(|_| ()).into())),
        _ => wait(WebXDVDFSOps::compress_image(source(a), FileSystemDirectoryHandle(pick(b, true)), (|_| ()).into(), (|_| ()).into(), &(|_| ()).into())),
    };
    if r.is_ok() {
        sym::check(all_closed(), "every file is closed");
    }
    r.map_err(|_| ())
}

pub fn exiso(_args: &[&str]) -> Result<(), ()> {
    sym::check(false, "not an operation of the web application");
    Err(())
}
