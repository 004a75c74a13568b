#![allow(dead_code)]
mod js;
mod vfs;
mod fs;
mod ops;
mod case;
// js_sys, web_sys, wasm_bindgen, wasm_bindgen_futures and yew are this crate
extern crate self as js_sys;
extern crate self as wasm_bindgen;
extern crate self as wasm_bindgen_futures;
extern crate self as web_sys;
extern crate self as yew;
pub use js::*;
pub mod prelude {
    pub use crate::js::JsValue;
}

/// The state of the views, which the operations report to
pub mod packing {
    #[derive(Clone)]
    pub enum ImageCreationState {
        CreatingFilesystem,
        PackingImage,
        WaitingForFlush,
    }
    #[derive(Clone)]
    pub enum WorkflowState {
        Packing(ImageCreationState),
    }
}
pub mod compress {
    pub use crate::packing::ImageCreationState;
    #[derive(Clone)]
    pub enum CisoProgressInfo {
        SectorCount(usize),
        SectorsDone(usize),
        Finished,
    }
    #[derive(Clone)]
    pub enum WorkflowState {
        Packing(ImageCreationState),
        Compressing,
    }
}
pub mod unpacking {
    #[derive(Clone)]
    pub enum WorkflowState {
        Unpacking,
    }
}
pub mod picker {
    pub trait FilePickerBackend: PartialEq + Eq + Clone + Default {
        type FileHandle;
        type DirectoryHandle;
    }
    pub enum PickerResult<T: FilePickerBackend> {
        FileHandle(T::FileHandle),
        DirectoryHandle(T::DirectoryHandle),
    }
    pub mod browser {
        #[derive(PartialEq, Eq, Clone, Copy, Default)]
        pub struct WebFSBackend;
        impl super::FilePickerBackend for WebFSBackend {
            type FileHandle = crate::js::FileSystemFileHandle;
            type DirectoryHandle = crate::js::FileSystemDirectoryHandle;
        }
    }
}


use crate::vfs::fs as disk;
use js::*;
use ops::{browser::WebXDVDFSOps, XDVDFSOperations};
use picker::PickerResult;
use std::future::Future;
use std::task::{Context, Poll, Waker};

pub fn wait<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return v;
        }
    }
}

fn source(n: usize) -> PickerResult<picker::browser::WebFSBackend> {
    if disk().nodes[n].kind == vfs::Kind::Dir {
        PickerResult::DirectoryHandle(FileSystemDirectoryHandle(FileSystemHandle(n)))
    } else {
        PickerResult::FileHandle(FileSystemFileHandle(FileSystemHandle(n)))
    }
}

pub fn pack(a: usize, b: usize) -> Result<(), String> {
    wait(WebXDVDFSOps::pack_image(source(a), FileSystemFileHandle(FileSystemHandle(b)), (|_| ()).into(), &(|_| ()).into()))
}

pub fn unpack(a: usize, b: usize) -> Result<(), String> {
    wait(WebXDVDFSOps::unpack_image(FileSystemFileHandle(FileSystemHandle(a)), FileSystemDirectoryHandle(FileSystemHandle(b)), (|_| ()).into(), &(|_| ()).into()))
}

fn main() {
    case::run();
}
