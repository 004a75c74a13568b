#![no_main]
#![allow(dead_code, unexpected_cfgs)]
#[path = "../../common/sym.rs"]
mod sym;
#[path = "../../cli/src/vfs.rs"]
mod vfs;
#[path = "../../cli/src/image.rs"]
mod image;
#[path = "../../cli/src/h_setup.rs"]
mod h_setup;
mod js;
mod h_cli;
#[path = "../../cli/src/h_unpack.rs"]
mod h_unpack;
#[path = "../../cli/src/h_pack.rs"]
mod h_pack;
#[path = "../../desk/src/h_desk.rs"]
mod h_desk;
#[path = "/repo/xdvdfs-cli/src/img.rs"]
mod img;

// js_sys, web_sys, wasm_bindgen, wasm_bindgen_futures and yew are this crate
extern crate self as js_sys;
extern crate self as wasm_bindgen;
extern crate self as wasm_bindgen_futures;
extern crate self as web_sys;
extern crate self as yew;
pub use js::*;
pub mod prelude {
    pub use crate::js::JsValue;
}

/// The state of the views, which the operations report to
pub mod packing {
    #[derive(Clone)]
    pub enum ImageCreationState {
        CreatingFilesystem,
        PackingImage,
        WaitingForFlush,
    }
    #[derive(Clone)]
    pub enum WorkflowState {
        Packing(ImageCreationState),
    }
}
pub mod compress {
    pub use crate::packing::ImageCreationState;
    #[derive(Clone)]
    pub enum CisoProgressInfo {
        SectorCount(usize),
        SectorsDone(usize),
        Finished,
    }
    #[derive(Clone)]
    pub enum WorkflowState {
        Packing(ImageCreationState),
        Compressing,
    }
}
pub mod unpacking {
    #[derive(Clone)]
    pub enum WorkflowState {
        Unpacking,
    }
}
pub mod picker {
    pub trait FilePickerBackend: PartialEq + Eq + Clone + Default {
        type FileHandle;
        type DirectoryHandle;
    }
    pub enum PickerResult<T: FilePickerBackend> {
        FileHandle(T::FileHandle),
        DirectoryHandle(T::DirectoryHandle),
    }
    pub mod browser {
        #[derive(PartialEq, Eq, Clone, Copy, Default)]
        pub struct WebFSBackend;
        impl super::FilePickerBackend for WebFSBackend {
            type FileHandle = crate::js::FileSystemFileHandle;
            type DirectoryHandle = crate::js::FileSystemDirectoryHandle;
        }
    }
}

include!(concat!(env!("OUT_DIR"), "/web.rs"));

mod drv {
    include!("../../common/driver.rs");
    entries! {
        h_unpack::h_unpack,
        h_pack::h_pack,
        h_pack::h_compress,
        h_desk::h_name,
    }
}
