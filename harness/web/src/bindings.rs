//! Handles of the File System Access API, over the model in js.rs.
use crate::js::{self, Promise};

#[derive(Clone)]
pub struct FileOptions {
    create: bool,
}

impl FileOptions {
    pub fn new(create: bool) -> Self {
        Self { create }
    }
    pub fn create(&self) -> bool {
        self.create
    }
}

pub use js::{FileSystemDirectoryHandle, FileSystemFileHandle, FileSystemHandle, FileSystemWritableFileStream};

impl FileSystemDirectoryHandle {
    pub fn get_directory_handle(&self, name: String) -> Promise {
        js::child(self.0 .0, &name, true, false)
    }
    pub fn get_directory_handle_with_opts(&self, name: String, opts: FileOptions) -> Promise {
        js::child(self.0 .0, &name, true, opts.create())
    }
    pub fn get_file_handle(&self, name: String) -> Promise {
        js::child(self.0 .0, &name, false, false)
    }
    pub fn get_file_handle_with_opts(&self, name: String, opts: FileOptions) -> Promise {
        js::child(self.0 .0, &name, false, opts.create())
    }
    pub fn remove_entry_promise(&self, name: String) -> Promise {
        js::remove(self.0 .0, &name)
    }
}
