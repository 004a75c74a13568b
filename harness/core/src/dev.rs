//! Device and filesystem models used as the environment of the code under test.
#![allow(dead_code)]
use crate::sym;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fault(pub u32);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("fault")
    }
}
impl std::error::Error for Fault {}

/// Contents of a source file: byte at an offset.
pub fn content(id: u32, off: u64) -> u8 {
    (id as u8).wrapping_mul(67).wrapping_add(13).wrapping_add((off as u8).wrapping_mul(5)).wrapping_add((off >> 8) as u8)
}

#[derive(Clone)]
pub enum Ext {
    Bytes(Vec<u8>),
    /// `size` bytes of source file `id`, starting at its offset `from`
    File { id: u32, from: u64, size: u64 },
}

/// A write-once recording device. Every write is kept as an extent.
#[derive(Clone, Default)]
pub struct RecDev {
    pub ext: Vec<(u64, u64, Ext)>,
    pub ops: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    pub lens: Vec<u64>,
}

impl RecDev {
    fn tick(&mut self) -> Result<(), Fault> {
        let k = self.ops;
        self.ops += 1;
        if let Some(f) = self.fail_at {
            if f == k {
                self.failed = true;
                return Err(Fault(1));
            }
        }
        Ok(())
    }
    pub fn end(&self) -> u64 {
        let mut e = 0;
        for x in &self.ext {
            let t = x.0 + x.1;
            e = max(e, t);
        }
        e
    }
    pub fn put_file(&mut self, off: u64, id: u32, from: u64, size: u64) -> Result<(), Fault> {
        self.tick()?;
        self.ext.push((off, size, Ext::File { id, from, size }));
        Ok(())
    }
}

/// maximum, decided per path
pub fn max(a: u64, b: u64) -> u64 {
    if sym::concretize((a > b) as u64) == 1 {
        a
    } else {
        b
    }
}

impl BlockDeviceWrite for RecDev {
    type WriteError = Fault;
    fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), Fault> {
        self.tick()?;
        // zero fill of symbolic length (final padding) is kept as a length only
        if sym::is_symbolic(buffer.len() as u64) || buffer.len() as u64 > 8192 {
            let k = sym::u32("padpos") as usize;
            sym::assume(k < buffer.len());
            sym::check(buffer[k] == 0, "large write is zero fill");
            self.ext.push((offset, buffer.len() as u64, Ext::File { id: u32::MAX, from: 0, size: buffer.len() as u64 }));
        } else {
            self.ext.push((offset, buffer.len() as u64, Ext::Bytes(buffer.to_vec())));
        }
        Ok(())
    }
    fn len(&mut self) -> Result<u64, Fault> {
        self.tick()?;
        let e = self.end();
        self.lens.push(e);
        Ok(e)
    }
}

/// Read side of a recorded image.
pub struct ImgDev<'a> {
    pub d: &'a RecDev,
    pub reads: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
}

impl<'a> ImgDev<'a> {
    pub fn new(d: &'a RecDev) -> Self {
        Self { d, reads: 0, fail_at: None, failed: false }
    }
}

impl BlockDeviceRead for ImgDev<'_> {
    type ReadError = Fault;
    fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), Fault> {
        let k = self.reads;
        self.reads += 1;
        if let Some(f) = self.fail_at {
            if f == k {
                self.failed = true;
                return Err(Fault(2));
            }
        }
        let n = <[u8]>::len(buffer) as u64;
        // reads that hit one extent entirely
        for (o, l, e) in self.d.ext.iter().rev() {
            if offset >= *o && offset - *o < *l && (offset - *o) + n <= *l {
                let rel = offset - *o;
                match e {
                    Ext::Bytes(b) => {
                        if n == 1 {
                            // stays symbolic
                            buffer[0] = b[rel as usize];
                            return Ok(());
                        }
                        let r = sym::concretize(rel) as usize;
                        buffer.copy_from_slice(&b[r..r + n as usize]);
                    }
                    Ext::File { id, from, .. } => {
                        if *id == u32::MAX {
                            buffer.fill(0);
                        } else {
                            let base = from + rel;
                            for (i, x) in buffer.iter_mut().enumerate() {
                                *x = content(*id, base + i as u64);
                            }
                        }
                    }
                }
                return Ok(());
            }
        }
        Err(Fault(3))
    }
}

pub struct Node {
    pub path: Vec<String>,
    pub is_dir: bool,
    pub size: u64,
    pub id: u32,
}

/// In-memory source tree with symbolic names and sizes.
#[derive(Default)]
pub struct MemFs {
    pub dirs: Vec<(PathVec, Vec<(FileEntry, u32)>)>,
    pub next_id: u32,
    pub ops: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    pub copies: Vec<(u32, u64, u64, u64)>,
    pub dup_copy: bool,
}

impl MemFs {
    pub fn new() -> Self {
        let mut s = Self::default();
        s.dirs.push((PathVec::default(), vec![]));
        s
    }
    pub fn add(&mut self, dir: usize, name: &str, is_dir: bool, len: u64) -> usize {
        let id = self.next_id;
        self.next_id += 1;
        let ft = if is_dir { FileType::Directory } else { FileType::File };
        self.dirs[dir].1.push((FileEntry { name: name.to_owned(), file_type: ft, len }, id));
        if is_dir {
            let p = PathVec::from_base(&self.dirs[dir].0, name);
            self.dirs.push((p, vec![]));
            self.dirs.len() - 1
        } else {
            id as usize
        }
    }
    fn tick(&mut self) -> Result<(), Fault> {
        let k = self.ops;
        self.ops += 1;
        if let Some(f) = self.fail_at {
            if f == k {
                self.failed = true;
                return Err(Fault(4));
            }
        }
        Ok(())
    }
    pub fn find(&self, path: &PathVec) -> Option<(u32, u64)> {
        for (p, l) in &self.dirs {
            let depth = p.iter().count();
            if path.iter().count() != depth + 1 {
                continue;
            }
            if !p.iter().zip(path.iter()).all(|(a, b)| a == b) {
                continue;
            }
            let last = path.iter().last().unwrap();
            for (e, id) in l {
                if &e.name == last {
                    if let FileType::File = e.file_type {
                        return Some((*id, e.len));
                    }
                }
            }
        }
        None
    }
}

impl FilesystemHierarchy for MemFs {
    type Error = Fault;
    fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, Fault> {
        self.tick()?;
        for (p, l) in &self.dirs {
            if p == path {
                return Ok(l.iter().map(|x| x.0.clone()).collect());
            }
        }
        Err(Fault(5))
    }
}

impl FilesystemCopier<RecDev> for MemFs {
    type Error = Fault;
    fn copy_file_in(&mut self, src: &PathVec, dest: &mut RecDev, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, Fault> {
        self.tick()?;
        let (id, len) = self.find(src).ok_or(Fault(6))?;
        let _ = len;
        self.copies.push((id, input_offset, output_offset, size));
        if size > 0 {
            dest.put_file(output_offset, id, input_offset, size)?;
        }
        Ok(size)
    }
}

/// A device that holds `data` at `base` and nothing else. Reads are exact or fail.
pub struct Flat {
    pub base: u64,
    pub data: Vec<u8>,
    pub reads: u64,
    /// more reads than this are a violation
    pub cap: u64,
}
impl Flat {
    pub fn new(base: u64, data: Vec<u8>) -> Self {
        Self { base, data, reads: 0, cap: 1000 }
    }
}
impl BlockDeviceRead for Flat {
    type ReadError = Fault;
    fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), Fault> {
        self.reads += 1;
        if self.reads > self.cap {
            sym::check(false, "reading the directory ends");
            return Err(Fault(8));
        }
        let n = <[u8]>::len(buffer) as u64;
        let size = self.data.len() as u64;
        // out of range is decided before anything is enumerated
        if offset < self.base || offset - self.base > size || n > size - (offset - self.base) {
            return Err(Fault(7));
        }
        let o = sym::concretize(offset - self.base) as usize;
        let n = sym::concretize(n) as usize;
        buffer[0..n].copy_from_slice(&self.data[o..o + n]);
        Ok(())
    }
}
