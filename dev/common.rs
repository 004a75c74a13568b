// Shared helpers of the demonstrations: an in-memory source tree and small devices.
#![allow(dead_code)]
use std::collections::BTreeMap;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

#[derive(Clone, Default)]
pub struct Tree {
    pub dirs: BTreeMap<String, Vec<FileEntry>>,
    pub files: BTreeMap<String, Vec<u8>>,
}

pub fn join(dir: &str, name: &str) -> String {
    if dir == "/" { format!("/{name}") } else { format!("{dir}/{name}") }
}

impl Tree {
    pub fn new() -> Self {
        let mut t = Tree::default();
        t.dirs.insert("/".into(), vec![]);
        t
    }
    pub fn dir(mut self, parent: &str, name: &str) -> Self {
        self.dirs.get_mut(parent).unwrap().push(FileEntry { name: name.into(), file_type: FileType::Directory, len: 0 });
        self.dirs.insert(join(parent, name), vec![]);
        self
    }
    pub fn file(mut self, parent: &str, name: &str, data: Vec<u8>) -> Self {
        self.dirs.get_mut(parent).unwrap().push(FileEntry { name: name.into(), file_type: FileType::File, len: data.len() as u64 });
        self.files.insert(join(parent, name), data);
        self
    }
}

pub fn bytes(seed: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_le_bytes()[3] ^ (i as u8) ^ seed).collect()
}

impl FilesystemHierarchy for Tree {
    type Error = String;
    fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, String> {
        self.dirs.get(&path.as_string()).cloned().ok_or("no such directory".into())
    }
}

impl<W: BlockDeviceWrite + ?Sized> FilesystemCopier<W> for Tree {
    type Error = String;
    fn copy_file_in(&mut self, src: &PathVec, dest: &mut W, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, String> {
        let data = self.files.get(&src.as_string()).ok_or("no such file")?;
        let start = (input_offset as usize).min(data.len());
        let end = (start + size as usize).min(data.len());
        dest.write(output_offset, &data[start..end]).map_err(|_| "write failed".to_string())?;
        Ok((end - start) as u64)
    }
}

/// Growing in-memory device; `fail_write` makes the write with that number fail.
#[derive(Default, Clone)]
pub struct Mem {
    pub data: Vec<u8>,
    pub writes: usize,
    pub fail_write: Option<usize>,
    pub log: Vec<(u64, usize)>,
    pub reads: usize,
    pub max_reads: usize,
}

impl BlockDeviceWrite for Mem {
    type WriteError = String;
    fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), String> {
        let n = self.writes;
        self.writes += 1;
        if self.fail_write == Some(n) {
            return Err("injected".into());
        }
        self.log.push((offset, buffer.len()));
        let end = offset as usize + <[u8]>::len(buffer);
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[offset as usize..end].copy_from_slice(buffer);
        Ok(())
    }
    fn len(&mut self) -> Result<u64, String> {
        Ok(self.data.len() as u64)
    }
}

impl BlockDeviceRead for Mem {
    type ReadError = String;
    fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), String> {
        self.reads += 1;
        if self.max_reads != 0 && self.reads > self.max_reads {
            panic!("too many device reads");
        }
        let end = offset as usize + <[u8]>::len(buffer);
        if end > self.data.len() {
            return Err("out of bounds".into());
        }
        buffer.copy_from_slice(&self.data[offset as usize..end]);
        Ok(())
    }
}

pub fn pack(tree: &Tree) -> Mem {
    let mut mem = Mem::default();
    let mut t = tree.clone();
    xdvdfs::write::img::create_xdvdfs_image(&mut t, &mut mem, |_| {}).map_err(|e| format!("{e:?}")).expect("packs");
    mem
}

/// Lists an image by following entry links: path -> None for directories, contents for files
pub fn listing<D: BlockDeviceRead>(dev: &mut D) -> BTreeMap<String, Option<Vec<u8>>>
where
    D::ReadError: std::fmt::Debug,
{
    let vol = xdvdfs::read::read_volume(dev).unwrap();
    let mut out = BTreeMap::new();
    for (dir, e) in vol.root_table.file_tree(dev).unwrap() {
        let name = e.name_str::<()>().unwrap().to_string();
        let d = if e.node.dirent.is_directory() { None } else { Some(e.node.dirent.read_data_all(dev).unwrap().to_vec()) };
        assert!(out.insert(format!("{dir}/{name}"), d).is_none(), "listed twice");
    }
    out
}

pub fn expected(tree: &Tree) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    for (d, l) in &tree.dirs {
        for e in l {
            let p = join(d, &e.name);
            out.insert(p.clone(), tree.files.get(&p).cloned());
        }
    }
    out
}

/// One directory record
pub fn record(left: u16, right: u16, sector: u32, size: u32, attr: u8, name: &str) -> Vec<u8> {
    let mut v = vec![];
    v.extend(left.to_le_bytes());
    v.extend(right.to_le_bytes());
    v.extend(sector.to_le_bytes());
    v.extend(size.to_le_bytes());
    v.push(attr);
    v.push(name.len() as u8);
    v.extend(name.as_bytes());
    while v.len() % 4 != 0 {
        v.push(0xff);
    }
    v
}

pub fn volume(sector: u32, size: u32) -> Vec<u8> {
    let mut v = vec![0u8; 2048];
    v[..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    v[2028..].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    v[20..24].copy_from_slice(&sector.to_le_bytes());
    v[24..28].copy_from_slice(&size.to_le_bytes());
    v
}
