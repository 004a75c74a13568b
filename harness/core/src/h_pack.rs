//! Image creation, seen from the outside: what is read back from the image must be the source tree.
use crate::dev::*;
use crate::sym;
use std::cmp::Ordering;
use xdvdfs::layout::{DirectoryEntryNode, DirectoryEntryTable};
use xdvdfs::util::cmp_ignore_case_utf8 as cmp;
use xdvdfs::write::fs::FileType;
use xdvdfs::write::img::create_xdvdfs_image;
use xdvdfs::write::{FileStructureError, WriteError};

pub const RT: u64 = 1;
pub const ROUNDTRIP: u64 = 1;
pub const LOOKUP: u64 = 2;
pub const LAYOUT: u64 = 4;
pub const SCAN: u64 = 8;
/// the directory is a balanced search tree
pub const TREE: u64 = 64;
/// file data was written as bytes (by a copier that goes through a buffer)
pub const BYTES: u64 = 128;
/// look up a symbolic name in every directory
pub const QUERY: u64 = 256;
/// names are fixed instead of symbolic
pub const FIXED_NAMES: u64 = 16;
/// file sizes are fixed instead of symbolic
pub const FIXED_SIZES: u64 = 32;

/// A name of concrete length with symbolic ASCII characters other than NUL and '/'.
pub fn name(tag: &str, lo: usize, hi: usize) -> String {
    let n = sym::len("namelen", lo, hi);
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, tag);
    for i in 0..n {
        sym::assume(v[i] < 0x80);
        sym::assume(v[i] != 0);
        sym::assume(v[i] != b'/');
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Independent statement of "same name up to ASCII case".
pub fn same_name(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut eq = true;
    for i in 0..a.len() {
        eq &= up(a[i]) == up(b[i]);
    }
    eq
}
#[inline(never)]
pub fn up(c: u8) -> u8 {
    let lower = ((c >= b'a') & (c <= b'z')) as u8;
    c - lower * 32
}

pub fn has_duplicates(fs: &MemFs) -> bool {
    for (_, l) in &fs.dirs {
        for i in 0..l.len() {
            for j in 0..i {
                if same_name(&l[i].0.name, &l[j].0.name) {
                    return true;
                }
            }
        }
    }
    false
}

fn round_up(x: u64, m: u64) -> u64 {
    (x + (m - 1)) / m * m
}

struct Region {
    start: u64,
    end: u64,
}

fn find<'a>(list: &'a [DirectoryEntryNode], name: &str) -> Option<&'a DirectoryEntryNode> {
    let mut r = None;
    for d in list {
        if d.name_slice() == name.as_bytes() {
            if r.is_some() {
                sym::check(false, "entry listed more than once");
            }
            r = Some(d);
        }
    }
    r
}

/// Checks everything the image promises about the tree it was made from.
pub fn verify(fs: &MemFs, img: &RecDev, what: u64) {
    let mut dev = ImgDev::new(img);
    let vol = xdvdfs::read::read_volume(&mut dev);
    sym::check(vol.is_ok(), "packed image has a readable volume descriptor");
    let vol = match vol {
        Ok(v) => v,
        Err(_) => return,
    };
    let mut regions = vec![Region { start: 32 * 2048, end: 33 * 2048 }];
    let root = vol.root_table;
    // (directory index in fs, table, path)
    let mut todo: Vec<(usize, DirectoryEntryTable, String)> = vec![(0, root, String::new())];
    let mut visited = 0;
    while let Some((di, table, path)) = todo.pop() {
        visited += 1;
        let region = table.region;
        let (tsec, tsize) = (region.sector, region.size);
        sym::out(10, tsec as u64);
        sym::out(11, tsize as u64);
        regions.push(Region { start: tsec as u64 * 2048, end: tsec as u64 * 2048 + round_up(tsize as u64, 2048) });
        let src = &fs.dirs[di].1;
        let list = table.walk_dirent_tree(&mut dev);
        sym::check(list.is_ok(), "directory can be listed");
        let list = match list {
            Ok(l) => l,
            Err(_) => return,
        };
        sym::check(list.len() == src.len(), "directory lists as many entries as the source");
        if what & TREE != 0 {
            check_search_tree(&list, tsec as u64 * 2048);
        }
        if what & SCAN != 0 {
            let mut scanned = Vec::new();
            let it = table.scan_dirent_tree(&mut dev);
            sym::check(it.is_ok(), "directory can be scanned");
            if let Ok(mut it) = it {
                loop {
                    match it.next_entry() {
                        Ok(Some(e)) => scanned.push(e),
                        Ok(None) => break,
                        Err(_) => {
                            sym::check(false, "directory scan fails");
                            break;
                        }
                    }
                    sym::check(scanned.len() <= src.len(), "scan yields too many entries");
                }
            }
            sym::check(scanned.len() == src.len(), "scan yields every entry");
            for (e, _) in src {
                let f = find(&scanned, &e.name);
                sym::check(f.is_some(), "scan yields entry");
                let g = find(&list, &e.name);
                if let (Some(f), Some(g)) = (f, g) {
                    sym::check(f.node == g.node, "scan and tree walk agree on the entry");
                }
            }
        }
        for (e, id) in src {
            let found = find(&list, &e.name);
            sym::check(found.is_some(), "every source entry is listed under its exact name");
            let Some(d) = found else { return };
            let is_dir = matches!(e.file_type, FileType::Directory);
            sym::check(d.node.dirent.is_directory() == is_dir, "entry kind preserved");
            let data = d.node.dirent.data;
            let (sector, size) = (data.sector as u64, data.size as u64);
            sym::out(20 + *id as u64, sector);
            if what & LAYOUT != 0 {
                let nlen = d.node.dirent.filename_length as u64;
                sym::check(d.offset % 2048 + 14 + nlen <= 2048, "directory record does not straddle a sector");
                sym::check(sector >= 33, "data allocated after the volume descriptor");
            }
            if is_dir {
                let cp = xdvdfs::write::fs::PathVec::from_base(&fs.dirs[di].0, &e.name);
                let mut ci = usize::MAX;
                for (k, (p, _)) in fs.dirs.iter().enumerate() {
                    if *p == cp {
                        ci = k;
                    }
                }
                let t = d.node.dirent.dirent_table();
                sym::check(t.is_some(), "directory entry has a table");
                if let Some(t) = t {
                    todo.push((ci, t, format!("{}/{}", path, e.name)));
                }
            } else {
                sym::check(size == e.len, "file size preserved");
                regions.push(Region { start: sector * 2048, end: sector * 2048 + round_up(size, 2048) });
                if what & ROUNDTRIP != 0 && size > 0 {
                    if what & BYTES != 0 {
                        // small concrete files: every byte
                        let n = sym::concretize(size) as usize;
                        let mut all = vec![0u8; n];
                        let r = BlockRead::read(&mut dev, sector * 2048, &mut all);
                        sym::check(r.is_ok(), "file data is in the image");
                        let mut same = true;
                        for k in 0..n {
                            same &= all[k] == content(*id, k as u64);
                        }
                        sym::check(same, "file data equals source data");
                    } else {
                    // the bytes found through the entry are the file's bytes, at a symbolic position
                    let pos = sym::u32("pos") as u64;
                    sym::assume(pos < size);
                    let mut one = [0u8; 1];
                    let r = BlockRead::read(&mut dev, sector * 2048 + pos, &mut one);
                    sym::check(r.is_ok(), "file byte is in the image");
                    sym::check(one[0] == content(*id, pos), "file byte equals source byte");
                    if what & BYTES == 0 {
                        sym::check(owner(img, sector * 2048 + pos) == Some((*id, pos)), "file byte comes from its source file at its position");
                    }
                    }
                }
            }
            if what & LOOKUP != 0 {
                // look the path up in the exact and in the swapped case
                for v in 0..2 {
                    let mut p = format!("{}/{}", path, e.name);
                    if v == 1 {
                        p = swap(&p);
                    }
                    let r = root.walk_path(&mut dev, &p);
                    sym::check(r.is_ok(), "path of a packed entry is found");
                    if let Ok(r) = r {
                        sym::check(r.node == d.node, "path lookup returns the entry");
                    }
                }
            }
        }
        if what & QUERY != 0 {
            let q = name("query", 1, 1);
            let mut present = false;
            for (e, _) in src {
                present |= same_name(&e.name, &q);
            }
            let r = root.walk_path(&mut dev, &format!("{}/{}", path, q));
            if !present {
                sym::check(r.is_err(), "path that was never packed is not found");
                if src.len() > 0 {
                    sym::check(matches!(r, Err(xdvdfs::util::Error::DoesNotExist)), "absent name is reported as not existing");
                }
                sym::reach("absent");
            } else {
                sym::check(r.is_ok(), "present name found in any case");
                sym::reach("present");
            }
        }
    }
    sym::check(visited == fs.dirs.len(), "every source directory is reachable");
    if what & LAYOUT != 0 {
        let end = img.end();
        sym::check(end % 65536 == 0, "image length is a multiple of 64 KiB");
        for i in 0..regions.len() {
            sym::check((regions[i].end <= end) | (regions[i].start == regions[i].end), "region lies inside the image");
            for j in 0..i {
                let (a, b) = (&regions[i], &regions[j]);
                if a.start < a.end && b.start < b.end {
                    sym::check((a.end <= b.start) | (b.end <= a.start), "allocated regions are disjoint");
                }
            }
        }
        for (o, l, _) in &img.ext {
            sym::check(*l == 0 || *o >= 32 * 2048, "nothing is written before the volume descriptor");
        }
        for i in 0..img.ext.len() {
            for j in 0..i {
                let (a, b) = (&img.ext[i], &img.ext[j]);
                if a.1 > 0 && b.1 > 0 {
                    sym::check((a.0 + a.1 <= b.0) | (b.0 + b.1 <= a.0), "no byte is written twice");
                }
            }
        }
    }
    sym::reach("verified");
}

fn at<'a>(list: &'a [DirectoryEntryNode], base: u64, off: u16) -> Option<&'a DirectoryEntryNode> {
    let o = base + 4 * off as u64;
    list.iter().find(|d| d.offset == o)
}

/// In-order traversal by child offsets is strictly ascending, covers all entries, and is shallow.
fn check_search_tree(list: &[DirectoryEntryNode], base: u64) {
    if list.is_empty() {
        return;
    }
    let mut order: Vec<&DirectoryEntryNode> = vec![];
    let mut depth = 0;
    fn go<'a>(list: &'a [DirectoryEntryNode], base: u64, off: u16, d: usize, depth: &mut usize, order: &mut Vec<&'a DirectoryEntryNode>) {
        if d > list.len() {
            sym::check(false, "child offsets form a tree");
            return;
        }
        let Some(n) = at(list, base, off) else {
            sym::check(false, "child offset points at a record");
            return;
        };
        *depth = (*depth).max(d);
        let (l, r) = (n.node.left_entry_offset, n.node.right_entry_offset);
        if l != 0 && l != 0xffff {
            go(list, base, l, d + 1, depth, order);
        }
        order.push(n);
        if r != 0 && r != 0xffff {
            go(list, base, r, d + 1, depth, order);
        }
    }
    go(list, base, 0, 1, &mut depth, &mut order);
    sym::check(order.len() == list.len(), "every record is in the search tree once");
    for i in 1..order.len() {
        let a: Vec<u32> = order[i - 1].name_slice().iter().map(|c| *c as u32).collect();
        let b: Vec<u32> = order[i].name_slice().iter().map(|c| *c as u32).collect();
        sym::check(crate::h_basic::expected_order(&a, &b) == Ordering::Less, "search tree is in ascending order");
    }
    // depth of an AVL tree: smallest n for depth d is 1, 2, 4, 7, 12, 20, 33, 54, 88
    let (mut m0, mut m1, mut max) = (1usize, 2usize, 1usize);
    while m1 <= list.len() {
        let t = m0 + m1 + 1;
        m0 = m1;
        m1 = t;
        max += 1;
    }
    sym::out(30, depth as u64);
    sym::check(depth <= max, "search tree is balanced");
}

trait BlockRead {
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), Fault>;
}
impl BlockRead for ImgDev<'_> {
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), Fault> {
        xdvdfs::blockdev::BlockDeviceRead::read(self, o, b)
    }
}

/// Which source file byte the image holds at an offset.
pub fn owner(img: &RecDev, at: u64) -> Option<(u32, u64)> {
    let mut r = None;
    for (o, l, e) in &img.ext {
        if at >= *o && at - *o < *l {
            match e {
                Ext::File { id, from, .. } => r = Some((*id, from + (at - *o))),
                _ => r = None,
            }
        }
    }
    r
}

pub fn swap(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    for c in v.iter_mut() {
        let l = ((*c >= b'a') & (*c <= b'z')) as u8;
        let u = ((*c >= b'A') & (*c <= b'Z')) as u8;
        *c = *c - l * 32 + u * 32;
    }
    unsafe { String::from_utf8_unchecked(v) }
}

struct Gen {
    what: u64,
    nl: usize,
    k: usize,
}
impl Gen {
    fn name(&mut self) -> String {
        self.k += 1;
        if self.what & FIXED_NAMES != 0 {
            const N: [&str; 8] = ["Media", "default.xbe", "a", "B.bin", "update", "x.y", "README.TXT", "c"];
            return N[(self.k - 1) % 8].to_string();
        }
        name("n", 1, self.nl)
    }
    fn size(&mut self) -> u64 {
        if self.what & FIXED_SIZES != 0 {
            const N: [u64; 6] = [5000, 0, 2048, 1, 4096, 2047];
            return N[self.k % 6];
        }
        sym::u32("size") as u64
    }
    fn file(&mut self, fs: &mut MemFs, d: usize) {
        let n = self.name();
        let s = self.size();
        fs.add(d, &n, false, s);
    }
    fn dir(&mut self, fs: &mut MemFs, d: usize) -> usize {
        let n = self.name();
        fs.add(d, &n, true, 0)
    }
}

/// Builds a source tree with symbolic names (1..=nl characters) and symbolic sizes.
pub fn tree(shape: u64, n: u64, nl: usize, what: u64) -> MemFs {
    let mut fs = MemFs::new();
    let mut g = Gen { what, nl, k: 0 };
    match shape {
        // n files in the root
        0 => {
            for _ in 0..n {
                g.file(&mut fs, 0);
            }
        }
        // a directory holding n files, plus a file next to it
        1 => {
            let d = g.dir(&mut fs, 0);
            for _ in 0..n {
                g.file(&mut fs, d);
            }
            g.file(&mut fs, 0);
        }
        // nested directories, n deep, with a file in each
        2 => {
            let mut d = 0;
            for _ in 0..n {
                g.file(&mut fs, d);
                d = g.dir(&mut fs, d);
            }
        }
        // two sibling directories with n files each (path ordering between siblings)
        3 => {
            for _ in 0..2 {
                let d = g.dir(&mut fs, 0);
                for _ in 0..n {
                    g.file(&mut fs, d);
                }
            }
        }
        // a directory inside each of two siblings
        4 => {
            for _ in 0..2 {
                let d = g.dir(&mut fs, 0);
                for _ in 0..n {
                    g.dir(&mut fs, d);
                }
            }
        }
        // no entries at all, or n empty directories
        5 => {
            for _ in 0..n {
                g.dir(&mut fs, 0);
            }
        }
        // directory with a subdirectory and a file, next to a file and an empty directory
        6 => {
            let d = g.dir(&mut fs, 0);
            g.file(&mut fs, d);
            let e = g.dir(&mut fs, d);
            g.file(&mut fs, e);
            g.dir(&mut fs, 0);
            g.file(&mut fs, 0);
        }
        _ => {}
    }
    fs
}

/// A directory that spans sectors: n names of `len` characters, one of them of any length lo..=hi.
/// what >> 16 selects which one.
pub fn h_big(n: u64, len: u64, lohi: u64, what: u64) {
    let (lo, hi) = ((lohi >> 16) as usize, (lohi & 0xffff) as usize);
    let which = (what >> 16) as usize;
    let mut fs = MemFs::new();
    let free = sym::len("namelen", lo, hi);
    for i in 0..n as usize {
        let k = (i * 7) % n as usize;
        let want = if i == which { free } else { len as usize };
        let mut s = String::new();
        // distinct for any length of the free one
        s.push((b'0' + (k % 48) as u8) as char);
        if i != which {
            s.push((b'0' + (k / 48) as u8) as char);
        }
        while s.len() < want {
            s.push('q');
        }
        fs.add(0, &s, i % 5 == 3, if i % 5 == 3 { 0 } else { (i as u64 * 700) % 5000 });
        if i % 5 == 3 {
            let d = fs.dirs.len() - 1;
            fs.add(d, "f", false, 3);
        }
    }
    let mut img = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut img, |_| {});
    sym::check(r.is_ok(), "a valid tree is packed");
    if r.is_ok() {
        verify(&fs, &img, what & 0xffff);
    }
}

/// smallest number from s on that has no common factor with n
fn step(n: usize, s: usize) -> usize {
    let mut s = s;
    loop {
        let (mut a, mut b) = (n, s);
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        if a == 1 {
            return s;
        }
        s += 1;
    }
}

/// Insertion order: n concrete names in some pattern with k symbolic names among them.
pub fn h_avl(n: u64, pattern: u64, k: u64, what: u64) {
    let mut fs = MemFs::new();
    let n = n as usize;
    for i in 0..n {
        let j = match pattern {
            0 => i,
            1 => n - 1 - i,
            2 => {
                if i % 2 == 0 {
                    i / 2
                } else {
                    n - 1 - i / 2
                }
            }
            3 => (i * step(n, 5) + 2) % n,
            _ => (i * step(n, 3) + 1) % n,
        };
        let s: String = [(b'A' + 2 * (j / 3) as u8) as char, (b'0' + 3 * (j % 3) as u8) as char].iter().collect();
        fs.add(0, &s, false, 1);
    }
    for _ in 0..k {
        let s = name("n", 1, 1 + (what >> 16) as usize);
        fs.add(0, &s, false, 1);
    }
    let mut img = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut img, |_| {});
    let dup = has_duplicates(&fs);
    match r {
        Ok(()) => {
            sym::check(!dup, "case-insensitive duplicate names are rejected");
            verify(&fs, &img, what & 0xffff);
        }
        Err(WriteError::InvalidFileStructureError(FileStructureError::DuplicateFileName)) => {
            sym::check(dup, "names that differ are accepted");
            sym::reach("duplicate");
        }
        Err(_) => sym::check(false, "a valid tree is packed"),
    }
}

/// Sizes beyond 32 bits are refused.
pub fn h_toolarge(_a: u64, _b: u64, _c: u64, _d: u64) {
    let mut fs = MemFs::new();
    let s = sym::u64("size");
    let d = fs.add(0, "d", true, 0);
    fs.add(d, "f", false, s);
    fs.add(0, "g", false, 10);
    let mut img = RecDev::default();
    match create_xdvdfs_image(&mut fs, &mut img, |_| {}) {
        Ok(()) => {
            sym::check(s <= u32::MAX as u64, "a file of 4 GiB or more is refused");
            sym::reach("accepted");
        }
        Err(e) => {
            sym::check(s > u32::MAX as u64, "a file below 4 GiB is accepted");
            sym::check(matches!(e, WriteError::InvalidFileStructureError(FileStructureError::FileTooLarge)), "error kind");
            sym::reach("refused");
        }
    }
}

pub fn h_pack(shape: u64, n: u64, nl: u64, what: u64) {
    let mut fs = tree(shape, n, nl as usize, what);
    let mut img = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut img, |_| {});
    let dup = has_duplicates(&fs);
    match r {
        Ok(()) => {
            sym::check(!dup, "case-insensitive duplicate names are rejected");
            verify(&fs, &img, what);
        }
        Err(WriteError::InvalidFileStructureError(FileStructureError::DuplicateFileName)) => {
            sym::check(dup, "names that differ are accepted");
            sym::reach("duplicate");
        }
        Err(_) => sym::check(false, "a valid tree is packed"),
    }
    let _ = Ordering::Less;
    let _ = cmp("", "");
}
