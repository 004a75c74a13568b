//! Compression input, repacking, faults, progress, foreign directories.
use crate::dev::*;
use crate::h_pack::*;
use crate::sym;
use ciso::write::SectorReader;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
use xdvdfs::layout::*;
use xdvdfs::write::fs::*;
use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};
use xdvdfs::write::WriteError;

impl FilesystemCopier<[u8]> for MemFs {
    type Error = Fault;
    fn copy_file_in(&mut self, src: &PathVec, dest: &mut [u8], input_offset: u64, output_offset: u64, size: u64) -> Result<u64, Fault> {
        let (id, len) = self.find(src).ok_or(Fault(6))?;
        let left = if input_offset >= len { 0 } else { len - input_offset };
        let n = if size < left { size } else { left };
        let n = sym::concretize(n);
        for i in 0..n {
            dest[(output_offset + i) as usize] = content(id, input_offset + i);
        }
        Ok(n)
    }
}

/// One of a few sizes around the sector boundaries.
fn edge_size() -> u64 {
    const N: [u64; 8] = [0, 1, 2047, 2048, 2049, 4095, 4096, 5000];
    let k = sym::u8("sizeidx");
    sym::assume(k < 8);
    N[sym::concretize(k as u64) as usize]
}

/// Small trees with edge sizes.
fn small(shape: u64) -> MemFs {
    let mut fs = MemFs::new();
    match shape {
        0 => {
            fs.add(0, "a.bin", false, edge_size());
        }
        1 => {
            let d = fs.add(0, "Dir", true, 0);
            fs.add(d, "x", false, edge_size());
            fs.add(0, "b", false, edge_size());
        }
        2 => {
            let d = fs.add(0, "D", true, 0);
            fs.add(d, "e", true, 0);
            fs.add(0, "c", false, edge_size());
            let e = fs.add(d, "f", true, 0);
            fs.add(e, "g", false, 3000);
        }
        3 => {}
        _ => {
            // several sectors of directory
            for i in 0..20u8 {
                let s: String = core::iter::repeat((b'a' + i) as char).take(120).collect();
                fs.add(0, &s, false, (i as u64) % 3);
            }
        }
    }
    fs
}

fn image_byte(img: &RecDev, at: u64) -> u8 {
    let mut r = 0;
    for (o, l, e) in &img.ext {
        if at >= *o && at - *o < *l {
            r = match e {
                Ext::Bytes(b) => b[sym::concretize(at - *o) as usize],
                Ext::File { id, from, .. } => {
                    if *id == u32::MAX {
                        0
                    } else {
                        content(*id, from + (at - *o))
                    }
                }
            };
        }
    }
    r
}

/// The sector stream fed to the compressor is the image a plain pack writes. mode 0: from a file
/// tree, 1: from an image.
pub fn h_linear(shape: u64, mode: u64, _c: u64, _d: u64) {
    let mut fs = small(shape);
    let mut plain = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut plain, |_| {});
    sym::check(r.is_ok(), "a valid tree is packed");
    if r.is_err() {
        return;
    }
    if mode == 0 {
        let mut dev = SectorLinearBlockDevice::default();
        let mut lfs = SectorLinearBlockFilesystem::new(&mut fs);
        let r = create_xdvdfs_image(&mut lfs, &mut dev, |_| {});
        sym::check(r.is_ok(), "a valid tree is packed for compression");
        let mut input = CisoSectorInput::new(dev, lfs);
        stream(&plain, &mut input);
    } else {
        // first the image of the image, as a plain pack writes it
        let mut second = RecDev::default();
        {
            let src = ImgDev::new(&plain);
            let x: Option<XDVDFSFilesystem<_, RecDev>> = XDVDFSFilesystem::new(src);
            sym::check(x.is_some(), "packed image is a volume");
            let Some(mut x) = x else { return };
            let r = create_xdvdfs_image(&mut x, &mut second, |_| {});
            sym::check(r.is_ok(), "an image is repacked");
        }
        let src = ImgDev::new(&plain);
        let x: Option<XDVDFSFilesystem<_, [u8]>> = XDVDFSFilesystem::new(src);
        let Some(mut x) = x else { return };
        let mut dev = SectorLinearBlockDevice::default();
        let mut lfs = SectorLinearBlockFilesystem::new(&mut x);
        let r = create_xdvdfs_image(&mut lfs, &mut dev, |_| {});
        sym::check(r.is_ok(), "an image is packed for compression");
        let mut input = CisoSectorInput::new(dev, lfs);
        stream(&second, &mut input);
    }
}

fn stream<R: SectorReader>(plain: &RecDev, input: &mut R) {
    let size = match input.size() {
        Ok(s) => s,
        Err(_) => {
            sym::check(false, "size of the sector stream");
            return;
        }
    };
    let end = plain.end();
    sym::out(1, size);
    sym::check(size == end, "the sector stream is as long as the plain image");
    let pos = sym::u32("pos") as u64 & 2047;
    let (mut lo, hi) = (32, sym::concretize(end / 2048));
    sym::check(image_byte(plain, 0) == 0, "nothing before the volume descriptor");
    // a sector before the volume descriptor
    let mut done = false;
    while !done {
        let s = if lo == 32 { 5 } else { lo - 1 };
        for t in [s, lo] {
            if t >= hi {
                continue;
            }
            match input.read_sector(t as usize, 2048) {
                Ok(b) => {
                    sym::check(b.len() == 2048, "sectors are 2048 bytes");
                    // the whole sector is compared on the concrete extents, at a symbolic position otherwise
                    sym::check(sector_byte(&b, pos) == sector_of(plain, t, pos), "the sector stream equals the plain image");
                }
                Err(_) => sym::check(false, "sector of the stream can be read"),
            }
        }
        lo += 1;
        done = lo > hi;
    }
    sym::reach("compared");
}

#[inline(never)]
fn sector_byte(b: &[u8], pos: u64) -> u8 {
    b[pos as usize]
}

fn sector_of(img: &RecDev, sector: u64, pos: u64) -> u8 {
    let mut v = vec![0u8; 2048];
    let s = sector * 2048;
    for (o, l, e) in &img.ext {
        let a = (*o).max(s);
        let z = (*o + *l).min(s + 2048);
        let mut k = a;
        while k < z {
            v[(k - s) as usize] = match e {
                Ext::Bytes(b) => b[(k - *o) as usize],
                Ext::File { id, from, .. } => {
                    if *id == u32::MAX {
                        0
                    } else {
                        content(*id, from + (k - *o))
                    }
                }
            };
            k += 1;
        }
    }
    sector_byte(&v, pos)
}

/// Image to image: the copy holds the original tree. `nl` > 0: the first name is symbolic.
pub fn h_repack(shape: u64, nl: u64, what: u64, _d: u64) {
    let mut fs = if nl == 0 {
        small(shape)
    } else {
        let mut fs = MemFs::new();
        let d = fs.add(0, &name("n", 1, nl as usize), true, 0);
        fs.add(d, "File", false, 5000);
        fs.add(0, "zz", false, 1);
        fs
    };
    let mut a = RecDev::default();
    if create_xdvdfs_image(&mut fs, &mut a, |_| {}).is_err() {
        sym::check(has_duplicates(&fs), "a valid tree is packed");
        return;
    }
    let x: Option<XDVDFSFilesystem<_, RecDev>> = XDVDFSFilesystem::new(ImgDev::new(&a));
    sym::check(x.is_some(), "packed image is a volume");
    let Some(mut x) = x else { return };
    let mut b = RecDev::default();
    let r = create_xdvdfs_image(&mut x, &mut b, |_| {});
    sym::check(r.is_ok(), "an image is repacked");
    if r.is_ok() {
        verify(&fs, &b, what | BYTES);
    }
}

struct SpanR {
    log: Vec<(u64, u64)>,
}
impl BlockDeviceRead for SpanR {
    type ReadError = Fault;
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), Fault> {
        let n = <[u8]>::len(b) as u64;
        // mark the chunk so that the write side can tell what it was given
        if n > 0 {
            b[0] = self.log.len() as u8 + 1;
        }
        self.log.push((o, n));
        Ok(())
    }
}
struct SpanW {
    log: Vec<(u64, u64, u8)>,
}
impl BlockDeviceWrite for SpanW {
    type WriteError = Fault;
    fn write(&mut self, o: u64, b: &[u8]) -> Result<(), Fault> {
        let n = b.len() as u64;
        self.log.push((o, n, if n > 0 { b[0] } else { 0 }));
        Ok(())
    }
    fn len(&mut self) -> Result<u64, Fault> {
        Ok(0)
    }
}

/// Block-to-block copy of any length up to `max` bytes.
pub fn h_copier(max: u64, _b: u64, _c: u64, _d: u64) {
    let size = sym::u32("size") as u64;
    sym::assume(size <= max);
    let i = sym::u32("in") as u64;
    let o = sym::u32("out") as u64;
    let mut r = SpanR { log: vec![] };
    let mut w = SpanW { log: vec![] };
    let res = <DefaultCopier<SpanR, SpanW> as RWCopier<SpanR, SpanW>>::copy(i, o, size, &mut r, &mut w);
    sym::check(matches!(res, Ok(n) if n == size), "the number of bytes copied is the size");
    // chunks are contiguous on both sides, in step, and cover the size
    let (mut at, mut ok) = (0u64, true);
    sym::check(r.log.len() == w.log.len(), "every chunk read is written");
    for k in 0..r.log.len().min(w.log.len()) {
        let (ro, rn) = r.log[k];
        let (wo, wn, tag) = w.log[k];
        ok &= ro == i + at && wo == o + at && rn == wn && (rn == 0 || tag == k as u8 + 1);
        at += rn;
    }
    sym::check(ok, "chunks are copied in place");
    sym::check(at == size, "the chunks cover the file");
    sym::reach(if r.log.len() > 1 { "several chunks" } else { "one chunk" });
}

/// Faults while packing. which: 0 source listing and copying, 1 device.
pub fn h_fault_pack(shape: u64, which: u64, _c: u64, _d: u64) {
    let mut fs = small_fixed(shape);
    let k = sym::u8("failat") as u64;
    let mut img = RecDev::default();
    if which == 0 {
        fs.fail_at = Some(k);
    } else {
        img.fail_at = Some(k);
    }
    let mut finished = 0;
    let r = create_xdvdfs_image(&mut fs, &mut img, |p| {
        if matches!(p, ProgressInfo::FinishedPacking) {
            finished += 1;
        }
    });
    let failed = fs.failed || img.failed;
    sym::check(r.is_err() == failed, "packing fails exactly when an operation failed");
    match &r {
        Ok(()) => {
            sym::check(finished == 1, "completion is reported");
            verify(&fs, &img, RT);
            sym::reach("no fault");
        }
        Err(e) => {
            sym::check(finished == 0, "a failed pack is not reported as finished");
            match e {
                WriteError::FilesystemHierarchyError(f) => sym::check(which == 0 && *f == Fault(4), "error comes from the source"),
                WriteError::FilesystemCopierError(f) => sym::check(*f == Fault(if which == 0 { 4 } else { 1 }), "error comes from the copy"),
                WriteError::BlockDeviceError(f) => sym::check(which == 1 && *f == Fault(1), "error comes from the device"),
                _ => sym::check(false, "an input/output error is reported as one"),
            }
            sym::reach("fault");
        }
    }
}

fn small_fixed(shape: u64) -> MemFs {
    let mut fs = MemFs::new();
    let d = fs.add(0, "Dir", true, 0);
    fs.add(d, "x", false, 3000);
    if shape > 0 {
        fs.add(d, "y", false, 2048);
        let e = fs.add(d, "e", true, 0);
        fs.add(e, "deep", false, 0);
    }
    fs.add(0, "b", false, 1);
    fs
}

/// Faults while reading. op: 0 list, 1 recursive list, 2 scan, 3 lookup, 4 file data, 5 repack, 6 volume
pub fn h_fault_read(shape: u64, op: u64, _c: u64, _d: u64) {
    let mut fs = small_fixed(shape);
    let mut img = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut img, |_| {});
    sym::check(r.is_ok(), "packed");
    let mut dev = ImgDev::new(&img);
    let Ok(vol) = xdvdfs::read::read_volume(&mut dev) else { return };
    let t = vol.root_table;
    dev.reads = 0;
    dev.fail_at = Some(sym::u8("failat") as u64);
    let ok = match op {
        0 => t.walk_dirent_tree(&mut dev).is_ok(),
        1 => t.file_tree(&mut dev).is_ok(),
        2 => match t.scan_dirent_tree(&mut dev) {
            Ok(mut it) => loop {
                match it.next_entry() {
                    Ok(Some(_)) => {}
                    Ok(None) => break true,
                    Err(_) => break false,
                }
            },
            Err(_) => false,
        },
        3 => t.walk_path(&mut dev, "/Dir/x").is_ok(),
        4 => match t.walk_path(&mut dev, "Dir/x") {
            Ok(d) => {
                let a = d.node.dirent.read_data_all(&mut dev).is_ok();
                let b = d.node.dirent.read_data_offset(&mut dev, 10, 5).is_ok();
                a && b
            }
            Err(_) => false,
        },
        5 => {
            let mut out = RecDev::default();
            let mut failed = false;
            let ok = {
                let d2 = Shared { d: &mut dev, failed: &mut failed };
                let x: Option<XDVDFSFilesystem<_, RecDev>> = XDVDFSFilesystem::new(d2);
                match x {
                    Some(mut x) => create_xdvdfs_image(&mut x, &mut out, |_| {}).is_ok(),
                    None => false,
                }
            };
            if ok {
                verify(&fs, &out, RT | BYTES);
            }
            ok
        }
        _ => xdvdfs::read::read_volume(&mut dev).is_ok(),
    };
    sym::check(ok == !dev.failed, "an operation fails exactly when a read failed");
    sym::reach(if ok { "no fault" } else { "fault" });
}

struct Shared<'a, 'b> {
    d: &'a mut ImgDev<'b>,
    failed: &'a mut bool,
}
impl BlockDeviceRead for Shared<'_, '_> {
    type ReadError = Fault;
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), Fault> {
        let r = BlockDeviceRead::read(self.d, o, b);
        *self.failed = self.d.failed;
        r
    }
}

/// Progress events describe what was packed.
pub fn h_progress(shape: u64, n: u64, nl: u64, what: u64) {
    let mut fs = tree(shape, n, nl as usize, what);
    let mut img = RecDev::default();
    let mut ev: Vec<ProgressInfo> = vec![];
    let r = create_xdvdfs_image(&mut fs, &mut img, |p| ev.push(p));
    let (mut found, mut files, mut dirs, mut fin, mut fcount, mut dcount) = (0usize, 0usize, 0usize, 0usize, None, None);
    let mut seen_files: Vec<(String, u64)> = vec![];
    let mut seen_dirs: Vec<(String, u64)> = vec![];
    for (i, e) in ev.iter().enumerate() {
        match e {
            ProgressInfo::DiscoveredDirectory(k) => {
                found += k;
                sym::check(fcount.is_none(), "discovery comes before the counts");
            }
            ProgressInfo::FileCount(k) => {
                sym::check(fcount.is_none(), "the file count is announced once");
                fcount = Some(*k);
            }
            ProgressInfo::DirCount(k) => {
                sym::check(dcount.is_none(), "the directory count is announced once");
                dcount = Some(*k);
            }
            ProgressInfo::DirAdded(p, s) => {
                dirs += 1;
                sym::check(dcount.is_some() && fcount.is_some(), "counts are announced before entries");
                seen_dirs.push((p.clone(), *s));
            }
            ProgressInfo::FileAdded(p, s) => {
                files += 1;
                sym::check(dcount.is_some() && fcount.is_some(), "counts are announced before entries");
                seen_files.push((p.clone(), *s));
            }
            ProgressInfo::FinishedPacking => {
                fin += 1;
                sym::check(i + 1 == ev.len(), "finishing is the last event");
            }
            _ => {}
        }
    }
    if r.is_err() {
        sym::check(has_duplicates(&fs), "a valid tree is packed");
        sym::check(fin == 0, "a failed pack is not reported as finished");
        sym::reach("failed");
        return;
    }
    sym::check(fin == 1, "finishing is reported once");
    let entries: usize = fs.dirs.iter().map(|d| d.1.len()).sum();
    sym::check(found == entries, "discovery announces every entry");
    sym::check(fcount == Some(entries) && files == entries, "as many entries are reported as were announced");
    sym::check(dcount == Some(fs.dirs.len()) && dirs == fs.dirs.len(), "as many directories are reported as were announced");
    // the sector reported for an entry is where the image has it
    let mut dev = ImgDev::new(&img);
    let Ok(vol) = xdvdfs::read::read_volume(&mut dev) else { return };
    for (p, s) in &seen_files {
        match vol.root_table.walk_path(&mut dev, p) {
            Ok(d) => sym::check(d.node.dirent.data.sector as u64 == *s, "the reported sector is where the entry is"),
            Err(_) => sym::check(false, "a reported entry is in the image"),
        }
    }
    for (p, s) in &seen_dirs {
        if p.trim_start_matches('/').is_empty() {
            sym::check(vol.root_table.region.sector as u64 == *s, "the reported sector is where the root is");
            continue;
        }
        match vol.root_table.walk_path(&mut dev, p) {
            Ok(d) => sym::check(d.node.dirent.data.sector as u64 == *s, "the reported sector is where the directory is"),
            Err(_) => sym::check(false, "a reported directory is in the image"),
        }
    }
    sym::reach("reported");
}

const STEP: usize = 24;
fn rec(v: &mut [u8], at: usize, l: u16, r: u16, name: u8, attr: u8) {
    v[at..at + 2].copy_from_slice(&l.to_le_bytes());
    v[at + 2..at + 4].copy_from_slice(&r.to_le_bytes());
    v[at + 4..at + 8].copy_from_slice(&(100 + at as u32).to_le_bytes());
    v[at + 8..at + 12].copy_from_slice(&5u32.to_le_bytes());
    v[at + 12] = attr;
    v[at + 13] = 1;
    v[at + 14] = name;
}

/// n records with any child offsets at all. mode 0: list, 1: look a name up.
pub fn h_host_cycle(n: u64, mode: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let mut v = vec![0xffu8; 2048];
    for i in 0..n {
        let (l, r) = (sym::u8("left"), sym::u8("right"));
        let lim = (STEP / 4 * n) as u8;
        // any record, nothing, or the unused rest of the table
        sym::assume(l as usize % (STEP / 4) == 0 && l <= lim);
        sym::assume(r as usize % (STEP / 4) == 0 && r <= lim);
        let l = sym::concretize(l as u64) as u16;
        let r = sym::concretize(r as u64) as u16;
        rec(&mut v, i * STEP, l, r, b'A' + 2 * i as u8, 0x20);
    }
    let mut dev = Flat::new(40 * 2048, v);
    dev.cap = 4 * n as u64 + 8;
    let t = DirectoryEntryTable::new(2048, 40);
    if mode == 0 {
        match t.walk_dirent_tree(&mut dev) {
            Ok(l) => {
                sym::check(l.len() <= n, "no record is listed twice");
                sym::out(1, l.len() as u64);
                sym::reach("listed");
            }
            Err(_) => sym::reach("error"),
        }
    } else {
        let q = sym::u8("q");
        sym::assume(q >= b'@' && q <= b'Z');
        let q = [q];
        let q = core::str::from_utf8(&q).unwrap();
        match t.walk_path(&mut dev, q) {
            Ok(d) => {
                sym::check(d.name_slice() == q.as_bytes(), "the entry found has the name asked for");
                sym::reach("found");
            }
            Err(_) => sym::reach("error"),
        }
    }
}

/// A valid directory of another tool: any search tree shape, absent children 0 or 0xffff,
/// and every entry is found, listed and scanned. `shape` enumerates trees of three.
pub fn h_foreign(shape: u64, _b: u64, _c: u64, _d: u64) {
    // children by rank, records are laid out in rank order after the root
    let (root, kids): (usize, [(Option<usize>, Option<usize>); 3]) = match shape {
        0 => (1, [(None, None), (Some(0), Some(2)), (None, None)]),
        1 => (0, [(None, Some(1)), (None, Some(2)), (None, None)]),
        2 => (0, [(None, Some(2)), (None, None), (Some(1), None)]),
        3 => (2, [(None, None), (Some(0), None), (Some(1), None)]),
        _ => (2, [(None, Some(1)), (None, None), (Some(0), None)]),
    };
    let mut names = [0u8; 3];
    sym::bytes(&mut names, "n");
    for i in 0..3 {
        sym::assume(names[i] > b' ' && names[i] < 0x7f && names[i] != b'/');
        if i > 0 {
            sym::assume(up(names[i - 1]) < up(names[i]));
        }
    }
    // positions: the root first
    let mut pos = [0usize; 3];
    let mut k = 1;
    for i in 0..3 {
        if i != root {
            pos[i] = k * STEP;
            k += 1;
        }
    }
    let fill = if sym::boolean("zerofill") { 0u8 } else { 0xff };
    let mut v = vec![fill; 2048];
    for i in 0..3 {
        let off = |c: Option<usize>| match c {
            Some(c) => (pos[c] / 4) as u16,
            None => {
                if sym::boolean("ff") {
                    0xffff
                } else {
                    0
                }
            }
        };
        let l = off(kids[i].0);
        let r = off(kids[i].1);
        rec(&mut v, pos[i], l, r, names[i], 0x20);
        // pad to the next record is part of the previous name field: names are one byte, records
        // are STEP apart, so scanning needs the gap to be filled by longer names
        v[pos[i] + 13] = (STEP - 14) as u8;
        for b in 15..STEP {
            v[pos[i] + b] = b'-';
        }
    }
    let mut dev = Flat::new(40 * 2048, v);
    let t = DirectoryEntryTable::new(2048, 40);
    let list = t.walk_dirent_tree(&mut dev);
    sym::check(matches!(&list, Ok(l) if l.len() == 3), "every record is listed");
    let Ok(list) = list else { return };
    for i in 0..3 {
        let mut full = vec![names[i]];
        full.extend_from_slice(&[b'-'; STEP - 15]);
        let s = swap(unsafe { core::str::from_utf8_unchecked(&full) });
        let r = t.walk_path(&mut dev, &s);
        sym::check(r.is_ok(), "a listed entry is found by name");
        if let Ok(r) = r {
            sym::check(r.name_slice() == &full[..], "the entry found has the name asked for");
            sym::check(list.iter().any(|d| d.node == r.node), "lookup and listing agree");
        }
    }
    let mut count = 0;
    if let Ok(mut it) = t.scan_dirent_tree(&mut dev) {
        while let Ok(Some(_)) = it.next_entry() {
            count += 1;
        }
    }
    sym::check(count == 3, "every record is scanned");
    // a name that is not there
    let mut q = [b'-'; STEP - 14];
    q[0] = sym::u8("q");
    sym::assume(q[0] > b' ' && q[0] < 0x7f && q[0] != b'/');
    let present = (0..3).any(|i| up(names[i]) == up(q[0]));
    let r = t.walk_path(&mut dev, unsafe { core::str::from_utf8_unchecked(&q) });
    sym::check(r.is_ok() == present, "exactly the names present are found");
    sym::reach("agree");
}

/// Image to image with a file and a directory whose names hold a character of `w` UTF-8 bytes.
pub fn h_repack_name(w: u64, _b: u64, _c: u64, _d: u64) {
    let mut v = vec![];
    let c = crate::h_basic::sym_char(&mut v, w as usize);
    let (ok, b) = crate::h_basic::w1252(c);
    sym::assume(ok && c != b'/' as u32 && c != 0);
    // one path per character
    for x in v.iter_mut() {
        *x = sym::concretize(*x as u64) as u8;
    }
    let name = unsafe { String::from_utf8_unchecked(v) };
    let mut fs = MemFs::new();
    let d = fs.add(0, &name, true, 0);
    fs.add(d, &name, false, 2500);
    let mut a = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut a, |_| {});
    sym::check(r.is_ok(), "a name that can be encoded is accepted");
    let x: Option<XDVDFSFilesystem<_, RecDev>> = XDVDFSFilesystem::new(ImgDev::new(&a));
    let Some(mut x) = x else {
        sym::check(false, "packed image is a volume");
        return;
    };
    let mut o = RecDev::default();
    let r = create_xdvdfs_image(&mut x, &mut o, |_| {});
    sym::check(r.is_ok(), "an image is repacked");
    if r.is_err() {
        return;
    }
    let mut dev = ImgDev::new(&o);
    let Ok(vol) = xdvdfs::read::read_volume(&mut dev) else {
        sym::check(false, "repacked image is a volume");
        return;
    };
    let mut t = vol.root_table;
    for level in 0..2 {
        let Ok(l) = t.walk_dirent_tree(&mut dev) else {
            sym::check(false, "repacked directory is listed");
            return;
        };
        sym::check(l.len() == 1, "repacking keeps the number of entries");
        if l.len() != 1 {
            return;
        }
        sym::check(l[0].name_slice() == [b], "repacking keeps the name");
        match l[0].node.dirent.dirent_table() {
            Some(n) => {
                sym::check(level == 0, "repacking keeps the kind");
                t = n;
            }
            None => {
                sym::check(level == 1, "repacking keeps the kind");
                let data = l[0].node.dirent.read_data_all(&mut dev);
                let Ok(data) = data else {
                    sym::check(false, "repacked data is readable");
                    return;
                };
                let n = <[u8]>::len(&data);
                sym::check(n == 2500, "repacking keeps the size");
                let mut same = true;
                for k in 0..n {
                    same &= data[k] == content(1, k as u64);
                }
                sym::check(same, "repacking keeps the data");
            }
        }
    }
    sym::reach("repacked");
}

/// What lies below an entry whose contents look like a directory table: only a directory has
/// entries, whatever a file contains.
pub fn h_below(_a: u64, _b: u64, _c: u64, _d: u64) {
    let mut v = vec![0xffu8; 3 * 2048];
    let attr = sym::u8("attributes");
    let name = sym::u8("name");
    let below = sym::u8("below");
    for c in [name, below] {
        sym::assume(c > b' ' && c < 0x7f && c != b'/');
    }
    rec(&mut v, 0, 0, 0, name, attr);
    v[4..8].copy_from_slice(&42u32.to_le_bytes());
    v[8..12].copy_from_slice(&2048u32.to_le_bytes());
    rec(&mut v, 2 * 2048, 0, 0, below, 0x20);
    let is_dir = attr & 0x10 != 0;
    let mut dev = Flat::new(40 * 2048, v);
    let t = DirectoryEntryTable::new(2048, 40);
    let p = [b'/', name, b'/', below];
    let r = t.walk_path(&mut dev, unsafe { core::str::from_utf8_unchecked(&p) });
    sym::check(r.is_ok() == is_dir, "only directories have entries");
    if let Ok(r) = r {
        sym::check(r.name_slice() == &[below], "the entry of the directory is found");
        sym::reach("directory");
    } else {
        sym::reach("file");
    }
    let r = t.walk_path(&mut dev, unsafe { core::str::from_utf8_unchecked(&p[..3]) });
    sym::check(matches!(&r, Ok(r) if r.name_slice() == &[name] && r.node.dirent.is_directory() == is_dir), "the entry itself is found");
    let r = t.file_tree(&mut dev);
    sym::check(matches!(&r, Ok(l) if l.len() == if is_dir { 2 } else { 1 }), "only directories are descended into");
}

/// Sequentially scanning `sectors` sectors that are full of records, the last one of each sector
/// ending anywhere up to the end of the sector.
pub fn h_scan_full(sectors: u64, lo: u64, hi: u64, ends: u64) {
    let mut v = Vec::new();
    let mut count = 0u8;
    for s in 0..sectors {
        for i in 0..8 {
            let at = v.len();
            let n = if i < 7 { 242 } else { sym::len("last", lo as usize, hi as usize) };
            let last = s + 1 == sectors && i == 7;
            v.resize(at + 14, 0);
            v[at + 2] = !last as u8;
            v[at + 13] = n as u8;
            v.push(b'0' + count);
            v.resize(at + 14 + n, b'-');
            while v.len() % 4 != 0 {
                v.push(0xff);
            }
            count += 1;
        }
        v.resize(2048 * (s as usize + 1), 0xff);
    }
    let size = if ends != 0 { sym::u32("size") } else { sectors as u32 * 2048 };
    sym::assume(size > (sectors as u32 - 1) * 2048 && size <= sectors as u32 * 2048);
    let mut dev = Flat::new(40 * 2048, v);
    dev.cap = 2 * sectors;
    let t = DirectoryEntryTable::new(size, 40);
    let Ok(mut it) = t.scan_dirent_tree(&mut dev) else {
        sym::check(false, "a directory can be scanned");
        return;
    };
    let mut seen = 0u8;
    loop {
        let r = it.next_entry();
        sym::check(r.is_ok(), "a directory can be scanned");
        let Ok(Some(e)) = r else { break };
        sym::check(seen < count, "no record is listed more than once");
        if seen >= count {
            return;
        }
        sym::check(e.name_slice()[0] == b'0' + seen, "every record is listed once");
        seen += 1;
    }
    sym::check(seen == count, "every record is listed");
    // asking again after the end keeps answering that it is the end
    sym::check(matches!(it.next_entry(), Ok(None)), "the end of a scan stays the end");
    sym::reach("scanned");
}
