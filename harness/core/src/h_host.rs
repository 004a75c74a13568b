//! Hostile images: any bytes at all. The readers must stop, must not panic, and may only fail with an error.
use crate::dev::*;
use crate::sym;
use xdvdfs::blockdev::BlockDeviceRead;
use xdvdfs::layout::*;

const BASE: u64 = 40 * 2048;

fn arbitrary(n: usize, maxname: u8) -> Flat {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, "img");
    // name lengths beyond the end of the data only add failing reads
    if maxname < 255 {
        let mut k = 13;
        while k < n {
            sym::assume(v[k] <= maxname);
            k += 4;
        }
    }
    Flat::new(BASE, v)
}

/// Listing a directory of n arbitrary bytes.
pub fn h_host_walk(n: u64, maxname: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let mut dev = arbitrary(n, maxname as u8);
    let size = sym::u32("size");
    let t = DirectoryEntryTable::new(size, 40);
    dev.cap = 2 * ((n as u64 - 14) / 4 + 1) + 2;
    let r = t.walk_dirent_tree(&mut dev);
    // there are at most n/4 places where a record can start
    let places = (n as u64 - 14) / 4 + 1;
    match r {
        Ok(l) => {
            sym::check(l.len() as u64 <= places, "no record is listed twice");
            sym::out(1, l.len() as u64);
            sym::reach(if l.len() > 1 { "listed many" } else { "listed" });
        }
        Err(_) => sym::reach("error"),
    }
}

/// Looking a path up in a directory of n arbitrary bytes.
pub fn h_host_path(n: u64, maxname: u64, q: u64, _d: u64) {
    let n = n as usize;
    let mut dev = arbitrary(n, maxname as u8);
    let t = DirectoryEntryTable::new(sym::u32("size"), 40);
    let mut p = vec![0u8; q as usize];
    sym::bytes(&mut p, "path");
    for c in &p {
        sym::assume(*c < 0x80);
    }
    let p = unsafe { String::from_utf8_unchecked(p) };
    let places = (n as u64 - 14) / 4 + 1;
    // one descent per path component
    let comps = p.len() as u64 / 2 + 1;
    dev.cap = comps * (2 * places + 2);
    let r = t.walk_path(&mut dev, &p);
    match r {
        Ok(_) => {
            sym::reach("found");
        }
        Err(_) => sym::reach("error"),
    }
}

/// Any path string on a well-formed little tree: never a panic.
pub fn h_path_string(q: u64, _b: u64, _c: u64, _d: u64) {
    let mut fs = MemFs::new();
    let d = fs.add(0, "a", true, 0);
    fs.add(d, "b", false, 3);
    fs.add(0, "c", false, 3);
    let mut img = RecDev::default();
    let r = xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut img, |_| {});
    sym::check(r.is_ok(), "packed");
    let mut dev = ImgDev::new(&img);
    let Ok(vol) = xdvdfs::read::read_volume(&mut dev) else { return };
    let n = sym::len("pathlen", 0, q as usize);
    let mut p = vec![0u8; n];
    sym::bytes(&mut p, "path");
    for c in &p {
        sym::assume(*c < 0x80);
    }
    let p = unsafe { String::from_utf8_unchecked(p) };
    let r = vol.root_table.walk_path(&mut dev, &p);
    match r {
        Ok(e) => {
            // what was found is what the last component names
            let last = p.trim_end_matches('/').rsplit('/').next().unwrap_or("");
            sym::check(crate::h_pack::same_name(core::str::from_utf8(e.name_slice()).unwrap(), last), "the entry found has the name asked for");
            sym::reach("found");
        }
        Err(_) => sym::reach("not found"),
    }
}

/// Sequential scan. `pos` bytes of well-formed records precede `n` arbitrary bytes; the rest is 0xff.
pub fn h_host_scan(pos: u64, n: u64, sectors: u64, maxname: u64) {
    let total = sectors as usize * 2048;
    let mut v = vec![0xffu8; total];
    let mut at = 0usize;
    let (pos, n) = (pos as usize, n as usize);
    // records of exactly 272 or fewer bytes, all valid
    while at < pos {
        let len = (pos - at).min(268);
        for k in 0..len {
            v[at + k] = 0x41;
        }
        v[at + 13] = (len - 14) as u8;
        at += len;
    }
    let n = n.min(total - pos);
    sym::bytes(&mut v[pos..pos + n], "img");
    if maxname < 255 {
        let mut k = 13;
        while k < n {
            sym::assume(v[pos + k] as u64 <= maxname);
            k += 4;
        }
    }
    let mut dev = Flat::new(BASE, v);
    let t = DirectoryEntryTable::new(sectors as u32 * 2048, 40);
    let it = t.scan_dirent_tree(&mut dev);
    let Ok(mut it) = it else {
        sym::reach("error");
        return;
    };
    let mut count = 0u64;
    loop {
        match it.next_entry() {
            Ok(Some(_)) => {
                count += 1;
            }
            Ok(None) => {
                sym::reach("end");
                break;
            }
            Err(_) => {
                sym::reach("error");
                break;
            }
        }
        sym::check(count <= sectors * 147, "the scan ends");
        if count > sectors * 147 {
            break;
        }
    }
    sym::out(1, count);
}

/// A device of a few sectors, each starting with one record whose location is symbolic:
/// directories can point at any table, including their own.
struct Looped {
    recs: Vec<[u8; 14]>,
    reads: u64,
}
impl BlockDeviceRead for Looped {
    type ReadError = Fault;
    fn read(&mut self, offset: u64, buf: &mut [u8]) -> Result<(), Fault> {
        self.reads += 1;
        sym::check(self.reads < 200, "listing directories ends");
        if self.reads >= 200 {
            return Err(Fault(10));
        }
        let sector = offset / 2048;
        if sector >= self.recs.len() as u64 {
            return Err(Fault(9));
        }
        let s = sym::concretize(sector) as usize;
        let o = sym::concretize(offset % 2048) as usize;
        let n = sym::concretize(<[u8]>::len(buf) as u64) as usize;
        for k in 0..n {
            buf[k] = if o + k < 14 {
                self.recs[s][o + k]
            } else if o + k < 16 {
                b'a' + s as u8
            } else {
                0xff
            };
        }
        Ok(())
    }
}
fn looped(n: usize) -> Looped {
    let mut recs = vec![];
    for _ in 0..n {
        let mut r = [0u8; 14];
        r[4] = sym::u8("sector");
        sym::assume(r[4] as usize <= n);
        r[9] = 8;
        r[12] = if sym::boolean("dir") { 0x10 } else { 0x20 };
        r[13] = 2;
        recs.push(r);
    }
    Looped { recs, reads: 0 }
}

/// Recursive listing of directories that may contain themselves.
pub fn h_host_dirs(n: u64, mode: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let mut dev = looped(n);
    let t = DirectoryEntryTable::new(2048, 0);
    match mode {
        0 => {
            let r = t.file_tree(&mut dev);
            match r {
                Ok(l) => {
                    sym::check(l.len() <= n, "no directory is listed inside itself");
                    sym::out(1, l.len() as u64);
                    sym::reach("listed");
                }
                Err(_) => sym::reach("error"),
            }
        }
        _ => {
            // the image as the source of a new image: same recursion through the writer
            let mut d2 = WithVolume { d: dev };
            let fs: Option<xdvdfs::write::fs::XDVDFSFilesystem<_, RecDev>> = xdvdfs::write::fs::XDVDFSFilesystem::new(&mut d2);
            let Some(mut fs) = fs else {
                sym::check(false, "volume is readable");
                return;
            };
            let mut img = RecDev::default();
            let r = xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut img, |_| {});
            sym::reach(if r.is_ok() { "packed" } else { "error" });
        }
    }
}

struct WithVolume {
    d: Looped,
}
impl BlockDeviceRead for &mut WithVolume {
    type ReadError = Fault;
    fn read(&mut self, offset: u64, buf: &mut [u8]) -> Result<(), Fault> {
        if offset == 32 * 2048 && <[u8]>::len(buf) == 2048 {
            let v = VolumeDescriptor::new(DirectoryEntryTable::new(2048, 0)).serialize().unwrap();
            buf.copy_from_slice(&v);
            return Ok(());
        }
        // file data: any bytes
        self.d.read(offset, buf)
    }
}

/// Everything on an image made of one arbitrary volume sector and a little arbitrary directory.
pub fn h_host_image(n: u64, maxname: u64, _c: u64, _d: u64) {
    let mut s = vec![0u8; 2048];
    s[0..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    s[2028..2048].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    sym::bytes(&mut s[20..36], "root");
    let mut t = vec![0u8; n as usize];
    sym::bytes(&mut t, "table");
    let mut k = 13;
    while k < n as usize {
        sym::assume(t[k] as u64 <= maxname);
        k += 4;
    }
    s.extend_from_slice(&t);
    let mut dev = Flat::new(32 * 2048, s);
    let v = xdvdfs::read::read_volume(&mut dev);
    sym::check(v.is_ok(), "the volume descriptor is accepted");
    let Ok(v) = v else { return };
    let _ = v.root_dirent(&mut dev);
    let tree = v.root_table.file_tree(&mut dev);
    match tree {
        Ok(l) => {
            sym::reach("listed");
            sym::out(1, l.len() as u64);
        }
        Err(_) => sym::reach("error"),
    }
}
