//! Name order, on-disk encodings, names.
use crate::dev::*;
use crate::h_pack;
use crate::sym;
use std::cmp::Ordering;
use xdvdfs::layout::*;
use xdvdfs::util::cmp_ignore_case_utf8 as cmp;
use xdvdfs::write::img::create_xdvdfs_image;
use xdvdfs::write::{FileStructureError, WriteError};

/// symbolic ASCII string of a concrete length
pub fn sym_str(name: &str, n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, name);
    for i in 0..n {
        sym::assume(v[i] < 0x80 && v[i] != 0);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Appends one symbolic character of `n` UTF-8 bytes and returns its code point.
pub fn sym_char(out: &mut Vec<u8>, n: usize) -> u32 {
    let mut b = [0u8; 4];
    sym::bytes(&mut b[0..n], "ch");
    let c = match n {
        1 => {
            sym::assume(b[0] < 0x80 && b[0] != 0 && b[0] != b'/');
            b[0] as u32
        }
        2 => {
            sym::assume(b[0] >= 0xc2 && b[0] <= 0xdf);
            sym::assume(b[1] >= 0x80 && b[1] <= 0xbf);
            ((b[0] & 0x1f) as u32) << 6 | (b[1] & 0x3f) as u32
        }
        3 => {
            sym::assume(b[0] >= 0xe0 && b[0] <= 0xef);
            sym::assume(b[1] >= 0x80 && b[1] <= 0xbf);
            sym::assume(b[2] >= 0x80 && b[2] <= 0xbf);
            let c = ((b[0] & 0xf) as u32) << 12 | ((b[1] & 0x3f) as u32) << 6 | (b[2] & 0x3f) as u32;
            sym::assume(c >= 0x800);
            sym::assume(c < 0xd800 || c > 0xdfff);
            c
        }
        _ => {
            sym::assume(b[0] >= 0xf0 && b[0] <= 0xf4);
            for k in 1..4 {
                sym::assume(b[k] >= 0x80 && b[k] <= 0xbf);
            }
            let c = ((b[0] & 7) as u32) << 18 | ((b[1] & 0x3f) as u32) << 12 | ((b[2] & 0x3f) as u32) << 6 | (b[3] & 0x3f) as u32;
            sym::assume(c >= 0x10000 && c <= 0x10ffff);
            c
        }
    };
    out.extend_from_slice(&b[0..n]);
    c
}

fn fold(c: u32) -> u32 {
    let lower = ((c >= 'a' as u32) & (c <= 'z' as u32)) as u32;
    c - lower * 32
}

/// The order of names: by upper-cased (ASCII) characters, a prefix first.
pub fn expected_order(a: &[u32], b: &[u32]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (fold(a[i]), fold(b[i]));
        if x < y {
            return Ordering::Less;
        }
        if x > y {
            return Ordering::Greater;
        }
    }
    a.len().cmp(&b.len())
}

/// `n` characters at most, each of `w` UTF-8 bytes at most
fn text(n: usize, w: usize) -> (String, Vec<u32>) {
    let k = sym::len("nchars", 0, n);
    let mut v = vec![];
    let mut c = vec![];
    for _ in 0..k {
        let w = sym::len("width", 1, w);
        c.push(sym_char(&mut v, w));
    }
    (unsafe { String::from_utf8_unchecked(v) }, c)
}

pub fn h_cmp_order(n: u64, w: u64, _c: u64, _d: u64) {
    let (a, ac) = text(n as usize, w as usize);
    let (b, bc) = text(n as usize, w as usize);
    let ab = cmp(&a, &b);
    sym::out(1, ab as i8 as u64);
    sym::check(ab == cmp(&b, &a).reverse(), "swapping the names reverses the order");
    sym::check(ab == expected_order(&ac, &bc), "names are ordered by their upper-cased characters");
    let same = a.eq_ignore_ascii_case(&b);
    sym::check((ab == Ordering::Equal) == same, "names are equal exactly when they differ only in ASCII case");
    if ab == Ordering::Equal && a != b {
        sym::reach("case-fold-equal");
    }
}

/// Transitivity over three names.
pub fn h_cmp_trans(n: u64, _b: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let a = sym_str("a", sym::len("la", 0, n));
    let b = sym_str("b", sym::len("lb", 0, n));
    let c = sym_str("c", sym::len("lc", 0, n));
    let (ab, bc) = (cmp(&a, &b), cmp(&b, &c));
    if ab != Ordering::Greater && bc != Ordering::Greater {
        let ac = cmp(&a, &c);
        sym::check(ac != Ordering::Greater, "the order is transitive");
        sym::check((ac == Ordering::Equal) == (ab == Ordering::Equal && bc == Ordering::Equal), "strictness is transitive");
        sym::reach("chain");
    }
}

fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

/// Directory record: 14 bytes at fixed offsets.
pub fn h_dirent_codec(_a: u64, _b: u64, _c: u64, _d: u64) {
    let mut raw = [0u8; 0xe];
    sym::bytes(&mut raw, "raw");
    let n = DirectoryEntryDiskNode::deserialize(&raw);
    sym::check(n.is_ok(), "any 14 bytes decode");
    let Ok(n) = n else { return };
    let ser = n.serialize();
    sym::check(ser.is_ok(), "any record encodes");
    let Ok(ser) = ser else { return };
    sym::check(ser.len() == 14, "a record is 14 bytes long");
    for i in 0..14 {
        sym::check(ser[i] == raw[i], "decoding then encoding gives the same bytes");
    }
    let (l, r) = (n.left_entry_offset, n.right_entry_offset);
    let data = n.dirent.data;
    sym::check(l == u16::from_le_bytes([raw[0], raw[1]]), "left child at offset 0");
    sym::check(r == u16::from_le_bytes([raw[2], raw[3]]), "right child at offset 2");
    sym::check({ data.sector } == le32(&raw[4..8]), "sector at offset 4");
    sym::check({ data.size } == le32(&raw[8..12]), "size at offset 8");
    let at = n.dirent.attributes;
    sym::check(at.read_only() == (raw[12] & 1 != 0), "read-only is bit 0");
    sym::check(at.hidden() == (raw[12] & 2 != 0), "hidden is bit 1");
    sym::check(at.system() == (raw[12] & 4 != 0), "system is bit 2");
    sym::check(at.directory() == (raw[12] & 0x10 != 0), "directory is bit 4");
    sym::check(at.archive() == (raw[12] & 0x20 != 0), "archive is bit 5");
    sym::check(at.normal() == (raw[12] & 0x80 != 0), "normal is bit 7");
    sym::check(n.dirent.is_directory() == (raw[12] & 0x10 != 0), "directory flag");
    sym::check(n.dirent.filename_length == raw[13], "name length at offset 13");
    sym::check(n.dirent.is_empty() == (le32(&raw[8..12]) == 0), "empty means size 0");
    match n.dirent.dirent_table() {
        Some(t) => {
            let (a, b) = (t.region, n.dirent.data);
            sym::check(raw[12] & 0x10 != 0 && { a.sector } == { b.sector } && { a.size } == { b.size }, "a directory's table is its data region");
            sym::reach("dir");
        }
        None => {
            sym::check(raw[12] & 0x10 == 0, "a directory has a table");
            sym::reach("file");
        }
    }
}

/// The record an image holds is what the reader returns, and only all-0xff or all-zero is "nothing".
pub fn h_dirent_read(nl: u64, _b: u64, _c: u64, _d: u64) {
    let nl = nl as usize;
    let mut raw = vec![0u8; 14 + nl];
    sym::bytes(&mut raw, "raw");
    // no children: a single record
    for k in 0..4 {
        sym::assume(raw[k] == 0 || raw[k] == 0xff);
    }
    sym::assume(raw[0] == raw[1] && raw[2] == raw[3]);
    let mut ff = true;
    let mut zz = true;
    for k in 0..14 {
        ff &= raw[k] == 0xff;
        zz &= raw[k] == 0;
    }
    if !(ff | zz) {
        sym::assume(raw[13] as usize == nl);
    }
    let mut dev = Flat::new(40 * 2048, raw.clone());
    let t = DirectoryEntryTable::new(2048, 40);
    let l = t.walk_dirent_tree(&mut dev);
    sym::check(l.is_ok(), "a lone record can be listed");
    let Ok(l) = l else { return };
    if ff | zz {
        sym::check(l.is_empty(), "a blank record is no entry");
        sym::reach("blank");
        return;
    }
    sym::check(l.len() == 1, "a record that is not blank is an entry");
    if l.len() != 1 {
        return;
    }
    let d = &l[0];
    let data = d.node.dirent.data;
    sym::check({ data.sector } == le32(&raw[4..8]) && { data.size } == le32(&raw[8..12]), "location is returned as stored");
    sym::check(d.node.dirent.attributes.0 == raw[12], "attributes are returned as stored");
    sym::check(d.name_slice().len() == nl, "name length is returned as stored");
    for k in 0..nl {
        sym::check(d.name_slice()[k] == raw[14 + k], "name is returned as stored");
    }
    sym::check(d.offset == 40 * 2048, "record position");
    sym::reach("entry");
}

const MAGIC: &[u8; 20] = b"MICROSOFT*XBOX*MEDIA";

pub fn h_volume_write(_a: u64, _b: u64, _c: u64, _d: u64) {
    let (sector, size) = (sym::u32("sector"), sym::u32("size"));
    let v = VolumeDescriptor::new(DirectoryEntryTable::new(size, sector));
    sym::check(v.is_valid(), "a new volume descriptor is valid");
    let s = v.serialize();
    sym::check(s.is_ok(), "a volume descriptor encodes");
    let Ok(s) = s else { return };
    sym::check(s.len() == 2048, "a volume descriptor fills one sector");
    if s.len() != 2048 {
        return;
    }
    for k in 0..20 {
        sym::check(s[k] == MAGIC[k], "leading magic");
        sym::check(s[2028 + k] == MAGIC[k], "trailing magic");
    }
    sym::check(le32(&s[20..24]) == sector, "root sector at offset 20");
    sym::check(le32(&s[24..28]) == size, "root size at offset 24");
    sym::reach("ok");
}

/// A sector is accepted as a volume exactly when both magics are there.
pub fn h_volume_read(wild: u64, _b: u64, _c: u64, _d: u64) {
    let mut s = vec![0u8; 2048];
    sym::bytes(&mut s, "sector");
    let w = wild as usize;
    // all magic bytes but a window of 3 are fixed, to keep the number of cases small
    for k in 0..20 {
        if k + 3 <= w || k > w {
            sym::assume(s[k] == MAGIC[k]);
        }
        if k + 3 + 20 <= w || k + 20 > w {
            sym::assume(s[2028 + k] == MAGIC[k]);
        }
    }
    let mut good = true;
    for k in 0..20 {
        good &= s[k] == MAGIC[k];
        good &= s[2028 + k] == MAGIC[k];
    }
    let mut dev = Flat::new(32 * 2048, s.clone());
    let v = xdvdfs::read::read_volume(&mut dev);
    match v {
        Ok(v) => {
            sym::check(good, "a sector without both magics is rejected");
            let r = v.root_table.region;
            sym::check({ r.sector } == le32(&s[20..24]) && { r.size } == le32(&s[24..28]), "root location as stored");
            let t = v.filetime;
            sym::check(t == u64::from_le_bytes(s[28..36].try_into().unwrap()), "time stamp as stored");
            sym::reach("accepted");
        }
        Err(_) => {
            sym::check(!good, "a sector with both magics is accepted");
            sym::reach("rejected");
        }
    }
}

/// Windows-1252 code points 0x80..=0x9f (five of them undefined, mapped to C1 controls).
const W1252: [u32; 32] = [
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f, 0x90, 0x2018, 0x2019,
    0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178,
];
/// (representable, byte)
pub fn w1252(c: u32) -> (bool, u8) {
    let mut ok = (c < 0x80) | ((c >= 0xa0) & (c <= 0xff));
    let mut b = c as u8;
    for k in 0..32 {
        let m = c == W1252[k];
        ok |= m;
        b = if m { 0x80 + k as u8 } else { b };
    }
    (ok, b)
}

/// A file whose name has characters of `w1` and `w2` UTF-8 bytes: kept exactly, or refused.
pub fn h_name_enc(w1: u64, w2: u64, _c: u64, _d: u64) {
    let mut v = vec![];
    let mut ok = true;
    let mut enc = vec![];
    for w in [w1, w2] {
        if w > 0 {
            let c = sym_char(&mut v, w as usize);
            let (o, b) = w1252(c);
            ok &= o;
            enc.push(b);
        }
    }
    let name = unsafe { String::from_utf8_unchecked(v) };
    let mut fs = MemFs::new();
    fs.add(0, &name, false, 5);
    let mut img = RecDev::default();
    let r = create_xdvdfs_image(&mut fs, &mut img, |_| {});
    match r {
        Ok(()) => {
            sym::check(ok, "a name that cannot be encoded is refused");
            sym::reach("encoded");
            let mut dev = ImgDev::new(&img);
            let Ok(vol) = xdvdfs::read::read_volume(&mut dev) else {
                sym::check(false, "volume");
                return;
            };
            let Ok(l) = vol.root_table.walk_dirent_tree(&mut dev) else {
                sym::check(false, "listing");
                return;
            };
            sym::check(l.len() == 1, "one entry");
            if l.len() != 1 {
                return;
            }
            let raw = l[0].name_slice();
            sym::check(raw.len() == enc.len(), "encoded name length");
            for k in 0..enc.len().min(raw.len()) {
                sym::check(raw[k] == enc[k], "name is stored in Windows-1252");
            }
            match l[0].name_str::<Fault>() {
                Ok(s) => sym::check(*s == name, "the name read back is the name given"),
                Err(_) => sym::check(false, "the stored name decodes"),
            }
            let f = vol.root_table.walk_path(&mut dev, &name);
            sym::check(f.is_ok(), "the entry is found under its name");
        }
        Err(WriteError::InvalidFileStructureError(FileStructureError::StringEncodingError)) => {
            sym::check(!ok, "a name that can be encoded is accepted");
            sym::reach("refused");
        }
        Err(_) => sym::check(false, "unexpected error"),
    }
}

/// Every stored name byte decodes to its Windows-1252 character.
pub fn h_name_dec(n: u64, _b: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let mut name = [0u8; 256];
    sym::bytes(&mut name[0..n], "name");
    let e = DirectoryEntryNode {
        node: DirectoryEntryDiskNode {
            left_entry_offset: 0,
            right_entry_offset: 0,
            dirent: DirectoryEntryDiskData { data: DiskRegion { sector: 0, size: 0 }, attributes: DirentAttributes(0), filename_length: n as u8 },
        },
        name,
        offset: 0,
    };
    let s = e.name_str::<Fault>();
    sym::check(s.is_ok(), "every byte string decodes");
    if let Ok(s) = s {
        let mut k = 0;
        for c in s.chars() {
            if k < n {
                let (ok, b) = w1252(c as u32);
                sym::check(ok && b == name[k], "byte decodes to its character");
            }
            k += 1;
        }
        sym::check(k == n, "one character per byte");
        sym::reach("decoded");
    }
}

/// Names around the 255 byte limit; `two` = 1 for two-byte characters.
pub fn h_name_len(lo: u64, hi: u64, two: u64, _d: u64) {
    let n = sym::u16("len") as u64;
    sym::assume(n >= lo && n <= hi);
    let n = sym::concretize(n) as usize;
    let mut v = vec![];
    for _ in 0..n - 1 {
        if two == 1 {
            v.extend_from_slice("é".as_bytes());
        } else {
            v.push(b'x');
        }
    }
    sym_char(&mut v, 1);
    let name = unsafe { String::from_utf8_unchecked(v) };
    let mut fs = MemFs::new();
    fs.add(0, &name, false, 5);
    fs.add(0, "z", false, 7);
    let mut img = RecDev::default();
    match create_xdvdfs_image(&mut fs, &mut img, |_| {}) {
        Ok(()) => {
            sym::check(n <= 255, "a name longer than 255 bytes is refused");
            let mut dev = ImgDev::new(&img);
            let l = xdvdfs::read::read_volume(&mut dev).and_then(|v| v.root_table.walk_dirent_tree(&mut dev));
            sym::check(l.is_ok(), "listing");
            if let Ok(l) = l {
                sym::check(l.len() == 2, "both entries are listed");
                let mut found = false;
                for e in l {
                    if e.name_str::<Fault>().map(|s| *s == *name).unwrap_or(false) {
                        found = true;
                    }
                }
                sym::check(found, "the long name is listed exactly");
            }
            sym::reach("stored");
        }
        Err(WriteError::InvalidFileStructureError(e)) => {
            sym::check(n > 255 || name.len() > 255, "a name of up to 255 bytes is accepted");
            sym::check(matches!(e, FileStructureError::FileNameTooLong | FileStructureError::StringEncodingError), "error kind");
            sym::reach("refused");
        }
        Err(_) => sym::check(false, "unexpected error"),
    }
    let _ = h_pack::RT;
}
