C = "xdvdfs-core/src/"
SEEDS = [
 dict(id="name-replaced", property="C07",
  needs="a file name with a character outside Windows-1252",
  breaks="encode_name uses the replacing encoder: an unmappable character is silently stored as a numeric reference instead of refusing the name",
  edits=[(C+"layout.rs", """        let (result, bytes_read, bytes_written) =
            encoder.encode_from_utf8_without_replacement(self.name_str(), buffer, true);
        match result {
            encoding_rs::EncoderResult::InputEmpty => {}""", """        let (result, bytes_read, bytes_written, _) =
            encoder.encode_from_utf8(self.name_str(), buffer, true);
        match result {
            encoding_rs::CoderResult::InputEmpty => {}""")],
  demo_rs="""
fn main() {
    let mut t = Tree::new().file("/", "\\u{65e5}.txt", bytes(1, 10));
    let mut mem = Mem::default();
    match xdvdfs::write::img::create_xdvdfs_image(&mut t, &mut mem, |_| {}) {
        Err(_) => {}
        Ok(()) => assert_eq!(listing(&mut mem), expected(&t)),
    }
    let t = Tree::new().file("/", "\\u{e9}.txt", bytes(1, 10));
    assert_eq!(listing(&mut pack(&t)), expected(&t));
}
"""),
 dict(id="char-width", property="C08",
  needs="two names that differ in a character above U+00FF whose low byte equals an ASCII character",
  breaks="characters are compared by their low byte only, so distinct names such as 'A&' and 'A\u2026' are treated as duplicates",
  edits=[(C+"util.rs", "        match a.cmp(&b) {", "        match (a as u8).cmp(&(b as u8)) {")],
  demo_rs="""
fn main() {
    let t = Tree::new().file("/", "A&", bytes(1, 10)).file("/", "A\\u{2026}", bytes(2, 20));
    assert_eq!(listing(&mut pack(&t)), expected(&t));
}
"""),
 dict(id="xgd2-offset", property="C11",
  needs="a disc image with an XGD2 game partition",
  breaks="two digits of the XGD2 partition offset are swapped, so such discs are not recognised",
  edits=[(C+"blockdev.rs", "265879552,", "265789552,")],
  demo_rs="""
struct Disc;
impl xdvdfs::blockdev::BlockDeviceRead for Disc {
    type ReadError = String;
    fn read(&mut self, offset: u64, buf: &mut [u8]) -> Result<(), String> {
        let vol = volume(33, 2048);
        for (i, b) in buf.iter_mut().enumerate() {
            let p = (offset + i as u64).wrapping_sub(265879552 + 32 * 2048);
            *b = vol.get(p as usize).copied().unwrap_or(0);
        }
        Ok(())
    }
}
fn main() {
    let w = xdvdfs::blockdev::OffsetWrapper::new(Disc).map_err(|_| ()).expect("the partition is found");
    assert_eq!(w.get_offset(), 265879552);
}
"""),
 dict(id="wrapped-write", property="C11",
  needs="writing through the wrapper of an image whose partition is not at offset 0",
  breaks="OffsetWrapper::write does not translate the position",
  edits=[(C+"blockdev.rs", "        self.inner.write(offset + self.offset, buffer).await", "        self.inner.write(offset, buffer).await")],
  demo_rs="""
use xdvdfs::blockdev::*;
fn main() {
    let mut m = Mem::default();
    m.data = vec![0; 34078720 + 40 * 2048];
    let v = volume(33, 2048);
    let at = 34078720 + 32 * 2048;
    m.data[at..at + 2048].copy_from_slice(&v);
    let mut w = OffsetWrapper::new(m).map_err(|_| ()).unwrap();
    w.write(33 * 2048, &[7; 16]).unwrap();
    let mut b = [0; 16];
    w.read(33 * 2048, &mut b).unwrap();
    assert_eq!(b, [7; 16]);
    assert!(w.get_ref().data[..34078720].iter().all(|b| *b == 0));
}
"""),
 dict(id="mem-write-overflow", property="C12",
  needs="a write at an offset close to the largest representable one",
  breaks="the bounds check of the in-memory slice device computes offset + length, which overflows",
  edits=[(C+"blockdev.rs", """impl BlockDeviceWrite for Box<[u8]> {
    type WriteError = OutOfBounds;

    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), Self::WriteError> {
        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
        let buffer_size = <[u8]>::len(self);
        if offset >= buffer_size || buffer_size - offset < buffer.len() {""", """impl BlockDeviceWrite for Box<[u8]> {
    type WriteError = OutOfBounds;

    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), Self::WriteError> {
        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
        let buffer_size = <[u8]>::len(self);
        if offset >= buffer_size || offset + buffer.len() > buffer_size + 1 {""")],
  demo_rs="""
use xdvdfs::blockdev::*;
fn main() {
    let mut d: Box<[u8]> = vec![1u8; 16].into_boxed_slice();
    assert!(d.write(0, &[2; 17]).is_err());
    assert!(d.write(10, &[2; 7]).is_err());
    assert!(d.write(u64::MAX, &[2; 7]).is_err());
    assert_eq!(&d[..], &[1u8; 16]);
    assert!(d.write(9, &[2; 7]).is_ok());
}
"""),
 dict(id="copy-chunk", property="C14",
  needs="a file of more than 1 MiB copied from image to image",
  breaks="the buffered image-to-image copy reads the first chunk again for every later chunk",
  edits=[(C+"write/fs/xdvdfs.rs", "src.read(offset_in + copied, slice)", "src.read(offset_in, slice)")],
  demo_rs="""
use xdvdfs::write::fs::XDVDFSFilesystem;
fn main() {
    let t = Tree::new().file("/", "big", bytes(3, 1024 * 1024 + 5000)).file("/", "small", bytes(4, 3000));
    let src = pack(&t);
    let mut fs: XDVDFSFilesystem<Mem, Mem> = XDVDFSFilesystem::new(src).unwrap();
    let mut out = Mem::default();
    xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut out, |_| {}).map_err(|_| ()).unwrap();
    assert!(listing(&mut out) == expected(&t));
}
"""),
 dict(id="padding-error", property="C19",
  needs="the device failing exactly at the write of the final padding",
  breaks="a failure to write the final padding is ignored and packing reports success",
  edits=[(C+"write/img.rs", """        BlockDeviceWrite::write(image, len, &padding)
            .await
            .map_err(WriteError::BlockDeviceError)?;
    }""", """        let _ = BlockDeviceWrite::write(image, len, &padding).await;
    }""")],
  demo_rs="""
fn main() {
    let t = Tree::new().file("/", "a", bytes(3, 3000)).dir("/", "d").file("/d", "b", bytes(4, 10));
    let n = pack(&t).writes;
    for i in 0..n {
        let mut m = Mem { fail_write: Some(i), ..Mem::default() };
        assert!(xdvdfs::write::img::create_xdvdfs_image(&mut t.clone(), &mut m, |_| {}).is_err(), "failure of write {i} of {n} lost");
    }
}
"""),
 dict(id="early-finish", property="C21",
  needs="a failure while the padding or the volume descriptor is written",
  breaks="completion is reported before the final padding is written, so it is reported although packing then fails",
  edits=[(C+"write/img.rs", """    progress_callback(ProgressInfo::FinishedPacking);
    Ok(())""", """    Ok(())"""),
         (C+"write/img.rs", """    let len = BlockDeviceWrite::len(image)
""", """    progress_callback(ProgressInfo::FinishedPacking);

    let len = BlockDeviceWrite::len(image)
""")],
  demo_rs="""
use xdvdfs::write::img::ProgressInfo;
fn main() {
    let t = Tree::new().file("/", "a", bytes(3, 3000));
    let n = pack(&t).writes;
    for i in 0..=n {
        let mut m = Mem { fail_write: Some(i), ..Mem::default() };
        let mut finished = 0;
        let r = xdvdfs::write::img::create_xdvdfs_image(&mut t.clone(), &mut m, |p| if let ProgressInfo::FinishedPacking = p { finished += 1 });
        assert_eq!(finished, r.is_ok() as i32, "completion misreported for failure {i}");
    }
}
"""),
 dict(id="linear-last-sector", property="C13",
  needs="a file whose size is one more than a multiple of the sector size",
  breaks="the virtual sector map leaves out the last sector of a file that holds a single byte there",
  edits=[(C+"write/fs/sector_linear.rs", "if size % layout::SECTOR_SIZE as u64 > 0 {", "if size % layout::SECTOR_SIZE as u64 > 1 {")],
  demo_rs="""
use xdvdfs::write::fs::*;
use ciso::write::SectorReader;
fn main() {
    for len in [0, 1, 2, 2047, 2048, 2049, 4097] {
        let t = Tree::new().file("/", "a", bytes(3, len)).file("/", "b", bytes(9, 100));
        let plain = pack(&t);
        let mut src = t.clone();
        let mut fs = SectorLinearBlockFilesystem::new(&mut src);
        let mut dev = SectorLinearBlockDevice::default();
        xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut dev, |_| {}).map_err(|_| ()).unwrap();
        let mut input = CisoSectorInput::new(dev, fs);
        assert_eq!(input.size().unwrap(), plain.data.len() as u64);
        for s in 0..plain.data.len() / 2048 {
            assert!(input.read_sector(s, 2048).unwrap()[..] == plain.data[s * 2048..(s + 1) * 2048], "sector {s} for {len}");
        }
    }
}
"""),
 dict(id="file-as-dir", property="C02",
  needs="looking up a path that continues below a file whose contents look like a directory table",
  breaks="path lookup descends into the contents of a file as if they were a directory table",
  edits=[(C+"read.rs", """            dirent_tab = dirent_data
                .dirent_table()
                .ok_or(util::Error::IsNotDirectory)?;
        }

        unreachable!""", """            dirent_tab = DirectoryEntryTable {
                region: dirent_data.data,
            };
        }

        unreachable!""")],
  demo_rs="""
fn main() {
    let fake = record(0, 0, 40, 5, 0x20, "x");
    let t = Tree::new().file("/", "f", fake).dir("/", "d").file("/d", "y", bytes(1, 5));
    let mut m = pack(&t);
    let v = xdvdfs::read::read_volume(&mut m).unwrap();
    assert!(v.root_table.walk_path(&mut m, "/d/y").is_ok());
    assert!(v.root_table.walk_path(&mut m, "/f/x").is_err());
}
"""),
 dict(id="scan-last-sector", property="C01",
  needs="a directory whose second last sector ends in a gap of at least 14 bytes",
  breaks="the sequential scan stops at a gap when only one sector remains, losing the entries of the last sector",
  edits=[(C+"read.rs", "if self.sector + 1 < self.end_sector {", "if self.sector + 2 < self.end_sector {")],
  demo_rs="""
fn main() {
    let mut t = Tree::new();
    for i in 0..20 {
        t = t.file("/", &format!("{i:02}{}", "n".repeat(128)), bytes(i, 3));
    }
    let mut m = pack(&t);
    let v = xdvdfs::read::read_volume(&mut m).unwrap();
    let tree = v.root_table.walk_dirent_tree(&mut m).unwrap();
    let mut scan = v.root_table.scan_dirent_tree(&mut m).unwrap();
    let mut n = 0;
    while let Some(_) = scan.next_entry().unwrap() { n += 1 }
    assert_eq!(tree.len(), 20);
    assert_eq!(n, 20);
}
"""),
 dict(id="one-magic", property="C06",
  needs="a sector in which only the first magic string is intact",
  breaks="a volume descriptor is accepted when only one of the two magic strings is present",
  edits=[(C+"layout.rs", "self.magic0 == VOLUME_HEADER_MAGIC && self.magic1 == VOLUME_HEADER_MAGIC", "self.magic0 == VOLUME_HEADER_MAGIC || self.magic1 == VOLUME_HEADER_MAGIC")],
  demo_rs="""
fn main() {
    let mut m = Mem::default();
    m.data = vec![0; 32 * 2048];
    m.data.extend(volume(33, 0));
    assert!(xdvdfs::read::read_volume(&mut m).is_ok());
    for i in (0..20).chain(2028..2048) {
        let mut m = m.clone();
        m.data[32 * 2048 + i] ^= 1;
        assert!(xdvdfs::read::read_volume(&mut m).is_err(), "byte {i}");
    }
}
"""),
 dict(id="far-region", property="C10",
  needs="a file stored at 4 GiB or further into the image",
  breaks="the byte position of a region is computed in 32 bits, which overflows for regions at or beyond 4 GiB",
  edits=[(C+"layout.rs", "let offset = SECTOR_SIZE as u64 * self.sector as u64 + offset;", "let offset = SECTOR_SIZE.wrapping_mul(self.sector) as u64 + offset;")],
  demo_rs="""
use xdvdfs::layout::*;
struct Pos;
impl xdvdfs::blockdev::BlockDeviceRead for Pos {
    type ReadError = String;
    fn read(&mut self, offset: u64, buf: &mut [u8]) -> Result<(), String> {
        buf.copy_from_slice(&offset.to_le_bytes()[..buf.len()]);
        Ok(())
    }
}
fn main() {
    for s in [33u32, 1 << 20, 1 << 21, u32::MAX] {
        let d = DirectoryEntryDiskData { data: DiskRegion { sector: s, size: 8 }, attributes: DirentAttributes(0), filename_length: 1 };
        let b = d.read_data_all(&mut Pos).unwrap();
        assert_eq!(u64::from_le_bytes(b[..].try_into().unwrap()), s as u64 * 2048);
    }
}
"""),
 dict(id="spilled-padding", property="C03",
  needs="a directory with a record that would end exactly four bytes into the next sector",
  breaks="the last four bytes of a record are taken to be padding that may spill into the next sector, so such a record's name crosses the sector boundary",
  edits=[(C+"write/dirtab.rs", "let needed_sectors = required_sectors(offset + incr);", "let needed_sectors = required_sectors(offset + incr.saturating_sub(4));")],
  demo_rs="""
fn main() {
    for n in 1..=60 {
        let mut t = Tree::new();
        for i in 0..50 { t = t.file("/", &format!("{i:02}{}", "n".repeat(n)), bytes(i, 5)); }
        let mut m = pack(&t);
        let v = xdvdfs::read::read_volume(&mut m).unwrap();
        for e in v.root_table.walk_dirent_tree(&mut m).unwrap() {
            let end = e.offset + 14 + e.name_slice().len() as u64;
            assert_eq!(e.offset / 2048, (end - 1) / 2048, "record crosses a sector boundary");
        }
    }
}
"""),
 dict(id="offset-width", property="C04",
  needs="a child link of 0x4000 or more (a record beyond 64 KiB) met during path lookup",
  breaks="path lookup scales the child link in 16 bits, which overflows and crashes or looks at another record",
  edits=[(C+"read.rs", "offset = self.offset(4 * next_offset as u64)?;", "offset = self.offset((4 * next_offset) as u64)?;")],
  demo_rs="""
fn main() {
    let mut m = Mem::default();
    m.data = vec![0xff; 80 * 2048];
    m.data[32 * 2048..33 * 2048].copy_from_slice(&volume(33, 0x10000 + 2048));
    let a = record(0, 0x4000, 35, 5, 0x20, "a");
    m.data[33 * 2048..33 * 2048 + a.len()].copy_from_slice(&a);
    let b = record(0, 0, 36, 5, 0x20, "b");
    let at = 33 * 2048 + 0x10000;
    m.data[at..at + b.len()].copy_from_slice(&b);
    let v = xdvdfs::read::read_volume(&mut m).unwrap();
    let r = v.root_table.walk_path(&mut m, "/b").unwrap().node.dirent.data;
    assert!({ r.sector } == 36);
    assert!(v.root_table.walk_path(&mut m, "/c").is_err());
}
"""),
 dict(id="lower-order", property="C09",
  needs="names in one directory that differ in a character between 'Z' and 'a' (such as _) against a letter",
  breaks="directories are ordered by lower-cased names while the file system's order (and lookup) is by upper-cased names",
  edits=[(C+"layout.rs", "util::cmp_ignore_case_utf8(self.name_str(), other.name_str())", "self.name_str().to_ascii_lowercase().cmp(&other.name_str().to_ascii_lowercase())")],
  demo_rs="""
fn main() {
    let names = ["a_b", "abb", "aBc", "a[b", "aZ"];
    for k in 0..names.len() {
        let mut t = Tree::new();
        for i in 0..names.len() { t = t.file("/", names[(i + k) % names.len()], bytes(i as u8, 5)); }
        let mut m = pack(&t);
        assert_eq!(listing(&mut m), expected(&t));
        let v = xdvdfs::read::read_volume(&mut m).unwrap();
        for n in names { assert!(v.root_table.walk_path(&mut m, n).is_ok(), "{n} not found"); }
    }
}
"""),
]
