//! Block devices: exact or an error, and nothing else touched.
use crate::sym;
use std::io::{Read, Seek, SeekFrom};
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};
use xdvdfs::layout::*;

/// In-memory devices of n bytes. kind: 0 slice read, 1 slice write, 2 boxed write, 3 Cursor read.
pub fn h_mem(n: u64, kind: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let mut v = vec![0u8; n];
    sym::bytes(&mut v, "data");
    let before = v.clone();
    let off = sym::u64("offset");
    let len = sym::len("len", 0, n + 1);
    let fits = off <= n as u64 && len as u64 <= n as u64 - off;
    let mut buf = vec![0u8; len];
    let ok = match kind {
        0 => BlockDeviceRead::read(&mut v[..], off, &mut buf).is_ok(),
        3 => {
            let mut c = std::io::Cursor::new(v.clone());
            BlockDeviceRead::read(&mut c, off, &mut buf).is_ok()
        }
        1 => {
            sym::bytes(&mut buf, "new");
            BlockDeviceWrite::write(&mut v[..], off, &buf).is_ok()
        }
        _ => {
            sym::bytes(&mut buf, "new");
            let mut b = v.clone().into_boxed_slice();
            let l = BlockDeviceWrite::len(&mut b);
            sym::check(matches!(l, Ok(x) if x == n as u64), "device length is its size");
            let r = BlockDeviceWrite::write(&mut b, off, &buf).is_ok();
            v = b.into_vec();
            r
        }
    };
    if len > 0 {
        sym::check(ok == fits, "an access succeeds exactly when it lies inside the device");
    } else {
        // an empty access changes nothing; whether it may start at the very end is not fixed
        sym::check(!ok || kind == 3 || off <= n as u64, "an empty access outside the device fails");
    }
    sym::check(v.len() == n, "the device keeps its size");
    if !ok {
        sym::check(v == before, "a failed access changes nothing");
        sym::reach("refused");
        return;
    }
    if len == 0 {
        sym::reach("empty");
        return;
    }
    let o = sym::concretize(off) as usize;
    for i in 0..n {
        let inside = i >= o && i < o + len;
        if kind == 0 || kind == 3 {
            sym::check(v[i] == before[i], "reading does not change the device");
            if inside {
                sym::check(buf[i - o] == before[i], "the bytes read are the bytes at the offset");
            }
        } else if inside {
            sym::check(v[i] == buf[i - o], "the bytes written are stored at the offset");
        } else {
            sym::check(v[i] == before[i], "nothing outside the range is written");
        }
    }
    sym::reach("done");
}

const OFFS: [u64; 4] = [0, 405798912, 265879552, 34078720];

/// A disc with a volume descriptor at some of the known partition offsets.
struct Disc {
    has: [bool; 4],
    pos: u64,
    /// every read: position and length
    log: Vec<(u64, u64)>,
}
impl Read for Disc {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = <[u8]>::len(buf);
        self.log.push((self.pos, n as u64));
        for i in 0..4 {
            if self.pos == OFFS[i] + 32 * 2048 && n == 2048 && self.has[i] {
                let t = DirectoryEntryTable::new(2048, 33);
                let s = VolumeDescriptor::new(t).serialize().unwrap();
                buf.copy_from_slice(&s);
                self.pos += 2048;
                return Ok(2048);
            }
        }
        buf.fill(0x5a);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Disc {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p {
            SeekFrom::Start(x) => self.pos = x,
            SeekFrom::Current(x) => self.pos = self.pos.wrapping_add(x as u64),
            SeekFrom::End(_) => return Err(std::io::Error::from(std::io::ErrorKind::Unsupported)),
        }
        Ok(self.pos)
    }
}

/// Partition detection and address translation.
pub fn h_wrap(_a: u64, _b: u64, _c: u64, _d: u64) {
    let has = [sym::boolean("raw"), sym::boolean("xgd1"), sym::boolean("xgd2"), sym::boolean("xgd3")];
    let d = Disc { has, pos: 0, log: vec![] };
    let r = OffsetWrapper::new(d);
    let mut expect = None;
    for i in 0..4 {
        if expect.is_none() && has[i] {
            expect = Some(OFFS[i]);
        }
    }
    match (r, expect) {
        (Ok(mut w), Some(e)) => {
            sym::check(w.get_offset() == e, "the first valid partition in the documented order is used");
            // every later access is translated by the offset
            let o = sym::u32("o") as u64;
            w.get_mut().log.clear();
            let mut b = [0u8; 16];
            let r = BlockDeviceRead::read(&mut w, o, &mut b);
            sym::check(r.is_ok(), "read succeeds");
            let l = &w.get_ref().log;
            sym::check(l.len() == 1 && l[0].0 == o + e && l[0].1 == 16, "reads are translated to the partition");
            let p = sym::u32("p") as u64;
            let r = w.seek(SeekFrom::Start(p));
            sym::check(r.is_ok(), "seek succeeds");
            sym::check(w.get_ref().pos == p + e, "seeks are translated to the partition");
            let q = sym::u32("q") as i32 as i64;
            sym::assume(p as i64 + q >= 0);
            let _ = w.seek(SeekFrom::Current(q));
            sym::check(w.get_ref().pos == (p + e).wrapping_add(q as u64), "relative seeks move by the distance");
            sym::reach(if e == 0 { "raw image" } else { "game partition" });
        }
        (Err(e), None) => {
            sym::check(matches!(e, xdvdfs::util::Error::InvalidVolume), "no partition: not a volume");
            sym::reach("no partition");
        }
        (Ok(_), None) => sym::check(false, "a disc without any volume is refused"),
        (Err(_), Some(_)) => sym::check(false, "a disc with a volume at a known offset is accepted"),
    }
}

/// Wrapper around a device that can be written: writes are translated as well.
struct Rw {
    inner: crate::dev::Flat,
    writes: Vec<(u64, u64)>,
}
impl BlockDeviceRead for Rw {
    type ReadError = crate::dev::Fault;
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), crate::dev::Fault> {
        BlockDeviceRead::read(&mut self.inner, o, b)
    }
}
impl BlockDeviceWrite for Rw {
    type WriteError = crate::dev::Fault;
    fn write(&mut self, o: u64, b: &[u8]) -> Result<(), crate::dev::Fault> {
        self.writes.push((o, b.len() as u64));
        Ok(())
    }
    fn len(&mut self) -> Result<u64, crate::dev::Fault> {
        Ok(self.inner.base + self.inner.data.len() as u64)
    }
}
pub fn h_wrap_write(which: u64, _b: u64, _c: u64, _d: u64) {
    let e = OFFS[which as usize];
    let s = VolumeDescriptor::new(DirectoryEntryTable::new(2048, 33)).serialize().unwrap();
    let rw = Rw { inner: crate::dev::Flat::new(e + 32 * 2048, s), writes: vec![] };
    let w = OffsetWrapper::new(rw);
    sym::check(w.is_ok(), "a disc with a volume at a known offset is accepted");
    let Ok(mut w) = w else { return };
    sym::check(w.get_offset() == e, "offset found");
    let o = sym::u32("o") as u64;
    let r = BlockDeviceWrite::write(&mut w, o, &[1, 2, 3]);
    sym::check(r.is_ok(), "write succeeds");
    let l = &w.get_ref().writes;
    sym::check(l.len() == 1 && l[0].0 == o + e && l[0].1 == 3, "writes are translated to the partition");
    sym::reach("done");
}

/// Records what is read.
struct Log {
    log: Vec<(u64, u64)>,
    bad: bool,
    fail: bool,
}
impl BlockDeviceRead for Log {
    type ReadError = crate::dev::Fault;
    fn read(&mut self, o: u64, b: &mut [u8]) -> Result<(), crate::dev::Fault> {
        self.log.push((o, <[u8]>::len(b) as u64));
        if self.fail {
            return Err(crate::dev::Fault(20));
        }
        for (i, x) in b.iter_mut().enumerate() {
            *x = crate::dev::content(7, o + i as u64);
        }
        Ok(())
    }
}

fn region(maxsize: u32) -> DirectoryEntryDiskData {
    let sector = sym::u32("sector");
    let size = sym::u32("size");
    sym::assume(size <= maxsize);
    DirectoryEntryDiskData { data: DiskRegion { sector, size }, attributes: DirentAttributes(sym::u8("attr")), filename_length: sym::u8("nl") }
}

/// Reading a file's data. mode 0: all; 1: a range; 2: into a buffer.
pub fn h_data(mode: u64, maxsize: u64, _c: u64, _d: u64) {
    let d = region(maxsize as u32);
    let (sector, size) = (d.data.sector as u64, d.data.size as u64);
    let start = sector * 2048;
    let mut dev = Log { log: vec![], bad: false, fail: sym::boolean("fail") };
    let (want_off, want_len, got, ok): (u64, u64, Vec<u8>, bool) = match mode {
        0 => {
            let r = d.read_data_all(&mut dev);
            let ok = r.is_ok();
            (0, size, r.map(|b| b.into_vec()).unwrap_or_default(), ok)
        }
        1 => {
            let s = sym::u64("count");
            let o = sym::u64("offset");
            let avail = if o >= size { 0 } else { size - o };
            let n = if s < avail { s } else { avail };
            let r = d.read_data_offset(&mut dev, s, o);
            let ok = r.is_ok();
            if o > size {
                // outside the file: an error or nothing
                if let Ok(b) = &r {
                    sym::check(<[u8]>::len(b) == 0, "nothing is returned from beyond the end");
                }
                sym::check(dev.log.iter().all(|l| l.1 == 0), "nothing beyond the end is read");
                sym::reach("beyond");
                return;
            }
            (o, n, r.map(|b| b.into_vec()).unwrap_or_default(), ok)
        }
        _ => {
            let mut b = vec![0u8; sym::len("buf", 0, maxsize as usize)];
            sym::assume(b.len() as u64 <= size);
            let r = d.read_data(&mut dev, &mut b);
            let n = b.len() as u64;
            (0, n, b, r.is_ok())
        }
    };
    // whatever is read lies inside the file's region
    for (o, n) in &dev.log {
        if *n > 0 {
            sym::check(*o >= start && *o + *n <= start + size, "reads stay inside the file");
        }
    }
    if dev.fail && want_len > 0 {
        sym::check(!ok, "a device error is reported");
        sym::reach("error");
        return;
    }
    if want_len == 0 {
        // reading nothing at the end of a file is allowed to fail or to give nothing
        sym::check(!ok || got.is_empty() || mode == 2, "nothing to read");
        if size == 0 && mode != 1 {
            sym::check(ok, "an empty file can be read");
        }
        sym::reach("empty");
        return;
    }
    sym::check(ok, "data inside the file can be read");
    sym::check(got.len() as u64 == want_len, "as many bytes as asked for and present");
    let k = sym::u32("pos") as usize;
    sym::assume((k as u64) < want_len && k < got.len());
    let k = sym::concretize(k as u64) as usize;
    sym::check(got[k] == crate::dev::content(7, start + want_off + k as u64), "the bytes are those at the file's position");
    sym::reach("read");
    let _ = dev.bad;
}
