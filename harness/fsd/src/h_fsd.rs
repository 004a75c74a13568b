//! The file system daemon: the program mounts an image from the in-memory C library of vfs.rs, and a
//! driver that stands for the kernel asks for it.
#![allow(static_mut_refs)]
use crate::image::{self, Tree};
use crate::{h_cli, sym, vfs};
use fuser::{Answer, Entry, FileAttr, FileType, Filesystem, Request};
use std::os::unix::ffi::OsStrExt;

const ROOT: u64 = 1;

/// What the driver works on
struct World {
    t: Tree,
    args: [u64; 4],
    ran: bool,
}
static mut W: Option<World> = None;
fn world() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

// ---- requests of the kernel

fn one() -> Answer {
    let mut a = fuser::answers();
    sym::check(a.len() == 1, "a request has one answer");
    a.pop().unwrap()
}
fn lookup(fs: &mut dyn Filesystem, parent: u64, name: &[u8]) -> Answer {
    fs.lookup(&Request::of_kernel(), parent, std::ffi::OsStr::from_bytes(name), fuser::ReplyEntry::of_kernel());
    one()
}
fn getattr(fs: &mut dyn Filesystem, ino: u64) -> Answer {
    fs.getattr(&Request::of_kernel(), ino, None, fuser::ReplyAttr::of_kernel());
    one()
}
fn read(fs: &mut dyn Filesystem, ino: u64, offset: i64, size: u32) -> Answer {
    fs.read(&Request::of_kernel(), ino, 0, offset, size, 0, None, fuser::ReplyData::of_kernel());
    one()
}
fn readdir(fs: &mut dyn Filesystem, ino: u64, offset: i64, max: usize) -> Answer {
    fs.readdir(&Request::of_kernel(), ino, 0, offset, fuser::ReplyDirectory::of_kernel(max));
    one()
}

// ---- what the answers have to be

fn kind(dir: bool) -> FileType {
    if dir {
        FileType::Directory
    } else {
        FileType::RegularFile
    }
}

/// The name under which an entry shows: bytes above 0x7f stand for characters of Latin 1
fn shown(name: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for c in name {
        if *c < 0x80 {
            v.push(*c);
        } else {
            v.push(0xc0 | *c >> 6);
            v.push(0x80 | *c & 0x3f);
        }
    }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq = eq & (a[i].to_ascii_lowercase() == b[i].to_ascii_lowercase());
    }
    eq
}

fn check_attr(a: &FileAttr, i: usize) {
    let t = &world().t;
    sym::check(a.kind == kind(t.items[i].dir), "an entry has its kind");
    if !t.items[i].dir {
        sym::check(a.size == t.size(i), "a file has its size");
        sym::check(a.blocks * 512 >= a.size && a.blocks * 512 < a.size + 4096, "the blocks of 512 bytes are those of the size");
    }
    sym::check(a.uid == 1000 && a.gid == 1001, "entries belong to the user who asks");
    sym::check(a.perm & 0o222 == 0 && a.perm & 0o444 != 0, "entries can be read and not written");
}

/// looks entry i up in its directory
fn find(fs: &mut dyn Filesystem, i: usize) -> Result<u64, i32> {
    if i == 0 {
        return Ok(ROOT);
    }
    let (p, n) = (world().t.items[i].parent, shown(&world().t.items[i].name));
    let parent = find(fs, p)?;
    match lookup(fs, parent, &n) {
        Answer::Entry(a) => {
            check_attr(&a, i);
            sym::check(a.ino > ROOT, "an entry is not the root");
            Ok(a.ino)
        }
        Answer::Error(e) => Err(e),
        _ => {
            sym::check(false, "a lookup is answered with an entry");
            Err(0)
        }
    }
}
fn found(fs: &mut dyn Filesystem, i: usize) -> u64 {
    let r = find(fs, i);
    sym::check(r.is_ok(), "an entry is found under its name");
    r.unwrap_or(0)
}

/// The item of a directory with a name
fn item(d: usize, name: &[u8]) -> usize {
    let t = &world().t;
    for k in t.kids(d) {
        if shown(&t.items[k].name) == name {
            return k;
        }
    }
    0
}

fn dots(e: &Entry) -> bool {
    e.name == b"." || e.name == b".."
}

/// A whole directory, with buffers of at least `lo` bytes. None: an error.
fn list(fs: &mut dyn Filesystem, ino: u64, lo: usize, symbolic: bool, one: bool) -> Option<Vec<Entry>> {
    let mut v: Vec<Entry> = vec![];
    let (mut at, mut first) = (0, lo);
    let total = world().t.items.len() + 2;
    for _ in 0..total + 1 {
        let max = if one && v.len() != 0 {
            first
        } else if symbolic {
            sym::u16("buffer") as usize
        } else {
            lo
        };
        first = max;
        sym::assume(max >= lo && max <= 4096);
        match readdir(fs, ino, at, max) {
            Answer::Dir(l) => {
                if l.is_empty() {
                    return Some(v);
                }
                at = l[l.len() - 1].next;
                v.extend(l);
                sym::check(v.len() <= total, "a directory lists no more than its entries");
            }
            Answer::Error(_) => return None,
            _ => sym::check(false, "readdir is answered with entries"),
        }
    }
    sym::check(false, "a listing comes to its end");
    None
}

fn check_list(d: usize, l: &[Entry]) {
    let t = &world().t;
    let mut seen = vec![];
    for e in l {
        if dots(e) {
            sym::check(e.kind == FileType::Directory, "a directory and its parent are directories");
            continue;
        }
        let k = item(d, &e.name);
        sym::check(k != 0, "only the entries of a directory are listed");
        sym::check(!seen.contains(&k), "no entry is listed twice");
        seen.push(k);
        sym::check(e.kind == kind(t.items[k].dir), "a listed entry has its kind");
    }
    sym::check(seen.len() == t.kids(d).len(), "every entry is listed");
}

// ---- images

/// 0: files, directories, an empty directory, a directory two deep, entries of the same name.
/// 1: a directory over several sectors. 2: as many entries in a subdirectory. 3: an empty root.
fn tree(shape: u64) -> Tree {
    let mut t = Tree::new();
    match shape {
        0 => {
            t.file(0, "B.x", image::pattern(1, 2100));
            let d = t.dir(0, "D");
            let e = t.dir(0, "e");
            t.add(0, b"\xe9t\xe9", false, image::pattern(2, 5));
            t.file(d, "B.x", image::pattern(3, 2100));
            let n = t.dir(d, "e");
            let f = t.dir(d, "f");
            t.file(n, "z", vec![]);
            let _ = (e, f);
        }
        1 | 2 => {
            let d = if shape == 2 {
                t.file(0, "a", image::pattern(9, 20));
                t.dir(0, "sub")
            } else {
                0
            };
            for i in 0..30 {
                let mut n = format!("name of entry {:02} ", i);
                while n.len() < 60 + i {
                    n.push('x');
                }
                if i % 7 == 3 {
                    t.dir(d, &n);
                } else {
                    t.file(d, &n, image::pattern(i as u8, i));
                }
            }
        }
        _ => {}
    }
    t
}

fn prepare(t: Tree, args: [u64; 4], driver: fuser::Driver) -> usize {
    let w = h_cli::setup();
    let img = image::build(&t, false);
    vfs::fs().file(w, "in.iso", img);
    vfs::fs().dir(w, "mnt");
    unsafe {
        W = Some(World { t, args, ran: false });
        fuser::DRIVER = Some(driver);
    }
    w
}

/// The volume begins at a later offset of the image.
fn moved(w: usize, partition: u64) {
    let n = vfs::fs().child(w, b"in.iso").unwrap();
    vfs::fs().nodes[n].pad = [0, 405798912, 265879552, 34078720][partition as usize];
}

fn mounted(args: &[&str]) {
    let r = h_cli::exec(args);
    sym::check(r.is_ok(), "mounting an image works");
    sym::check(world().ran, "the image is mounted");
}

const PLAIN: &[&str] = &["xdvdfsd", "-o", "nofork", "in.iso", "mnt"];

// ---- entries

/// Any name of up to n bytes, in any directory. (shape, n)
pub fn h_lookup(shape: u64, n: u64, partition: u64, _: u64) {
    let w = prepare(tree(shape), [shape, n, 0, 0], drive_lookup);
    moved(w, partition);
    mounted(PLAIN);
}
fn drive_lookup(fs: &mut dyn Filesystem) {
    world().ran = true;
    let n = sym::len("length", 1, world().args[1] as usize);
    let mut name = vec![0u8; n];
    sym::bytes(&mut name, "name");
    for c in &name {
        sym::assume(*c != 0 && *c != b'/');
    }
    sym::assume(name != b"." && name != b"..");
    let d = sym::len("directory", 0, world().t.items.len() - 1);
    let dir = found(fs, d);
    let a = lookup(fs, dir, &name);
    if !world().t.items[d].dir {
        sym::check(matches!(a, Answer::Error(_)), "a file has no entries");
        return;
    }
    let mut want = 0;
    for k in world().t.kids(d) {
        if same(&shown(&world().t.items[k].name), &name) {
            want = k;
        }
    }
    match a {
        Answer::Entry(e) => {
            sym::check(want != 0, "no entry is found under a name that no entry has");
            check_attr(&e, want);
            let again = found(fs, want);
            sym::check(again == e.ino, "an entry has one number");
            match getattr(fs, e.ino) {
                Answer::Attr(b) => sym::check(b == e, "getattr agrees with lookup"),
                _ => sym::check(false, "an entry that was found has attributes"),
            }
            sym::reach("found");
        }
        Answer::Error(e) => {
            sym::check(want == 0, "an entry is found under its name in any case");
            sym::check(e == libc::ENOENT || core::str::from_utf8(&name).is_err(), "an absent name does not exist");
            sym::reach("absent");
        }
        _ => sym::check(false, "a lookup is answered with an entry"),
    }
}

/// A directory is listed, with any buffer sizes. (shape, directory, smallest buffer, flags: 1 its entries
/// are looked up before, 2 all buffers are of one size, 4 nothing is listed again)
pub fn h_readdir(shape: u64, d: u64, lo: u64, look_first: u64) {
    prepare(tree(shape), [d, lo, look_first, 0], drive_readdir);
    mounted(PLAIN);
}
fn drive_readdir(fs: &mut dyn Filesystem) {
    world().ran = true;
    let d = world().args[0] as usize;
    let lo = world().args[1] as usize;
    let dir = found(fs, d);
    let mut first = vec![];
    if world().args[2] & 1 != 0 {
        for k in world().t.kids(d) {
            first.push((k, found(fs, k)));
        }
    }
    let Some(l) = list(fs, dir, lo, true, world().args[2] & 2 != 0) else {
        sym::check(false, "a directory can be listed");
        return;
    };
    check_list(d, &l);
    if l.len() > 2 {
        sym::reach("entries");
    }
    // numbers
    let mut inos = vec![ROOT];
    for e in &l {
        if dots(e) {
            continue;
        }
        sym::check(!inos.contains(&e.ino), "entries have different numbers");
        inos.push(e.ino);
        let k = item(d, &e.name);
        for (f, ino) in &first {
            sym::check(*f != k || *ino == e.ino, "readdir gives an entry the number that lookup gave it");
        }
        let ino = found(fs, k);
        sym::check(ino == e.ino, "lookup gives an entry the number that readdir gave it");
        match getattr(fs, e.ino) {
            Answer::Attr(a) => check_attr(&a, k),
            _ => sym::check(false, "a listed entry has attributes"),
        }
    }
    if world().args[2] & 4 != 0 {
        return;
    }
    // from any place of the listing
    let at = sym::len("from", 0, l.len() - 1);
    match readdir(fs, dir, l[at].next, 65536) {
        Answer::Dir(m) => sym::check(m[..] == l[at + 1..], "a listing goes on where it was left"),
        _ => sym::check(false, "a listing can be continued"),
    }
}

/// Reads of a file of a given size at any offset. (size, largest size that is asked for or 1 << 32 | size)
pub fn h_read(size: u64, ask: u64, short: u64, _: u64) {
    let mut t = Tree::new();
    t.file(0, "a", image::pattern(4, 10));
    let d = t.dir(0, "d");
    let f = t.file(d, "f", vec![]);
    t.items[f].big = Some(size as u32);
    let w = prepare(t, [f as u64, ask, short, 0], drive_read);
    let img = vfs::fs().child(w, "in.iso".as_bytes()).unwrap();
    let base = vfs::fs().nodes[img].data.len() as u64;
    unsafe { BASE = base };
    // the file is there in whole, with more behind it, or in part
    let there = if short != 0 { sym::len("there", 0, 40) as u64 * short } else { size + 16384 };
    vfs::fs().nodes[img].tail = there;
    world().args[3] = there;
    mounted(PLAIN);
}
static mut BASE: u64 = 0;
/// A read gives what there is, or fails where the image ends.
fn check_read(fs: &mut dyn Filesystem, ino: u64, offset: u64, n: u32, first: bool) {
    let size = world().t.size(world().args[0] as usize);
    let there = world().args[3];
    let left = if offset < size { size - offset } else { 0 };
    let want = left.min(n as u64);
    match read(fs, ino, offset as i64, n) {
        Answer::Data(v) => {
            sym::check(v.len() as u64 == want, "a read gives what it is asked for, up to the end of the file");
            sym::check(v.is_empty() || offset + v.len() as u64 <= there, "nothing is read that is not there");
            let mut ok = true;
            let mut i = 0;
            let len = sym::concretize(v.len() as u64) as usize;
            while i < len {
                let p = unsafe { BASE }.wrapping_add(offset).wrapping_add(i as u64);
                ok = ok & (v[i] == vfs::tail_byte(p));
                i += if len > 16 && i > 4 && i + 4 < len { 97.min(len - 4 - i) } else { 1 };
            }
            sym::check(ok, "a read gives the bytes of the file");
            if first { sym::reach(if v.is_empty() { "end" } else { "data" }) }
        }
        Answer::Error(_) => {
            sym::check(want != 0 && offset + want > there, "a read of data that is there succeeds");
            if first { sym::reach("cut") }
        }
        _ => sym::check(false, "a read is answered with data"),
    }
}
fn drive_read(fs: &mut dyn Filesystem) {
    world().ran = true;
    let f = world().args[0] as usize;
    let size = world().t.size(f);
    let ask = world().args[1];
    let there = world().args[3];
    let offset = sym::u64("offset");
    sym::assume(offset < 1 << 63);
    if world().args[2] != 0 {
        // near the end of what is there
        sym::assume(offset == 0 || (offset + 3 >= there && offset <= there + 3));
    }
    let left = if offset < size { size - offset } else { 0 };
    let n = if ask >> 32 != 0 {
        let n = ask as u32;
        // a short rest splits
        sym::assume(left >= n as u64 || left <= 2);
        n
    } else {
        sym::len("size", 0, ask as usize) as u32
    };
    let ino = found(fs, f);
    check_read(fs, ino, offset, n, true);
    if world().args[2] == 0 && ask < 16 {
        // another read, of the same file or after one of the other
        if sym::boolean("other") {
            let a = found(fs, 1);
            match read(fs, a, 2, 5) {
                Answer::Data(v) => sym::check(v[..] == world().t.items[1].data[2..7], "a read gives the bytes of the file"),
                _ => sym::check(false, "a file can be read"),
            }
        }
        let offset = sym::u64("offset2");
        sym::assume(offset < 1 << 63);
        check_read(fs, ino, offset, sym::len("size2", 1, ask as usize) as u32, false);
    }
    match read(fs, ino, -1 - (offset as i64), n) {
        Answer::Error(_) => {}
        _ => sym::check(false, "nothing is before the beginning of a file"),
    }
    match read(fs, ino + 1000, 0, n) {
        Answer::Error(_) => {}
        _ => sym::check(false, "a number that was not given out is no file"),
    }
}

/// The whole tree as a program would see it; None where something fails
fn everything(fs: &mut dyn Filesystem, strict: bool) {
    let n = world().t.items.len();
    let mut inos = vec![];
    for i in 0..n {
        let ino = match find(fs, i) {
            Ok(ino) => ino,
            Err(e) => {
                sym::check(!strict, "an entry is found under its name");
                sym::check(e != libc::ENOENT, "an entry that cannot be read is not absent");
                continue;
            }
        };
        sym::check(!inos.contains(&ino), "entries have different numbers");
        inos.push(ino);
        match getattr(fs, ino) {
            Answer::Attr(a) => {
                if i != 0 {
                    check_attr(&a, i)
                }
            }
            _ => sym::check(!strict, "an entry has attributes"),
        }
        if world().t.items[i].dir {
            match list(fs, ino, 4096, false, false) {
                Some(l) => check_list(i, &l),
                None => sym::check(!strict, "a directory can be listed"),
            }
            match lookup(fs, ino, b"absent") {
                Answer::Error(e) => sym::check(!strict || e == libc::ENOENT, "an absent name does not exist"),
                _ => sym::check(false, "no entry is found under a name that no entry has"),
            }
        } else {
            let want = world().t.items[i].data.clone();
            match read(fs, ino, 0, want.len() as u32 + 7) {
                Answer::Data(v) => sym::check(v == want, "a read gives the bytes of the file"),
                _ => sym::check(!strict, "a file can be read"),
            }
            if want.len() > 2 {
                match read(fs, ino, 1, want.len() as u32 - 2) {
                    Answer::Data(v) => sym::check(v[..] == want[1..want.len() - 1], "a read gives the bytes of the file"),
                    _ => sym::check(!strict, "a file can be read"),
                }
            }
        }
    }
}

/// The image is cut short or its device fails once; nothing wrong is shown, and after a failure
/// everything is as before. (shape, last operation, partition offset)
pub fn h_fault(shape: u64, hi: u64, partition: u64, _: u64) {
    let w = prepare(tree(shape), [hi, 0, 0, 0], drive_fault);
    moved(w, partition);
    mounted(PLAIN);
}
fn drive_fault(fs: &mut dyn Filesystem) {
    world().ran = true;
    let f = vfs::fs();
    f.faulted = false;
    f.ops = 0;
    f.fault = sym::len("fault", 0, world().args[0] as usize) as u64;
    let none = f.fault == 0;
    everything(fs, none);
    if f.faulted {
        sym::reach("failed");
    }
    f.fault = 0;
    everything(fs, true);
}
pub fn h_cut(shape: u64, step: u64, _: u64, _: u64) {
    let w = prepare(tree(shape), [0, 0, 0, 0], drive_cut);
    let img = vfs::fs().child(w, b"in.iso").unwrap();
    let n = vfs::fs().nodes[img].data.len();
    let first = 33 * 2048;
    let k = sym::u16("end") as usize;
    sym::assume(k <= (n - first) / step as usize);
    let k = sym::concretize(k as u64) as usize;
    vfs::fs().nodes[img].data.truncate(first + k * step as usize);
    mounted(PLAIN);
    sym::reach("shown");
}
fn drive_cut(fs: &mut dyn Filesystem) {
    world().ran = true;
    everything(fs, false);
}

/// A mounted image of which the record of an item (0: the root's place in the volume) has arbitrary bytes where `mask`
/// says so: every request is answered, and a listing ends. Links, sectors and lengths of names: bytes below 48 and above
/// 253.
pub fn h_damaged(shape: u64, at: u64, mask: u64, _: u64) {
    let t = tree(shape);
    let w = prepare(tree(shape), [0; 4], drive_damaged);
    let img = vfs::fs().child(w, b"in.iso").unwrap();
    let data = &mut vfs::fs().nodes[img].data;
    let (base, n) = if at == 0 {
        (32 * 2048 + 20, 8)
    } else {
        let (b, o) = image::record(data, &t, at as usize);
        (b + o, 15)
    };
    for k in 0..n {
        if mask >> k & 1 != 0 {
            let b = sym::u8("byte");
            let few = if at == 0 { k < 4 } else { k < 8 || k == 13 };
            sym::assume(!few | (b < 48) | (b >= 0xfe));
            data[base + k] = sym::concretize(b as u64) as u8;
        }
    }
    let r = h_cli::exec(PLAIN);
    sym::check(r.is_err() || world().ran, "the image is mounted when the program says so");
    sym::check(vfs::fs().log.is_empty(), "nothing is written");
}
fn drive_damaged(fs: &mut dyn Filesystem) {
    world().ran = true;
    let mut work = vec![(ROOT, 0)];
    let mut left = 40;
    while let Some((ino, depth)) = work.pop() {
        let mut at = 0;
        let mut ended = false;
        let mut all: Vec<Entry> = vec![];
        for _ in 0..200 {
            match readdir(fs, ino, at, 4096) {
                Answer::Dir(l) => {
                    if l.is_empty() {
                        ended = true;
                        break;
                    }
                    at = l[l.len() - 1].next;
                    all.extend(l);
                }
                Answer::Error(_) => {
                    sym::reach("error");
                    ended = true;
                    break;
                }
                _ => sym::check(false, "readdir is answered with entries"),
            }
        }
        sym::check(ended, "a listing comes to its end");
        for e in all {
            if dots(&e) || left == 0 {
                continue;
            }
            left -= 1;
            let a = match lookup(fs, ino, &e.name) {
                Answer::Entry(a) => a,
                Answer::Error(_) => continue,
                _ => {
                    sym::check(false, "a lookup is answered with an entry");
                    return;
                }
            };
            sym::check(matches!(getattr(fs, a.ino), Answer::Attr(_) | Answer::Error(_)), "an entry has attributes");
            if a.kind == FileType::Directory {
                if depth < 3 {
                    work.push((a.ino, depth + 1));
                }
            } else {
                for at in [0, 1, 4096] {
                    match read(fs, a.ino, at, 100) {
                        Answer::Data(v) => sym::check(v.len() <= 100 && (v.is_empty() || at as u64 + v.len() as u64 <= a.size), "a read gives no more than the file has"),
                        Answer::Error(_) => {}
                        _ => sym::check(false, "a read is answered with data"),
                    }
                }
            }
        }
    }
    sym::reach("shown");
}

/// Nothing can be opened for writing.
pub fn h_open(_: u64, _: u64, _: u64, _: u64) {
    prepare(tree(0), [0; 4], drive_open);
    mounted(PLAIN);
}
fn drive_open(fs: &mut dyn Filesystem) {
    world().ran = true;
    let flags = sym::u32("flags") as i32;
    let file = found(fs, 1);
    let dir = found(fs, 2);
    let writes = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    let q = Request::of_kernel();
    fs.open(&q, file, flags, fuser::ReplyOpen::of_kernel());
    let a = one();
    fs.opendir(&q, dir, flags, fuser::ReplyOpen::of_kernel());
    let b = one();
    for a in [a, b] {
        match a {
            Answer::Opened(_) => sym::check(!writes, "nothing is opened for writing"),
            Answer::Error(_) => sym::check(writes, "entries can be opened"),
            _ => sym::check(false, "open is answered"),
        }
    }
    sym::reach(if writes { "refused" } else { "opened" });
    fs.access(&q, file, libc::R_OK, fuser::ReplyEmpty::of_kernel());
    sym::check(matches!(one(), Answer::Empty), "a file can be accessed");
    // every request that changes something
    let o = std::ffi::OsStr::from_bytes(b"n");
    fs.write(&q, file, 0, 0, b"x", 0, 0, None, fuser::ReplyWrite::of_kernel());
    let mut all = fuser::answers();
    fs.mkdir(&q, 1, o, 0o755, 0, fuser::ReplyEntry::of_kernel());
    fs.mknod(&q, 1, o, 0o644, 0, 0, fuser::ReplyEntry::of_kernel());
    fs.create(&q, 1, o, 0o644, 0, 0, fuser::ReplyCreate::of_kernel());
    fs.unlink(&q, 1, o, fuser::ReplyEmpty::of_kernel());
    fs.rmdir(&q, 1, o, fuser::ReplyEmpty::of_kernel());
    fs.rename(&q, 1, o, 1, o, 0, fuser::ReplyEmpty::of_kernel());
    fs.link(&q, file, 1, o, fuser::ReplyEntry::of_kernel());
    fs.setattr(&q, file, None, None, None, Some(0), None, None, None, None, None, None, None, None, fuser::ReplyAttr::of_kernel());
    all.extend(fuser::answers());
    sym::check(all.len() == 9, "a request has one answer");
    for a in all {
        sym::check(matches!(a, Answer::Error(_)), "nothing can be changed");
    }
}

// ---- the program

static mut CHILD: bool = false;
static mut FORKED: bool = false;
static mut PIPE: usize = 0;
static mut SENT: Vec<u8> = Vec::new();
/// The parent runs after the child: what the child has sent is there, then the end.
#[no_mangle]
pub unsafe extern "C" fn fork() -> i32 {
    FORKED = true;
    if CHILD {
        0
    } else {
        77
    }
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut i32) -> i32 {
    let f = vfs::fs();
    let n = f.add(0, "", vfs::Kind::Other, if CHILD { vec![] } else { SENT.clone() });
    PIPE = n;
    *fds = f.open_node(n, true, false);
    *fds.add(1) = f.open_node(n, false, true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut i32, _flags: i32) -> i32 {
    pipe(fds)
}
fn drive_nothing(_: &mut dyn Filesystem) {
    world().ran = true;
}

/// A mount fails or works, and the program says so. (forks)
pub fn h_mount(forks: u64, _: u64, _: u64, _: u64) {
    let case = sym::len("case", 0, 8);
    let w = prepare(tree(0), [0; 4], drive_nothing);
    let f = vfs::fs();
    let mut src = "in.iso";
    let mut mnt = "mnt";
    let mut bad = true;
    unsafe {
        fuser::MOUNTED = None;
        fuser::REFUSE = false;
        FORKED = false;
        SENT.clear();
        PIPE = 0;
    }
    match case {
        0 => bad = false,
        1 => mnt = "absent",
        2 => mnt = "keep",
        3 => src = "absent",
        4 => src = "keep",
        5 => unsafe { fuser::REFUSE = true },
        6 => f.fault = sym::len("fault", 1, 40) as u64,
        7 => {
            let n = f.child(w, b"in.iso").unwrap();
            f.nodes[n].data.truncate(33 * 2048 - 1 - sym::len("end", 0, 30));
        }
        _ => {
            f.add(w, "link", vfs::Kind::Link, b"in.iso".to_vec());
            src = "link";
            bad = false;
        }
    }
    let args: Vec<&str> = if forks == 1 { vec!["xdvdfsd", src, mnt] } else { vec!["xdvdfsd", "-o", "nofork", src, mnt] };
    unsafe { CHILD = true };
    let mut r = h_cli::exec(&args);
    let ran = world().ran;
    let faulted = f.faulted;
    unsafe {
        if forks == 1 && FORKED {
            SENT = if PIPE != 0 { f.nodes[PIPE].data.clone() } else { vec![] };
            CHILD = false;
            f.fault = 0;
            world().ran = false;
            r = h_cli::exec(&args);
            sym::check(!f.stuck, "the parent does not wait for what cannot happen");
            sym::check(!world().ran, "the parent does not serve");
        }
    }
    if r.is_ok() {
        sym::check(ran, "a program that ends well has mounted the image");
        sym::reach("mounted");
        sym::check(!bad || faulted || case == 6, "only an image is mounted");
        unsafe {
            let (p, _) = fuser::MOUNTED.as_ref().unwrap();
            sym::check(p == std::path::Path::new("mnt") || p == std::path::Path::new("/w/mnt"), "the image is mounted where it was asked for");
        }
    } else {
        sym::reach("refused");
        sym::check(bad && (faulted || case != 6), "an image can be mounted");
    }
}

/// Mount options are passed on, and others refused. (number of options)
pub fn h_options(n: u64, _: u64, _: u64, _: u64) {
    use fuser::MountOption::*;
    let all = [
        ("auto_unmount", AutoUnmount),
        ("allow_other", AllowOther),
        ("allow_root", AllowRoot),
        ("default_permissions", DefaultPermissions),
        ("suid", Suid),
        ("nosuid", NoSuid),
        ("ro", RO),
        ("rw", RW),
        ("exec", Exec),
        ("noexec", NoExec),
        ("dev", Dev),
        ("nodev", NoDev),
        ("fsname=a=b", FSName("a=b".into())),
        ("subtype=q", Subtype("q".into())),
        ("nofork", Sync),
        ("bogus", Sync),
    ];
    prepare(tree(3), [0; 4], drive_nothing);
    unsafe { fuser::MOUNTED = None };
    let mut want = vec![];
    let mut text = String::from("nofork");
    let mut bad = false;
    for _ in 0..n {
        let k = sym::len("option", 0, all.len() - 1);
        text.push(',');
        text.push_str(all[k].0);
        if k == 15 {
            bad = true;
        } else if k != 14 {
            want.push(all[k].1.clone());
        }
    }
    let first = ["ro", "rw", "suid", "nosuid", "exec", "noexec", "dev", "nodev", "allow_other", "allow_root"];
    let mut conflict = false;
    for p in first.chunks(2) {
        let has = |s: &str| text.split(',').any(|o| o == s);
        conflict |= has(p[0]) && has(p[1]);
    }
    let r = h_cli::exec(&["xdvdfsd", "in.iso", "mnt", "-o", &text]);
    sym::check(r.is_ok() == !(bad || conflict), "known options that do not conflict are accepted, others not");
    if r.is_ok() {
        let got = unsafe { fuser::MOUNTED.take().unwrap().1 };
        for o in &want {
            sym::check(got.contains(o), "an option is passed on");
        }
        for o in &got {
            sym::check(want.contains(o) || matches!(o, FSName(_) | Subtype(_)), "no other option is passed on");
        }
        let names = got.iter().filter(|o| matches!(o, FSName(_))).count();
        let types = got.iter().filter(|o| matches!(o, Subtype(_))).count();
        sym::check(names == want.iter().filter(|o| matches!(o, FSName(_))).count().max(1), "the file system has its name");
        sym::check(types == want.iter().filter(|o| matches!(o, Subtype(_))).count().max(1), "the file system has its type");
        sym::reach("mounted");
    } else {
        sym::reach("refused");
    }
}
