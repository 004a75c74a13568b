//! C20: pack, build-image and compress.
use crate::h_cli::*;
use crate::image::*;
use crate::sym;
use crate::vfs::{fs, Kind};

const FAULT: u64 = 1; // an operation fails
const SHORT: u64 = 2; // short reads and writes
const KERNEL: u64 = 4; // copy_file_range works
const EXISTING: u64 = 8; // the target exists, longer than the image
const SHRUNK: u64 = 16; // a file has become shorter since it was listed
const ISO: u64 = 32; // the source is an image
const PARTITION: u64 = 64; // ... a game partition
const GROWN: u64 = 128; // files have become longer since they were listed
const WIDE: u64 = 512; // a name begins with a character of three bytes

/// puts the tree below node d
pub fn plant(t: &Tree, i: usize, d: usize) {
    let f = fs();
    for k in t.kids(i) {
        let it = &t.items[k];
        f.nodes.push(crate::vfs::Node {
            parent: d,
            name: it.name.clone(),
            kind: if it.dir { Kind::Dir } else { Kind::File },
            data: it.data.clone(),
            pad: 0,
            tail: 0,
            lost: 0,
            live: true,
            new: false,
        });
        let n = f.nodes.len() - 1;
        if it.dir {
            plant(t, k, n);
        }
    }
}

/// the tree of item i is still there, unchanged
pub fn kept(t: &Tree, i: usize, d: usize) {
    let f = fs();
    for k in t.kids(i) {
        let it = &t.items[k];
        let c = f.child(d, &it.name);
        sym::check(c.is_some(), "the source is kept");
        let Some(c) = c else { return };
        if it.dir {
            kept(t, k, c);
        } else {
            sym::check(f.nodes[c].data == it.data, "the source is unchanged");
        }
    }
}

pub fn trees(shape: u64) -> Tree {
    let mut t = Tree::new();
    match shape {
        0 => {}
        1 => {
            t.file(0, "a", data(1, 10));
            t.file(0, "empty", vec![]);
            t.file(0, "long", data(2, 2048 + 5));
        }
        2 => {
            let d = t.dir(0, "d");
            t.dir(d, "sub");
            t.file(d, "f", data(1, 2048));
            t.file(0, "z", data(2, 1));
        }
        3 => {
            let d = t.dir(0, "a");
            let e = t.dir(d, "a");
            t.file(e, "x", data(1, 3));
            t.file(d, "b", data(2, 100));
            t.file(0, "b", data(3, 4096));
        }
        // ends exactly at a multiple of 32 sectors
        _ => {
            t.file(0, "big", data(1, (64 - 34) * 2048));
        }
    }
    t
}

fn modes(mode: u64) {
    let f = fs();
    if mode & SHORT != 0 {
        f.short_read = 3000;
        f.short_write = 900;
    }
    f.kernel_copy = mode & KERNEL != 0;
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
}

/// Only the file named `name` in directory `d` may change.
fn only(d: usize, name: &[u8]) {
    let f = fs();
    for (_, n) in &f.log {
        sym::check(f.nodes[*n].parent == d && f.nodes[*n].name == name, "nothing but the output is written");
    }
}

/// cmd 0: pack; 1: pack without a target; 2: build-image; 3: build-image with a specification
pub fn h_pack(cmd: u64, shape: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let t = trees(shape);
    let dir = if mode & ISO == 0 {
        let s = f.dir(w, "src");
        plant(&t, 0, s);
        Some(s)
    } else {
        let s = f.dir(w, "o");
        let i = f.file(s, "src.img", build(&t, false));
        if mode & PARTITION != 0 {
            f.nodes[i].pad = 34078720;
        }
        None
    };
    let src = if mode & ISO == 0 { "src" } else { "o/src.img" };
    let mut out: &[u8] = b"out.iso";
    let args: Vec<&str> = match cmd {
        0 => vec!["pack", src, "out.iso"],
        1 => {
            out = b"src.iso";
            vec!["pack", src]
        }
        2 => vec!["build-image", "-m", "**:/{1}", src, "out.iso"],
        3 => {
            f.file(w, "spec", b"[metadata]\noutput = \"../out.iso\"\n\n[map_rules]\n\"**\" = \"/{1}\"\n".to_vec());
            vec!["build-image", "-f", "spec", src]
        }
        _ => {
            vec!["build-image", "-m", "**:/{1}", "-O", "../out.iso", src]
        }
    };
    if mode & EXISTING != 0 {
        f.file(w, core::str::from_utf8(out).unwrap(), pattern(7, 200 * 2048));
    }
    let mut short = false;
    if mode & SHRUNK != 0 {
        for n in f.nodes.iter_mut() {
            if n.kind == Kind::File && n.data.len() > 1000 && n.name != out {
                n.lost = 1 + sym::u8("lost") as u64;
                short = true;
            }
        }
    }
    if mode & GROWN != 0 {
        for n in f.nodes.iter_mut() {
            if n.kind == Kind::File && n.name != out && n.name != b"spec" {
                n.data.extend_from_slice(&[0xee; 3000]);
                n.lost = 3000u64.wrapping_neg();
            }
        }
    }
    modes(mode);
    let r = run(&args);
    if mode & GROWN != 0 {
        for n in f.nodes.iter_mut() {
            if n.lost != 0 {
                let z = n.data.len() - 3000;
                n.data.truncate(z);
            }
        }
    }
    only(w, out);
    if let Some(s) = dir {
        kept(&t, 0, s);
    }
    if r.is_ok() {
        let o = f.child(w, out);
        sym::check(o.is_some(), "the image is created");
        let Some(o) = o else { return };
        sym::check(matches(&f.nodes[o].data, &t), "the image is complete when the command succeeds");
        let end = f.nodes[o].data.len();
        sym::check(end < span(&f.nodes[o].data) + 32 * 2048, "nothing follows the image");
        sym::check(!short, "a file that lost data is reported");
        sym::check(f.open_files() == 0, "every file is closed");
        sym::reach("packed");
    } else {
        sym::check(f.faulted || short, "a readable source is packed");
        sym::reach("failed");
    }
}

/// A target spelled with any `n` characters of "./slon", for the source `s` (a directory, or an
/// image with ISO). In the working directory: s, l -> s, o/ with n, l -> ../s/n.
/// cmd 0: pack, 1: compress, 2: extract-xiso -c, 3: build-image
pub fn h_guard(cmd: u64, spelling: u64, n: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let mut t = Tree::new();
    t.file(0, "n", b"1234".to_vec());
    t.dir(0, "o");
    let src = if mode & ISO == 0 {
        let s = f.dir(w, "s");
        plant(&t, 0, s);
        s
    } else {
        f.file(w, "s", build(&t, false))
    };
    f.add(w, "l", Kind::Link, b"s".to_vec());
    let o = f.dir(w, "o");
    f.file(o, "n", b"there".to_vec());
    f.add(o, "l", Kind::Link, if mode & ISO == 0 { b"../s/n".to_vec() } else { b"../s".to_vec() });
    let count = f.nodes.len();
    let from = match spelling {
        0 => "s",
        1 => "./s",
        2 => "/w/s",
        3 => "l",
        4 => "o/../s",
        _ => "../w/./l",
    };
    let mut to = vec![];
    for i in 0..n {
        let c = sym::u8("to");
        sym::assume((c == b'.') | (c == b'/') | (c == b's') | (c == b'l') | (c == b'o') | (c == b'n'));
        let _ = i;
        to.push(c);
    }
    // what it means
    let hit = match f.walk(&to, true, 0) {
        Ok((d, _, x)) => (f.within(d, src), x),
        Err(_) => (false, None),
    };
    let inside = hit.0 || hit.1.is_some_and(|x| f.within(x, src));
    let name = core::str::from_utf8(&to).unwrap_or("n");
    let r = match cmd {
        0 => run(&["pack", from, name]),
        1 => run(&["compress", from, name]),
        2 => exiso(&["-c", from, name]),
        _ => run(&["build-image", "-m", "**:/{1}", from, name]),
    };
    let _ = r;
    // the source is as it was
    if mode & ISO == 0 {
        kept(&t, 0, src);
    } else {
        sym::check(f.nodes[src].data == build(&t, false), "the source image is unchanged");
    }
    for k in count..f.nodes.len() {
        sym::check(!f.within(k, src), "nothing is created in the source");
    }
    if inside {
        sym::check(r.is_err() && f.log.is_empty(), "a target in the source is refused before anything is touched");
        sym::reach("refused");
    } else if r.is_ok() {
        sym::reach("packed");
    }
}

/// The compressor branches on every byte, so no symbolic data here
fn concrete(shape: u64) -> Tree {
    let mut t = trees(shape);
    for (i, it) in t.items.iter_mut().enumerate() {
        if !it.dir && !it.data.is_empty() {
            // one half that can be compressed, one that can not
            let n = it.data.len();
            it.data = pattern(i as u8, n);
            for b in &mut it.data[n / 2..] {
                *b = 7;
            }
        }
    }
    t
}

/// Compress; the result is read back with the block device the other commands use. cmd 0: with a
/// target, 1: without
pub fn h_compress(cmd: u64, shape: u64, mode: u64, _d: u64) {
    use xdvdfs::blockdev::BlockDeviceRead;
    let w = setup();
    let f = fs();
    let t = concrete(shape);
    let dir = if mode & ISO == 0 {
        let s = f.dir(w, "src");
        plant(&t, 0, s);
        Some(s)
    } else {
        let s = f.dir(w, "o");
        let i = f.file(s, "src.img", build(&t, false));
        if mode & PARTITION != 0 {
            f.nodes[i].pad = 34078720;
        }
        None
    };
    let src = if mode & ISO == 0 { "src" } else { "o/src.img" };
    let sub = f.dir(w, "sub");
    let (d, out, args): (usize, &str, Vec<&str>) = match cmd {
        // the desktop application is given a directory
        0 if DESKTOP => (sub, "src.1.cso", vec!["compress", src, "sub"]),
        0 => (sub, "out.1.cso", vec!["compress", src, "sub/out.cso"]),
        _ => (w, "src.1.cso", vec!["compress", src]),
    };
    if mode & EXISTING != 0 {
        f.file(d, out, pattern(7, 200 * 2048));
    }
    let mut short = false;
    if mode & SHRUNK != 0 {
        for n in f.nodes.iter_mut() {
            if n.kind == Kind::File && n.data.len() > 2 && n.name != out.as_bytes() && n.name != b"keep" {
                n.lost = 1 + (sym::u8("lost") as u64 & 7);
                short = true;
            }
        }
    }
    modes(mode);
    let r = run(&args);
    only(d, out.as_bytes());
    if let Some(s) = dir {
        kept(&t, 0, s);
    }
    if r.is_ok() {
        let o = f.child(d, out.as_bytes());
        sym::check(o.is_some(), "the image is created");
        sym::check(!short, "a file that lost data is reported");
        f.quiet = true;
        let p = format!("{}{}", if cmd == 0 { "sub/" } else { "" }, out);
        let dev = wait(crate::img::open_image(std::path::Path::new(&p)));
        sym::check(dev.is_ok(), "the image can be opened");
        let Ok(mut dev) = dev else { return };
        // the size that the header of the file gives
        let h = &f.nodes[o.unwrap()].data;
        let size = h[8..16].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
        sym::check(size >= 34 * 2048 && size <= 128 * 2048, "the size of the image");
        let mut img = vec![0; size as usize];
        for k in 0..size as usize / 2048 {
            let ok = wait(dev.read(k as u64 * 2048, &mut img[k * 2048..][..2048])).is_ok();
            sym::check(ok, "the image can be read");
        }
        if shape == 4 {
            // no padding: the last sector of the image is that of the file. ciso gives it an end
            // that is rounded down to a multiple of four.
            let last = img.split_off(63 * 2048);
            let data = &t.items[1].data;
            img.extend_from_slice(&data[data.len() - 2048..]);
            sym::check(matches(&img, &t), "the image is complete when the command succeeds");
            sym::check(last[..2040] == img[63 * 2048..][..2040], "all but the end of the last sector can be read");
            sym::check(last[2040..] == img[63 * 2048 + 2040..], "the end of the last sector can be read");
        } else {
            sym::check(matches(&img, &t), "the image is complete when the command succeeds");
        }
        sym::reach("packed");
    } else {
        sym::check(f.faulted || short, "a readable source is compressed");
        sym::reach("failed");
    }
}

const W1252: [u32; 32] = [
    0x20ac, 0x81, 0x201a, 0x0192, 0x201e, 0x2026, 0x2020, 0x2021, 0x02c6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8d, 0x017d, 0x8f, 0x90, 0x2018, 0x2019, 0x201c, 0x201d,
    0x2022, 0x2013, 0x2014, 0x02dc, 0x2122, 0x0161, 0x203a, 0x0153, 0x9d, 0x017e, 0x0178,
];

/// The name as an image stores it, or None for what is not UTF-8 or not in Windows-1252.
fn stored(n: &[u8]) -> Option<Vec<u8>> {
    let s = core::str::from_utf8(n).ok()?;
    let mut v = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x80 || (c >= 0xa0 && c < 0x100) {
            v.push(c as u8);
        } else {
            let k = (0..32).find(|k| W1252[*k] == c)?;
            v.push(0x80 + k as u8);
        }
    }
    Some(v)
}

/// Packing a directory in which a name is any `k` bytes. WIDE: of
/// three bytes or more, the first a character of three bytes. shape 0: a file; 1: a directory with a file, next to a file;
/// 2: next to a file with a name of any one byte; 3: below a directory. mode FAULT: an operation fails.
pub fn h_names(cmd: u64, shape: u64, k: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let any = |k: u64| {
        let mut n = vec![];
        for i in 0..k {
            let c = sym::u8("name");
            sym::assume((c != 0) & (c != b'/'));
            if mode & WIDE != 0 && i < 2 {
                sym::assume(if i == 0 { c == 0xe2 } else { (c == 0x80) | (c == 0x82) | (c == 0x84) });
            }
            n.push(if mode & WIDE != 0 && i < 2 { sym::concretize(c as u64) as u8 } else { c });
        }
        sym::assume(n != b"." && n != b"..");
        n
    };
    let n = any(k);
    let mut t = Tree::new();
    let mut names = vec![n.clone()];
    match shape {
        0 => {
            t.add(0, &n, false, data(1, 5));
        }
        1 => {
            let d = t.add(0, &n, true, vec![]);
            t.file(d, "x", data(1, 3));
            t.file(0, "bbbb", data(2, 4));
        }
        2 => {
            let m = any(1);
            sym::assume(n != m);
            names.push(m.clone());
            t.add(0, &n, false, data(1, 5));
            t.add(0, &m, false, data(2, 6));
        }
        _ => {
            let d = t.dir(0, "d");
            t.add(d, &n, true, vec![]);
            t.file(d, "bbbb", data(2, 4));
        }
    }
    let s = f.dir(w, "src");
    plant(&t, 0, s);
    modes(mode);
    let r = match cmd {
        0 => run(&["pack", "src", "out.iso"]),
        _ => run(&["build-image", "-m", "**:/{1}", "src", "out.iso"]),
    };
    only(w, b"out.iso");
    kept(&t, 0, s);
    let mut good = true;
    let mut low: Vec<Vec<u8>> = vec![];
    for i in 1..t.items.len() {
        let it = &mut t.items[i];
        match stored(&it.name) {
            Some(v) => it.name = v,
            None => good = false,
        }
        if it.parent == 0 && good {
            let l: Vec<u8> = it.name.iter().map(|c| c.to_ascii_lowercase()).collect();
            good = !low.contains(&l);
            low.push(l);
        }
    }
    if r.is_ok() {
        sym::check(good, "names that an image cannot hold are refused");
        let o = f.child(w, b"out.iso");
        sym::check(o.is_some(), "the image is created");
        let Some(o) = o else { return };
        if cmd != 0 && n.contains(&b'\n') {
            sym::check(matches(&f.nodes[o].data, &t), "a name with a line break is matched");
            return;
        }
        sym::check(matches(&f.nodes[o].data, &t), "the image is complete when the command succeeds");
        sym::reach("packed");
    } else {
        sym::check(f.faulted || !good, "a source with names that an image can hold is packed");
        sym::reach("failed");
    }
}
