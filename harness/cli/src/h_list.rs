//! C15, C18: what the commands report about an image.
use crate::h_cli::*;
use crate::image::*;
use crate::sym;
use crate::vfs::fs;

const FAULT: u64 = 1;
const PARTITION: u64 = 2;
const REVERSED: u64 = 4;
const HUGE: u64 = 8; // files of almost 4 GiB

/// A printable name; `low`: it comes first where an image is searched.
fn name(k: u64, low: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..k {
        let c = sym::u8("name");
        sym::assume((c > 0x20) & (c < if low { 0x44 } else { 0x7f }) & (c != b'/'));
        v.push(c);
    }
    v
}

fn tree(shape: u64, k: u64, low: bool) -> Tree {
    let n = name(k, low);
    let mut t = Tree::new();
    match shape {
        0 => {}
        1 => {
            t.add(0, &n, false, data(1, 5));
            t.file(0, "zzzz", vec![]);
        }
        2 => {
            let d = t.dir(0, "d___");
            t.add(d, &n, false, data(1, 2048));
            t.dir(d, "e___");
            t.file(0, "f___", data(2, 17));
        }
        3 => {
            let d = t.add(0, &n, true, vec![]);
            let e = t.dir(d, "e");
            t.file(e, "ff", data(1, 2049));
            t.file(d, "g", data(2, 1));
            t.file(0, "hhhh", data(3, 100));
        }
        5 => {
            let d = t.dir(0, "d___");
            let e = t.dir(d, "e___");
            t.add(e, &n, false, data(1, 20));
            t.file(e, "g___", data(2, 30));
        }
        _ => {
            // "a" < "a.b" < "a/..." in one order, "a" < "a/..." < "a.b" in the other
            let d = t.dir(0, "a");
            t.file(d, "x", data(1, 4));
            t.file(0, "a.b", data(2, 6));
            t.file(0, "a0", data(3, 7));
        }
    }
    t
}

fn store(w: usize, file: &str, t: &Tree, mode: u64) -> usize {
    let f = fs();
    let n = f.file(w, file, build(t, mode & REVERSED != 0));
    if mode & PARTITION != 0 {
        f.nodes[n].pad = 34078720;
    }
    n
}

fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut c = vec![];
    for x in b {
        if *x == b'\n' {
            v.push(core::mem::take(&mut c));
        } else {
            c.push(*x);
        }
    }
    if !c.is_empty() {
        v.push(c);
    }
    v
}

/// the same lines, in any order
fn same_lines(got: &[Vec<u8>], want: &[Vec<u8>]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut used = vec![false; got.len()];
    for w in want {
        let mut hit = false;
        for i in 0..got.len() {
            if !used[i] && got[i] == *w {
                used[i] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}

fn num(n: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut n = n;
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

/// cmd 0: ls, 1: ls -s, 2: ls of a directory, 3: tree, 4: ls of a file, 5: ls of a missing path,
/// 6: extract-xiso -l, 7: ls -s of a directory
pub fn h_list(cmd: u64, shape: u64, k: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let mut t = tree(shape, k, cmd == 2 || cmd == 4 || cmd == 7);
    if mode & HUGE != 0 {
        for (i, it) in t.items.iter_mut().enumerate() {
            if !it.dir {
                it.big = Some([0xffffffff, 0x80000000, 0x7fffffff, 0xfffff801][i % 4]);
            }
        }
    }
    store(w, "in.iso", &t, mode);
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    // a directory and a file with known names
    let mut d = 0;
    let mut file = 0;
    for i in 1..t.items.len() {
        if t.items[i].dir && t.items[i].parent == 0 && !sym::is_symbolic(t.items[i].name[0] as u64) {
            d = i;
        }
        if !t.items[i].dir && !sym::is_symbolic(t.items[i].name[0] as u64) {
            file = i;
        }
    }
    let dp = t.path(d);
    let dp = if d == 0 { b"/".to_vec() } else { dp };
    let fp = t.path(file);
    let dp = core::str::from_utf8(&dp).unwrap_or("");
    let fp = core::str::from_utf8(&fp).unwrap_or("");
    let r = match cmd {
        0 => run(&["ls", "in.iso"]),
        1 => run(&["ls", "-s", "in.iso"]),
        2 => run(&["ls", "in.iso", dp]),
        3 => run(&["tree", "in.iso"]),
        4 => run(&["ls", "in.iso", fp]),
        5 => run(&["ls", "in.iso", "/q/q"]),
        6 => exiso(&["-l", "in.iso"]),
        _ => run(&["ls", "-s", "in.iso", dp]),
    };
    sym::check(f.log.is_empty(), "listing changes nothing");
    let got = lines(&f.out);
    let mut want = vec![];
    match cmd {
        4 | 5 => {
            sym::check(r.is_err() && got.is_empty(), "what is not a directory is not listed");
            sym::reach("refused");
            return;
        }
        3 | 6 => {
            let (mut n, mut size) = (0, 0);
            for i in 1..t.items.len() {
                let it = &t.items[i];
                if it.dir {
                    want.push(cat(&[&t.path(i), b"/ (0 bytes)"]));
                } else {
                    n += 1;
                    size += t.size(i);
                    want.push(cat(&[&t.path(i), b" (", &num(t.size(i)), b" bytes)"]));
                }
            }
            want.push(cat(&[&num(n), b" files, ", &num(size), b" bytes in in.iso"]));
        }
        _ => {
            let at = if cmd == 2 || cmd == 7 { d } else { 0 };
            for i in t.kids(at) {
                want.push(t.items[i].name.clone());
            }
        }
    }
    if r.is_ok() {
        sym::check(same_lines(&got, &want), "the listing is exactly the entries of the image");
        if cmd == 3 || cmd == 6 {
            sym::check(got.last() == want.last(), "the summary comes last");
        }
        sym::reach("listed");
    } else {
        sym::check(f.faulted, "a readable image is listed");
        sym::reach("failed");
    }
}

fn hex(b: u8) -> [u8; 2] {
    let d = b"0123456789abcdef";
    [d[(b >> 4) as usize], d[(b & 15) as usize]]
}

/// the record whose digest starts the line; the rest of the line
fn digest(l: &[u8], len: usize) -> Option<(usize, &[u8])> {
    if l.len() < 2 * len {
        return None;
    }
    for n in 0..32u8 {
        let mut d = vec![];
        d.extend_from_slice(&hex(n));
        d.extend_from_slice(&hex(len as u8));
        for _ in 2..len {
            d.extend_from_slice(b"00");
        }
        if l[..2 * len] == d[..] {
            return Some((n as usize, &l[2 * len..]));
        }
    }
    None
}

/// what the checksum of the tree is computed from: every path, in order, followed by the contents
/// of a file
fn stream(t: &Tree) -> Vec<u8> {
    let mut p: Vec<(Vec<u8>, usize)> = vec![];
    for i in 1..t.items.len() {
        let path = t.path(i);
        let mut at = p.len();
        while at > 0 && p[at - 1].0 > path {
            at -= 1;
        }
        p.insert(at, (path, i));
    }
    let mut v = vec![];
    for (path, i) in p {
        v.extend_from_slice(&path);
        v.extend_from_slice(&t.items[i].data);
    }
    v
}

/// The checksums of two images with the same contents, one of them in the given mode. cmd 1: two
/// command lines.
pub fn h_checksum(cmd: u64, shape: u64, k: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let t = tree(shape, k, false);
    store(w, "a.iso", &t, 0);
    store(w, "b.iso", &t, mode);
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    let r = if cmd == 0 {
        run(&["checksum", "a.iso", "b.iso"])
    } else {
        match run(&["checksum", "-s", "a.iso"]) {
            Ok(()) => run(&["checksum", "b.iso"]),
            e => e,
        }
    };
    sym::check(f.log.is_empty(), "a checksum changes nothing");
    let got = lines(&f.out);
    let want = stream(&t);
    let log = sha3::LOG.lock().unwrap();
    for (i, l) in got.iter().enumerate() {
        let d = digest(l, 32);
        sym::check(d.is_some(), "a checksum is printed");
        let Some((n, rest)) = d else { return };
        sym::check(n < log.len() && log[n].algorithm == "Sha3_256", "the checksum is a digest that was computed");
        if n < log.len() {
            sym::check(log[n].input == want, "the checksum is that of the paths and contents in order");
        }
        sym::check(rest == if i == 0 { b"\ta.iso" } else { b"\tb.iso" }, "the image is named");
    }
    if r.is_ok() {
        sym::check(got.len() == 2, "one checksum for each image");
        sym::reach("checksum");
    } else {
        sym::check(f.faulted, "a readable image has a checksum");
        sym::reach("failed");
    }
}

/// cmd 0: all files, 1: one file, 2: a directory, 3: a missing path
pub fn h_md5(cmd: u64, shape: u64, k: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let t = tree(shape, k, cmd == 1 || cmd == 2);
    store(w, "in.iso", &t, mode);
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    let mut d = 0;
    let mut file = 0;
    for i in 1..t.items.len() {
        let known = !sym::is_symbolic(t.items[i].name[0] as u64);
        if t.items[i].dir && known && t.items[i].parent == 0 {
            d = i;
        }
        if !t.items[i].dir && known {
            file = i;
        }
    }
    let dp = t.path(d);
    let fp = t.path(file);
    let dp = core::str::from_utf8(&dp).unwrap_or("");
    let fp = core::str::from_utf8(&fp).unwrap_or("");
    let r = match cmd {
        0 => run(&["md5", "in.iso"]),
        1 => run(&["md5", "in.iso", fp]),
        2 => run(&["md5", "in.iso", dp]),
        _ => run(&["md5", "in.iso", "/q/q"]),
    };
    sym::check(f.log.is_empty(), "md5 changes nothing");
    let got = lines(&f.out);
    if cmd == 3 {
        sym::check(r.is_err() && got.is_empty(), "a missing path has no md5");
        sym::reach("refused");
        return;
    }
    let log = md5::LOG.lock().unwrap();
    // every line: the digest of the contents of the file it names
    let mut seen = vec![false; t.items.len()];
    for l in &got {
        let g = digest(l, 16);
        sym::check(g.is_some(), "an md5 is printed");
        let Some((n, rest)) = g else { return };
        let mut hit = 0;
        for i in 1..t.items.len() {
            if rest[..] == cat(&[b"  ", &t.path(i)])[..] {
                hit = i;
            }
        }
        sym::check(hit != 0, "the line names an entry of the image");
        if hit == 0 {
            return;
        }
        sym::check(!seen[hit], "an entry is reported once");
        seen[hit] = true;
        if !t.items[hit].dir {
            sym::check(n < log.len() && log[n].algorithm == "Md5" && log[n].input == t.items[hit].data, "the md5 is that of exactly the file");
        }
    }
    if r.is_ok() {
        for i in 1..t.items.len() {
            let asked = match cmd {
                0 => true,
                1 => i == file,
                _ => {
                    let mut p = i;
                    while p != 0 && p != d {
                        p = t.items[p].parent;
                    }
                    p == d && i != d
                }
            };
            if !t.items[i].dir {
                sym::check(seen[i] == asked, "exactly the files asked for are reported");
            } else {
                sym::check(asked || !seen[i], "nothing else is reported");
            }
        }
        sym::reach("md5");
    } else {
        sym::check(f.faulted, "a readable image has md5s");
        sym::reach("failed");
    }
}

/// the value printed for a label
fn field<'a>(got: &'a [Vec<u8>], label: &[u8]) -> Option<&'a [u8]> {
    for l in got {
        if l.len() > label.len() && l[..label.len()] == *label {
            let mut i = label.len();
            while i < l.len() && l[i] == b' ' {
                i += 1;
            }
            return Some(&l[i..]);
        }
    }
    None
}

/// The metadata of an image whose second entry is the right child of the first at 4 * `child`.
/// cmd 0: of the volume, 1: of the first entry, 2: of the root directory
pub fn h_info(cmd: u64, child: u64, left: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let size = (child as usize * 4 + 32 + 2047) / 2048 * 2048;
    let mut img = vec![0u8; (34 + size / 2048) * 2048];
    let v = 32 * 2048;
    img[v..v + 20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    img[v + 20] = 33;
    img[v + 24..v + 28].copy_from_slice(&(size as u32).to_le_bytes());
    img[v + 28..v + 36].copy_from_slice(&133742069000000001u64.to_le_bytes());
    img[v + 2048 - 20..v + 2048].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    let attr = sym::u8("attributes");
    sym::assume(attr & 0x10 == 0);
    for (at, name) in [(0usize, b'm'), (child as usize * 4, b'x')] {
        let r = v + 2048 + at;
        if at == 0 {
            let (a, b) = if left != 0 { (0, 2) } else { (2, 0) };
            img[r + a..r + a + 2].copy_from_slice(&(child as u16).to_le_bytes());
            let _ = b;
        }
        img[r + 4..r + 8].copy_from_slice(&77u32.to_le_bytes());
        img[r + 8..r + 12].copy_from_slice(&(4000000000u32 + at as u32).to_le_bytes());
        img[r + 12] = attr;
        img[r + 13] = 1;
        img[r + 14] = if left != 0 && at != 0 { b'a' } else { name };
    }
    let n = f.file(w, "in.iso", img);
    if mode & PARTITION != 0 {
        f.nodes[n].pad = 34078720;
    }
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    let r = match cmd {
        0 => run(&["info", "in.iso"]),
        1 => run(&["info", "in.iso", "/m"]),
        _ => run(&["info", "in.iso", "/"]),
    };
    sym::check(f.log.is_empty(), "info changes nothing");
    let got = lines(&f.out);
    if r.is_err() {
        sym::check(f.faulted, "a readable image has information");
        sym::reach("failed");
        return;
    }
    if cmd == 0 {
        sym::check(field(&got, b"Valid:") == Some(b"true"), "the volume is valid");
        sym::check(field(&got, b"Creation time:") == Some(b"133742069000000001"), "the creation time is that of the volume");
        let want = cat(&[b"Sector 33 (", &num(size as u64), b" bytes)"]);
        sym::check(field(&got, b"Root Entry:") == Some(&want[..]), "the root entry is that of the volume");
    } else {
        sym::check(field(&got, b"Name:") == Some(b"m"), "the name is that of the entry");
        let off = cat(&[&num(child as u64 * 4), b" bytes"]);
        let (l, rr): (&[u8], &[u8]) = if left != 0 { (&off, b"None") } else { (b"None", &off) };
        sym::check(field(&got, b"Left Child Offset:") == Some(l), "the left child is that of the entry");
        sym::check(field(&got, b"Right Child Offset:") == Some(rr), "the right child is that of the entry");
        sym::check(field(&got, b"Data Location:") == Some(b"Sector 77 (4000000000 bytes)"), "the data is that of the entry");
        let Some(a) = field(&got, b"Attributes:") else {
            sym::check(attr & 0xa7 == 0, "the attributes are reported");
            return;
        };
        let has = |s: &[u8]| a.windows(s.len()).any(|w| w == s);
        sym::check(has(b"Read-Only") == (attr & 1 != 0), "read-only is reported");
        sym::check(has(b"Hidden") == (attr & 2 != 0), "hidden is reported");
        sym::check(has(b"System") == (attr & 4 != 0), "system is reported");
        sym::check(has(b"Archive") == (attr & 32 != 0), "archive is reported");
        sym::check(has(b"Normal") == (attr & 128 != 0), "normal is reported");
        sym::check(!has(b"Directory"), "a file is not a directory");
        if cmd == 2 {
            let mut n = 0;
            for l in &got {
                if l.len() >= 5 && &l[..5] == b"Name:" {
                    n += 1;
                }
            }
            sym::check(n == 2, "every entry is reported");
        }
    }
    sym::reach("info");
}

/// Whether the lines that `info` prints for an entry, from its name on, are those of its record.
fn entry(img: &[u8], t: &Tree, i: usize, b: &[Vec<u8>]) -> bool {
    let (table, at) = record(img, t, i);
    let it = &t.items[i];
    let link = |n: usize| {
        let n = le(img, table + at + n, 2);
        if n == 0 { b"None".to_vec() } else { cat(&[&num(n as u64 * 4), b" bytes"]) }
    };
    let place = cat(&[b"Sector ", &num(le(img, table + at + 4, 4) as u64), b" (", &num(le(img, table + at + 8, 4) as u64), b" bytes)"]);
    let attr = field(b, b"Attributes:").unwrap_or(b"");
    field(b, b"Name:") == Some(&it.name[..])
        && field(b, b"Offset:") == Some(&num((table + at) as u64)[..])
        && field(b, b"Left Child Offset:") == Some(&link(0)[..])
        && field(b, b"Right Child Offset:") == Some(&link(2)[..])
        && field(b, b"Data Location:") == Some(&place[..])
        && attr.windows(9).any(|w| w == b"Directory") == it.dir
        && attr.windows(6).any(|w| w == b"Normal") != it.dir
}

/// `info` of the item `at` of a tree (0: the root), or of a path that is not in it.
pub fn h_info_tree(at: u64, shape: u64, k: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let t = tree(shape, k, true);
    let n = store(w, "in.iso", &t, mode);
    let img = f.nodes[n].data.clone();
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    let i = at as usize;
    let (path, want) = if i < t.items.len() {
        (if i == 0 { b"/".to_vec() } else { t.path(i) }, true)
    } else if i % 2 == 0 {
        (b"/nothing".to_vec(), false)
    } else {
        (cat(&[&t.path(t.items.len() - 1), b"/nothing"]), false)
    };
    let r = run(&["info", "in.iso", core::str::from_utf8(&path).unwrap_or("")]);
    sym::check(f.log.is_empty(), "info changes nothing");
    let got = lines(&f.out);
    if r.is_err() {
        sym::check(f.faulted || !want, "an entry of a readable image has information");
        sym::check(want || got.is_empty(), "nothing is reported of what does not exist");
        sym::reach(if want { "failed" } else { "refused" });
        return;
    }
    sym::check(want, "what does not exist has no information");
    let mut left: Vec<usize> = if t.items[i].dir { t.kids(i) } else { vec![] };
    let mut first = i != 0;
    let starts: Vec<usize> = (0..got.len()).filter(|n| got[*n].len() > 5 && got[*n][..5] == *b"Name:").collect();
    for (n, s) in starts.iter().enumerate() {
        let end = if n + 1 < starts.len() { starts[n + 1] } else { got.len() };
        let b = &got[*s..end];
        if first {
            sym::check(entry(&img, &t, i, b), "the entry asked for is reported as its record is");
            first = false;
            continue;
        }
        let mut hit = None;
        for (x, c) in left.iter().enumerate() {
            if entry(&img, &t, *c, b) {
                hit = Some(x);
                break;
            }
        }
        sym::check(hit.is_some(), "each entry of the directory is reported once, as its record is");
        let Some(x) = hit else { return };
        left.remove(x);
    }
    sym::check(!first && left.is_empty(), "every entry is reported");
    sym::reach("info");
}
