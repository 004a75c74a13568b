//! C16: unpack and copy-out.
use crate::h_cli::*;
use crate::image::*;
use crate::sym;
use crate::vfs::{fs, Kind};

const FAULT: u64 = 1; // an operation fails
const PARTITION: u64 = 2; // the image is a game partition
const REVERSED: u64 = 4; // other layout
const CUT: u64 = 8; // the image file ends early
const EXISTING: u64 = 16; // the target exists
const KERNEL: u64 = 32; // copy_file_range works
const WIDE: u64 = 64; // names of bytes 0xa0..
const SHORT: u64 = 128; // short reads and writes

fn ch(n: &str, wide: bool) -> u8 {
    let c = sym::u8(n);
    if wide {
        sym::assume(c >= 0xa0);
    } else {
        sym::assume((c != 0) & (c < 0x80));
    }
    c
}

/// the name on the host
fn host(n: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for c in n {
        if *c >= 0xa0 {
            v.push(0xc0 | (*c >> 6));
            v.push(0x80 | (*c & 0x3f));
        } else {
            v.push(*c);
        }
    }
    v
}

fn plain(n: &[u8]) -> bool {
    let mut ok = !n.is_empty();
    for c in n {
        ok = ok && *c != b'/' && *c != 0;
    }
    ok && n != b"." && n != b".."
}

/// everything the command changed lies in `d`
fn contained(d: &[u8], w: usize) {
    let f = fs();
    let t = f.child(w, d);
    for (_, n) in &f.log {
        let ok = t.is_some_and(|t| f.within(*n, t));
        sym::check(ok, "nothing is written outside the target");
    }
}

/// what is below item `i` of `t` is exactly what the command made below node `d`
fn same(t: &Tree, i: usize, d: usize) {
    let f = fs();
    let kids = t.kids(i);
    for c in 1..f.nodes.len() {
        if f.nodes[c].live && f.nodes[c].parent == d && f.nodes[c].new {
            let mut known = false;
            for k in &kids {
                known = known || host(&t.items[*k].name) == f.nodes[c].name;
            }
            sym::check(known, "nothing but the entries of the image is created");
        }
    }
    for k in kids {
        let it = &t.items[k];
        let c = f.child(d, &host(&it.name));
        sym::check(c.is_some(), "every entry is extracted");
        let Some(c) = c else { return };
        sym::check((f.nodes[c].kind == Kind::Dir) == it.dir, "an extracted entry has the kind of its entry");
        if it.dir {
            same(t, k, c);
        } else {
            sym::check(f.nodes[c].data == it.data, "an extracted file has exactly the contents of its entry");
        }
    }
}

/// Stores the image; returns (its node, a part of a file's data is missing).
fn store(w: usize, t: &Tree, mode: u64) -> usize {
    let mut img = build(t, mode & REVERSED != 0);
    let f = fs();
    if mode & CUT != 0 {
        // the last file of the layout is the last item; some of its data is missing
        let n = t.items[t.items.len() - 1].data.len();
        let c = sym::len("cut", 1, 4);
        let end = img.len() - (2048 - n % 2048) % 2048 - c;
        img.truncate(end);
    }
    let n = f.file(w, "in.iso", img);
    if mode & PARTITION != 0 {
        f.nodes[n].pad = 34078720;
    }
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    if mode & SHORT != 0 {
        f.short_read = 1500;
        f.short_write = 700;
    }
    f.kernel_copy = mode & KERNEL != 0;
    n
}

/// Other files where those of item i will be
fn old(t: &Tree, i: usize, o: usize) {
    let f = fs();
    for k in t.kids(i) {
        let it = &t.items[k];
        if !it.dir && !sym::is_symbolic(it.name[0] as u64) {
            f.file(o, core::str::from_utf8(&it.name).unwrap_or(""), pattern(9, 6000));
        }
    }
    f.file(o, "other_", b"o".to_vec());
}

/// k: length of the symbolic name
pub fn h_unpack(shape: u64, k: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut name = vec![];
    for _ in 0..k {
        name.push(ch("name", mode & WIDE != 0));
    }
    let mut t = Tree::new();
    match shape {
        // files next to each other
        0 => {
            t.add(0, &name, false, data(1, 5));
            sym::assume(name != b"empty" && name != b"long");
            t.file(0, "empty", vec![]);
            t.file(0, "long", data(2, 2048 + 3));
        }
        // a directory with a symbolic name
        1 => {
            let d = t.add(0, &name, true, vec![]);
            t.file(d, "f", data(1, 9));
            t.file(0, "x____", data(2, 2048));
        }
        // inside a directory
        2 => {
            let d = t.dir(0, "d");
            t.add(d, &name, false, data(1, 5));
            t.dir(d, "sub_");
        }
        // an empty directory, a nested one
        3 => {
            let d = t.dir(0, "d");
            let e = t.dir(d, "e");
            let g = t.add(e, &name, true, vec![]);
            t.file(g, "f", data(1, 1));
            t.file(0, "z", data(3, 4096 + 1));
        }
        // a name in the directory above repeated below, files that share a prefix
        _ => {
            let d = t.dir(0, "a");
            let e = t.dir(d, "a");
            t.add(e, &name, false, data(1, 3));
            t.file(d, "b", data(2, 2048));
            t.file(0, "b", data(3, 2047));
            t.file(0, "ba", data(4, 7));
        }
    }
    let n = store(w, &t, mode);
    if mode & EXISTING != 0 {
        let o = f.dir(w, "out");
        old(&t, 0, o);
    }
    let r = run(&["unpack", "in.iso", "out"]);
    contained(b"out", w);
    sym::check(f.nodes[n].live, "the image is kept");
    if r.is_ok() {
        let out = f.child(w, b"out");
        sym::check(out.is_some(), "the target directory is created");
        if let Some(o) = out {
            same(&t, 0, o);
        }
        sym::reach("unpacked");
    } else {
        sym::check(f.faulted || !plain(&name) || mode & CUT != 0, "an image with ordinary names is unpacked");
        sym::reach("refused");
    }
}

/// Copy one path out of an image.
pub fn h_copyout(case: u64, k: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut name = vec![];
    for _ in 0..k {
        name.push(ch("name", mode & WIDE != 0));
    }
    let mut t = Tree::new();
    let d = t.dir(0, "d");
    let e = t.dir(d, "e");
    t.file(e, "deep", data(1, 10));
    t.add(d, &name, false, data(2, 2048));
    if case == 1 || case == 5 {
        // the entries of the image are in order, as lookup requires
        sym::assume(name[0] == b'f' || name[0] == b'F');
    } else {
        sym::assume(name != b"e" && name != b"E" && !name.eq_ignore_ascii_case(b"gg"));
    }
    let g = t.file(d, "gg", data(3, 2050));
    let h = t.file(0, "hh", vec![]);
    let l = t.file(0, "last", data(4, 3000));
    let n = store(w, &t, mode);
    let (path, want) = match case {
        0 => ("/last", Some(l)),
        1 => ("/d/gg", Some(g)),
        2 => ("/d", Some(d)),
        3 => ("/", Some(0)),
        4 => ("/d/none", None),
        5 => ("d/GG", Some(g)),
        6 => ("/hh", Some(h)),
        7 => ("/d/e", Some(e)),
        8 => ("/last/x", None),
        _ => ("/e", None),
    };
    if mode & EXISTING != 0 {
        if want.is_some_and(|i| t.items[i].dir) {
            let o = f.dir(w, "to");
            old(&t, want.unwrap_or(0), o);
        } else {
            f.file(w, "to", pattern(9, 6000));
        }
    }
    let r = run(&["copy-out", "in.iso", path, "to"]);
    contained(b"to", w);
    sym::check(f.nodes[n].live, "the image is kept");
    let to = f.child(w, b"to");
    if r.is_ok() {
        sym::check(want.is_some() && to.is_some(), "only what exists is copied out");
        let (Some(i), Some(to)) = (want, to) else { return };
        sym::check((f.nodes[to].kind == Kind::Dir) == t.items[i].dir, "what is copied out has the kind of its entry");
        if t.items[i].dir {
            same(&t, i, to);
        } else {
            sym::check(f.nodes[to].data == t.items[i].data, "the file copied out is exactly the entry");
        }
        sym::reach("copied");
    } else {
        sym::check(want.is_none() || f.faulted || !plain(&name) || mode & CUT != 0, "what exists is copied out");
        if want.is_none() {
            sym::check(f.log.is_empty(), "nothing is touched for a path that is not in the image");
        }
        sym::reach("refused");
    }
}
