//! C23: the extract-xiso command line.
use crate::h_cli::*;
use crate::h_pack::{kept, plant};
use crate::image::*;
use crate::sym;
use crate::vfs::{fs, Kind};

const FAULT: u64 = 1;
const PARTITION: u64 = 2;

fn small(seed: u8, name: &str) -> Tree {
    let mut t = Tree::new();
    let d = t.dir(0, "d");
    t.file(d, name, data(seed, 7));
    t.file(0, "z", data(seed + 1, 2050));
    t
}

fn image_at(path: &[u8], t: &Tree) -> bool {
    let f = fs();
    match f.walk(path, true, 0) {
        Ok((_, _, Some(n))) => f.nodes[n].kind == Kind::File && matches(&f.nodes[n].data, t),
        _ => false,
    }
}

/// Every file that was changed or created is one of these.
fn only(paths: &[&[u8]]) {
    let f = fs();
    for (_, n) in &f.log {
        let p = f.path(*n);
        let mut ok = false;
        for q in paths {
            ok = ok || p == *q;
        }
        sym::check(ok, "nothing but the named images is written");
    }
}

/// Several images in one command line; `files`: bit i set when the i-th has a file name.
pub fn h_create(n: u64, files: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let dirs = ["one", "two", "three"];
    let outs = ["1.iso", "2.iso", "3.iso"];
    let defs = ["one.iso", "two.iso", "three.iso"];
    let mut ts = vec![];
    let mut nodes = vec![];
    let mut args = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..n as usize {
        let t = small(3 * i as u8, dirs[i]);
        let d = f.dir(w, dirs[i]);
        plant(&t, 0, d);
        ts.push(t);
        nodes.push(d);
        args.push("-c");
        args.push(dirs[i]);
        let mut p = b"/w/".to_vec();
        if files >> i & 1 != 0 {
            args.push(outs[i]);
            p.extend_from_slice(outs[i].as_bytes());
        } else {
            p.extend_from_slice(defs[i].as_bytes());
        }
        want.push(p);
    }
    if mode & FAULT != 0 {
        f.fault = sym::u16("fault") as u64;
    }
    let r = exiso(&args);
    let paths: Vec<&[u8]> = want.iter().map(|p| &p[..]).collect();
    only(&paths);
    for i in 0..n as usize {
        kept(&ts[i], 0, nodes[i]);
    }
    if r.is_ok() {
        for i in 0..n as usize {
            sym::check(image_at(&want[i], &ts[i]), "every image that is asked for is created");
        }
        sym::reach("created");
    } else {
        sym::check(f.faulted, "the directories are packed");
        sym::reach("failed");
    }
}

fn tree_at(t: &Tree, i: usize, d: usize) -> bool {
    let f = fs();
    for k in t.kids(i) {
        let it = &t.items[k];
        let Some(c) = f.child(d, &it.name) else { return false };
        if (f.nodes[c].kind == Kind::Dir) != it.dir {
            return false;
        }
        if it.dir {
            if !tree_at(t, k, c) {
                return false;
            }
        } else if f.nodes[c].data != it.data {
            return false;
        }
    }
    true
}

/// `n` images extracted, with -x when `x`, into a directory (-d) when `d` (images then hold
/// different names).
pub fn h_extract(n: u64, x: u64, d: u64, mode: u64) {
    let w = setup();
    let f = fs();
    let names = ["a.iso", "b.xiso"];
    let stems = ["a", "b"];
    let mut ts = vec![];
    for i in 0..n as usize {
        let mut t = Tree::new();
        let e = t.dir(0, ["p", "q"][i]);
        t.file(e, "f", data(i as u8, 30));
        t.file(0, ["r", "s"][i], data(i as u8 + 4, 2049));
        let k = f.file(w, names[i], build(&t, false));
        if mode & PARTITION != 0 {
            f.nodes[k].pad = 34078720;
        }
        ts.push(t);
    }
    if mode & FAULT != 0 {
        f.fault = sym::u16("fault") as u64;
    }
    let mut args = vec![];
    if d != 0 {
        args.push("-d");
        args.push("to");
    }
    if x != 0 {
        args.push("-x");
    }
    args.extend_from_slice(&names[..n as usize]);
    let r = exiso(&args);
    for (_, k) in &f.log {
        let mut ok = false;
        for i in 0..n as usize {
            let t = if d != 0 { "to" } else { stems[i] };
            ok = ok || f.child(w, t.as_bytes()).is_some_and(|t| f.within(*k, t));
        }
        sym::check(ok, "only the target directories are written");
    }
    if r.is_ok() {
        for i in 0..n as usize {
            let t = if d != 0 { "to" } else { stems[i] };
            let c = f.child(w, t.as_bytes());
            sym::check(c.is_some_and(|c| tree_at(&ts[i], 0, c)), "every image is extracted");
        }
        sym::reach("extracted");
    } else {
        sym::check(f.faulted, "the images are extracted");
        sym::reach("failed");
    }
}

/// Rewrite images. `flags` 1: -d, 2: -D, 4: in another directory
pub fn h_rewrite(n: u64, flags: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let to = f.dir(w, "to");
    let sub = f.dir(w, "in");
    let _ = to;
    let at = if flags & 4 != 0 { sub } else { w };
    let names = ["a.iso", "b.iso"];
    let paths = if flags & 4 != 0 { ["in/a.iso", "in/b.iso"] } else { names };
    let mut ts = vec![];
    let mut imgs = vec![];
    let mut ids = vec![];
    for i in 0..n as usize {
        let t = small(3 * i as u8, "f");
        let img = build(&t, true);
        let k = f.file(at, names[i], img.clone());
        if mode & PARTITION != 0 {
            f.nodes[k].pad = 34078720;
        }
        ts.push(t);
        imgs.push(img);
        ids.push(k);
    }
    if mode & FAULT != 0 {
        f.fault = sym::u16("fault") as u64;
    }
    let mut args = vec![];
    if flags & 1 != 0 {
        args.push("-d");
        args.push("to");
    }
    if flags & 2 != 0 {
        args.push("-D");
    }
    args.push("-r");
    args.extend_from_slice(&paths[..n as usize]);
    let r = exiso(&args);
    for i in 0..n as usize {
        let target = match flags & 5 {
            0 => [b"/w/".as_slice(), names[i].as_bytes()].concat(),
            4 => [b"/w/in/".as_slice(), names[i].as_bytes()].concat(),
            _ => [b"/w/to/".as_slice(), names[i].as_bytes()].concat(),
        };
        let done = image_at(&target, &ts[i]);
        // the original is somewhere, complete, until it has been rewritten
        let k = ids[i];
        let kept = f.nodes[k].live && f.nodes[k].data == imgs[i];
        sym::check(kept || (done && flags & 2 != 0), "an image is not lost");
        if r.is_ok() {
            sym::check(done, "the image is rewritten");
            sym::check(kept == (flags & 2 == 0), "the original is kept unless it is to be deleted");
            if kept {
                sym::check(f.nodes[k].name != names[i].as_bytes() && f.nodes[k].parent == at, "the original is renamed");
            }
        }
    }
    for (_, k) in &f.log {
        let p = f.nodes[*k].parent;
        sym::check(ids.contains(k) || p == if flags & 1 != 0 { to } else { at }, "nothing else is touched");
    }
    if r.is_ok() {
        sym::reach("rewritten");
    } else {
        sym::check(f.faulted, "the images are rewritten");
        sym::reach("failed");
    }
}
