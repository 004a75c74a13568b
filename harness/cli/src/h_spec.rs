//! C24: image specifications; C20, C23: the names of outputs.
use crate::h_cli::*;
use crate::h_pack::{kept, plant};
use crate::image::*;
use crate::sym;
use crate::vfs::{fs, Kind};

const FAULT: u64 = 1;
const STDOUT: u64 = 2;
const OUTPUT: u64 = 4;

/// A character that a rule treats like any other, but a specification may not.
fn odd(what: &str) -> u8 {
    let c = sym::u8(what);
    let mut ok = false;
    for x in b"a.\"'=#\\ _-\t" {
        ok = ok | (c == *x);
    }
    sym::assume(ok);
    c
}

/// The options and the image they stand for, for a source with a, b/x, b/y and c
fn rules(set: u64, k: u64) -> (Vec<String>, Tree, Tree) {
    let mut s = Tree::new();
    let a = data(1, 3);
    let x = data(2, 2049);
    let y = data(3, 1);
    let c = data(4, 20);
    let mut plain = k == 0;
    let mut own = vec![];
    for _ in 0..k {
        own.push(odd("name"));
    }
    if plain {
        own = b"c".to_vec();
    } else {
        // not one of the other names
        sym::assume(own[0] != b'a' || k > 1);
        sym::assume(own != b"." && own != b"..");
        plain = false;
    }
    let _ = plain;
    s.file(0, "a", a.clone());
    let b = s.dir(0, "b");
    s.file(b, "x", x.clone());
    s.file(b, "y", y.clone());
    s.add(0, &own, false, c.clone());
    let own = String::from_utf8(own).unwrap();
    let mut t = Tree::new();
    let mut r: Vec<String> = vec![];
    match set {
        0 => {
            r.push("a:/n".into());
            r.push("b:/d/e".into());
            t.file(0, "n", a);
            let d = t.dir(0, "d");
            let d = t.dir(d, "e");
            t.file(d, "x", x);
            t.file(d, "y", y);
        }
        1 => {
            r.push("b/*:/{1}".into());
            t.file(0, "x", x);
            t.file(0, "y", y);
        }
        2 => {
            // in this order
            r.push("b/y:/first".into());
            r.push("b/*:/{1}".into());
            r.push("a:/A".into());
            t.file(0, "first", y);
            t.file(0, "x", x);
            t.file(0, "A", a);
        }
        3 => {
            r.push("b/*:/z/{1}".into());
            r.push("!b/x".into());
            r.push("b/{x,w}:/back".into());
            let d = t.dir(0, "z");
            t.file(d, "y", y);
            t.file(0, "back", x);
        }
        4 => {
            // an option, an escape
            sym::assume(!own.starts_with('-') && !own.contains('\\'));
            let mut o = own.clone();
            o.push_str(":/n");
            r.push(o);
            t.file(0, "n", c);
        }
        5 => {
            let mut o = String::from("a:/");
            o.push_str(&own);
            r.push(o);
            t.file(0, &own, a);
        }
        // the same host path twice
        6 => {
            r.push("a:/n".into());
            r.push("a:/m".into());
            t.file(0, "n", a);
        }
        _ => {
            r.push("b/*:/{1}".into());
            r.push("!b/x".into());
            r.push("b/x:/back".into());
            r.push("!b/x".into());
            t.file(0, "y", y);
        }
    }
    (r, s, t)
}

/// A specification that image-spec writes for options and the options themselves stand for the
/// same image.
pub fn h_spec(set: u64, k: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let (r, s, t) = rules(set, k);
    let src = f.dir(w, "src");
    plant(&s, 0, src);
    let mut args = vec!["image-spec", "from"];
    let mut opts = vec![];
    for x in &r {
        opts.push("-m");
        opts.push(x);
    }
    if mode & OUTPUT != 0 {
        opts.push("-O");
        opts.push("../o.iso");
    }
    args.extend_from_slice(&opts);
    if mode & STDOUT == 0 {
        args.push("spec");
    }
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    f.out.clear();
    let done = run(&args);
    if done.is_err() {
        sym::check(f.faulted || set >= 6, "a specification is written");
        sym::check(set < 6 || f.log.is_empty(), "rules that cannot be written are refused");
        sym::reach("refused");
        return;
    }
    if mode & STDOUT != 0 {
        let b = f.out.clone();
        f.file(w, "spec", b);
    }
    f.quiet = true;
    let mut imgs = vec![];
    let out: &str = if mode & OUTPUT != 0 { "o.iso" } else { "p.iso" };
    for by in 0..2 {
        let mut args = vec!["build-image"];
        if by == 0 {
            args.push("-f");
            args.push("spec");
        } else {
            args.extend_from_slice(&opts);
        }
        args.push("src");
        if mode & OUTPUT == 0 {
            args.push(out);
        }
        let ok = run(&args);
        sym::check(ok.is_ok(), "the image is built");
        if ok.is_err() {
            return;
        }
        let o = f.child(w, out.as_bytes());
        sym::check(o.is_some(), "the output is where it is asked for");
        let Some(o) = o else { return };
        imgs.push(f.nodes[o].data.clone());
        f.nodes[o].live = false;
    }
    sym::check(matches(&imgs[0], &t), "the specification builds the image the options stand for");
    sym::check(matches(&imgs[1], &t), "the options build the image they stand for");
    sym::reach("built");
}

/// Where build-image looks for the specification and the source, and where it puts the image
pub fn h_where(case: u64, with: u64, mode: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut t = Tree::new();
    t.file(0, "a", data(1, 10));
    let d = t.dir(0, "d");
    t.file(d, "f", data(2, 2048));
    let src = f.dir(w, "src.v1");
    plant(&t, 0, src);
    f.dir(src, "dist");
    let mut spec = vec![];
    if with & 1 != 0 {
        spec.extend_from_slice(b"[metadata]\noutput = \"dist/i.iso\"\n");
    }
    spec.extend_from_slice(b"[map_rules]\na = \"/a\"\nd = \"/d\"\n");
    let spec_at = if case == 5 { w } else { src };
    let name = if case == 4 || case == 7 { "other.toml" } else { "xdvdfs.toml" };
    f.file(spec_at, name, spec);
    if mode & FAULT != 0 {
        f.fault = sym::u8("fault") as u64;
    }
    let mut args = vec!["build-image"];
    match case {
        0 => {
            f.cwd = src;
        }
        1 => args.push("src.v1"),
        2 => args.push("src.v1/xdvdfs.toml"),
        3 => {
            f.cwd = src;
            args.push("xdvdfs.toml");
        }
        4 => args.push("src.v1/other.toml"),
        5 => {
            args.push("-f");
            args.push("xdvdfs.toml");
            args.push("src.v1");
        }
        6 => {
            f.cwd = src;
            args.push(".");
        }
        7 => {
            f.cwd = src;
            args.push("./other.toml");
        }
        _ => {
            f.cwd = f.child(src, b"dist").unwrap();
            args.push("..");
        }
    }
    if with & 2 != 0 {
        // relative to the working directory
        args.push("own.iso");
    }
    let r = run(&args);
    let (at, out): (usize, &[u8]) = match with {
        0 => (w, b"src.v1.xiso.iso"),
        1 => (f.child(src, b"dist").unwrap(), b"i.iso"),
        _ => (f.cwd, b"own.iso"),
    };
    for (_, n) in &f.log {
        sym::check(f.nodes[*n].parent == at && f.nodes[*n].name == out, "nothing but the output is written");
    }
    kept(&t, 0, src);
    if r.is_ok() {
        let o = f.child(at, out);
        sym::check(o.is_some(), "the output is where it is asked for");
        let Some(o) = o else { return };
        sym::check(matches(&f.nodes[o].data, &t), "the image holds what the rules say");
        sym::reach("built");
    } else {
        sym::check(f.faulted, "the image is built");
        sym::reach("failed");
    }
}

/// The names of outputs that are not given. cmd 0: pack, 1: compress, 2: extract-xiso -c,
/// 3: build-image, 4: unpack, 5: extract-xiso -x. The source has a name of k characters.
pub fn h_default(cmd: u64, k: u64, iso: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut n = vec![];
    for _ in 0..k {
        let c = sym::u8("name");
        sym::assume((c == b'.') | (c == b'a') | (c == b'i') | (c == b' '));
        n.push(c);
    }
    // std::path::Path::with_extension does not work for names like "..a"
    sym::assume(n != b"." && !n.starts_with(b".."));
    if iso == 2 {
        n.extend_from_slice(b".iso");
    }
    let mut t = Tree::new();
    t.file(0, "x", b"1234".to_vec());
    // 3: an image in the working directory that has the default name
    let at = if iso == 3 { w } else { f.dir(w, "in") };
    if iso == 3 {
        n.extend_from_slice(if cmd == 1 { b".1.cso" } else { b".iso" });
    }
    let node = if iso == 0 {
        let d = f.dir(at, core::str::from_utf8(&n).unwrap_or("n"));
        plant(&t, 0, d);
        d
    } else {
        f.file(at, core::str::from_utf8(&n).unwrap_or("n"), build(&t, false))
    };
    let _ = node;
    let count = f.nodes.len();
    let mut p = if iso == 3 { b"./".to_vec() } else { b"in/".to_vec() };
    p.extend_from_slice(&n);
    let src = core::str::from_utf8(&p).unwrap_or("n");
    let r = match cmd {
        0 => run(&["pack", src]),
        1 => run(&["compress", src]),
        2 => exiso(&["-c", src]),
        3 => run(&["build-image", "-m", "x:/x", src]),
        4 => run(&["unpack", src]),
        _ => exiso(&["-x", src]),
    };
    // the name without what follows the last dot, if there is something before it
    let mut stem = n.clone();
    if let Some(i) = n.iter().rposition(|c| *c == b'.') {
        if i != 0 {
            stem.truncate(i);
        }
    }
    let base = if iso == 0 { n.clone() } else { stem.clone() };
    let (parent, ext): (usize, &[u8]) = match cmd {
        0 => (w, b".iso"),
        1 => (w, b".1.cso"),
        2 => (at, b".iso"),
        3 => (at, b".xiso.iso"),
        _ => (w, b""),
    };
    let mut want = base.clone();
    want.extend_from_slice(if iso == 3 && cmd == 0 { b".xiso.iso" } else { ext });
    // the name may not be free, or not be one
    let taken = want == n && parent == at;
    sym::check(r.is_ok() || taken, "the output has a name");
    if r.is_err() {
        return;
    }
    let o = f.child(parent, &want);
    sym::check(o.is_some_and(|o| o >= count), "the output is named after the source");
    let Some(o) = o else { return };
    if cmd >= 4 {
        sym::check(f.child(o, b"x").is_some_and(|x| f.nodes[x].data == b"1234"), "the image is unpacked");
    } else if cmd != 1 {
        sym::check(f.nodes[o].kind == Kind::File && matches(&f.nodes[o].data, &t), "the image is complete");
    }
    for (_, n) in &f.log {
        sym::check(f.within(*n, o), "nothing else is written");
    }
    sym::reach("named");
}

/// build-image with an output path of any n characters of "./slon", which may be in the source.
/// rules 0: everything is mapped, 1: s/n is
pub fn h_mapped(rules: u64, spelling: u64, n: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut t = Tree::new();
    t.file(0, "n", data(1, 5));
    let d = t.dir(0, "o");
    t.file(d, "n", data(2, 2050));
    let src = f.dir(w, "s");
    plant(&t, 0, src);
    let a = f.child(src, b"n").unwrap();
    let b = f.child(f.child(src, b"o").unwrap(), b"n").unwrap();
    f.add(w, "l", Kind::Link, b"s".to_vec());
    f.add(w, "n", Kind::Link, b"s/n".to_vec());
    let from = match spelling {
        0 => "s",
        1 => "l",
        2 => "/w/./s/",
        _ => ".",
    };
    if spelling == 3 {
        f.cwd = src;
    }
    let mut to = vec![];
    for _ in 0..n {
        let c = sym::u8("to");
        sym::assume((c == b'.') | (c == b'/') | (c == b's') | (c == b'l') | (c == b'o') | (c == b'n'));
        to.push(c);
    }
    let name = core::str::from_utf8(&to).unwrap_or("n");
    let hit = f.walk(&to, true, 0).ok().and_then(|x| x.2);
    let bad = hit.is_some_and(|h| h == a || (rules == 0 && h == b));
    let r = run(&["build-image", "-m", if rules == 0 { "**:/{1}" } else { "n:/n" }, from, name]);
    if rules != 0 {
        t = Tree { items: t.items[..2].to_vec() };
    }
    kept(&t, 0, src);
    if bad {
        sym::check(r.is_err() && f.log.is_empty(), "a mapped file is not overwritten");
        sym::reach("refused");
    } else if r.is_ok() {
        let o = f.walk(&to, true, 0).ok().and_then(|x| x.2);
        sym::check(o.is_some_and(|o| f.nodes[o].kind == Kind::File && matches(&f.nodes[o].data, &t)), "the image is complete");
        for (_, k) in &f.log {
            sym::check(Some(*k) == o, "nothing but the output is written");
        }
        sym::reach("built");
    }
}
