//! Names of the outputs of the desktop application.
use crate::h_cli::*;
use crate::h_pack::*;
use crate::image::*;
use crate::sym;
use crate::vfs::fs;

/// A directory (kind 0) or an image (kind 1) whose name is any `k` characters out of `.`, space, a and i.
pub fn h_name(kind: u64, k: u64, _c: u64, _d: u64) {
    let w = setup();
    let f = fs();
    let mut t = Tree::new();
    t.file(0, "x", b"1234".to_vec());
    let mut name = vec![];
    for _ in 0..k {
        let c = sym::u8("name");
        sym::assume((c == b'.') | (c == b' ') | (c == b'a') | (c == b'i'));
        name.push(c);
    }
    sym::assume((name != b".") & (name != b".."));
    let text = core::str::from_utf8(&name).unwrap_or("a");
    let o = f.dir(w, "o");
    let sub = f.dir(w, "sub");
    if kind == 0 {
        let s = f.dir(o, text);
        plant(&t, 0, s);
    } else {
        f.file(o, text, build(&t, false));
    }
    let src = format!("o/{}", text);
    let r = run(&["compress", &src, "sub"]);
    let mut made = vec![];
    for i in 1..f.nodes.len() {
        if f.nodes[i].new && f.nodes[i].live {
            sym::check(f.nodes[i].parent == sub, "the output is in the directory that was chosen");
            made.push(i);
        }
    }
    if r.is_ok() {
        sym::check(made.len() == 1, "there is one part");
        let Some(m) = made.first() else { return };
        let got = &f.nodes[*m].name;
        if kind == 0 {
            let mut want = name.clone();
            want.extend_from_slice(b".1.cso");
            sym::check(*got == want, "the output is named after the whole name of the directory");
        } else {
            sym::check(got.ends_with(b".1.cso") && got.len() > 6, "the output has the extension of a compressed image");
        }
        sym::reach("named");
    } else {
        sym::check(made.is_empty(), "nothing is left behind");
        sym::check(kind == 1 || name.starts_with(b".."), "a source with an ordinary name is compressed");
    }
}
