//! C04, C05: the commands on a damaged image.
use crate::h_cli::*;
use crate::h_pack::trees;
use crate::image::*;
use crate::sym;
use crate::vfs::{fs, Kind};

const CUT: u64 = 1 << 20; // the image file ends anywhere
const PARTITION: u64 = 2 << 20; // the image is a game partition

/// the operations that the largest command needs on an image of this size, many times over
const PLENTY: u64 = 6000;

/// The record of the item `at` of a tree (0: the root's region in the volume) has arbitrary bytes where `mask` says so:
/// of a record, bits 0..14 stand for its bytes, bit 14 for the first of its name; of the volume, bits 0..8 stand for the
/// root's sector and size and bit 8 for one byte of each magic. Links, sectors and lengths of
/// names: bytes below 48 and above 253.
/// cmd 0: ls, 1: tree, 2: md5, 3: md5 of a path, 4: info, 5: info of a path, 6: checksum, 7: unpack, 8: copy-out of a
/// path, 9: extract-xiso -l, 10: extract-xiso -d, 11: pack from the image, 12: ls of a path
pub fn h_damaged(cmd: u64, shape: u64, at: u64, mask: u64) {
    let w = setup();
    let f = fs();
    let mut t = trees(shape);
    for (n, i) in t.items.iter_mut().enumerate() {
        let z = i.data.len();
        i.data = pattern(n as u8, z);
    }
    let mut img = build(&t, false);
    let v = 32 * 2048;
    let i = at as usize;
    let put = |img: &mut Vec<u8>, p: usize, few: bool, fix: bool| {
        let b = sym::u8("byte");
        sym::assume(!few | (b < 48) | (b >= 0xfe));
        img[p] = if fix { sym::concretize(b as u64) as u8 } else { b };
    };
    if i == 0 {
        for b in 0..8 {
            if mask >> b & 1 != 0 {
                put(&mut img, v + 20 + b, b < 4, true);
            }
        }
        if mask >> 8 & 1 != 0 {
            put(&mut img, v + 7, false, false);
            put(&mut img, v + 2048 - 3, false, false);
        }
    } else {
        let (table, o) = record(&img, &t, i);
        for b in 0..15 {
            if mask >> b & 1 != 0 {
                put(&mut img, table + o + b, b < 8 || b == 13, b >= 4 && b < 8 || b == 13);
            }
        }
    }
    if mask & CUT != 0 {
        let keep = sym::len("cut", 0, img.len() / 512) * 512;
        img.truncate(keep);
    }
    let n = f.file(w, "in.iso", img);
    if mask & PARTITION != 0 {
        f.nodes[n].pad = 34078720;
    }
    let last = t.path(t.items.len() - 1);
    let path = core::str::from_utf8(&last).unwrap_or("/");
    f.limit = PLENTY;
    let r = match cmd {
        0 => run(&["ls", "in.iso"]),
        1 => run(&["tree", "in.iso"]),
        2 => run(&["md5", "in.iso"]),
        3 => run(&["md5", "in.iso", path]),
        4 => run(&["info", "in.iso"]),
        5 => run(&["info", "in.iso", path]),
        6 => run(&["checksum", "in.iso"]),
        7 => run(&["unpack", "in.iso", "t"]),
        8 => run(&["copy-out", "in.iso", path, "t"]),
        9 => exiso(&["-l", "in.iso"]),
        10 => exiso(&["-d", "t", "in.iso"]),
        11 => run(&["pack", "in.iso", "t"]),
        _ => run(&["ls", "in.iso", path]),
    };
    sym::check(f.ops < PLENTY, "the command ends");
    for (_, n) in &f.log {
        let ok = f.child(w, b"t").is_some_and(|t| f.within(*n, t));
        sym::check(ok, "nothing but the target is written");
    }
    sym::check(f.nodes[n].live && f.nodes[n].kind == Kind::File, "the image is kept");
    sym::reach(if r.is_ok() { "done" } else { "refused" });
}
