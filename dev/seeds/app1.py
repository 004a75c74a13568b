D = "xdvdfs-desktop/src/"
W = "xdvdfs-web/src/"
def S(kind, id, needs, breaks, edits, case):
    f = "case.sh" if kind == "desk" else "case.rs"
    head = "" if kind == "desk" else "#[allow(unused_imports)]\nuse crate::{pack, unpack, vfs::fs};\n\n"
    return {"id": id, "property": "C25" if kind == "desk" else "C26", "needs": needs, "breaks": breaks, "edits": edits, kind: True, "files": {f: head + case.lstrip("\n")}}
SEEDS = [
 S("desk", "desk-old-tail", "an image packed again over a longer file", "the end of the old file stays behind the new image",
  [(D+"pack.rs", """        .truncate(true)
""", ""), (D+"pack.rs", """    if meta.is_dir() {
""", """    if meta.is_dir() {
        image.get_ref().set_len(0).map_err(|e| e.to_string())?;
""")], r"""
mkdir a; echo 1 > a/f
"$X" pack a a.iso || fail "pack of a directory"
"$X" pack a.iso b.iso || fail "pack of an image"
head -c 3000000 /dev/zero > c.iso; head -c 3000000 /dev/zero > d.iso
"$X" pack a c.iso || fail "pack of a directory"
cmp a.iso c.iso || fail "directory over a longer file"
"$X" pack a.iso d.iso || fail "pack of an image"
cmp b.iso d.iso || fail "image over a longer file"
"""),
 S("desk", "desk-short-over-long", "an image unpacked over a longer file", "the end of the old file stays behind the extracted contents",
  [(D+"unpack.rs", """            .truncate(true)
""", """            .truncate(dirent.node.dirent.is_empty())
""")], r"""
mkdir -p a/d b; echo 1 > a/f; echo 2 > a/d/g; : > a/e
"$X" pack a a.iso || fail pack
"$X" unpack a.iso n || fail unpack
diff -r a n || fail "what is extracted differs"
echo "longer than before" > b/f; echo "longer" > b/e
"$X" unpack a.iso b || fail "unpack over other files"
diff -r a b || fail "what is extracted over other files differs"
"""),
 S("web", "web-length-of-last", "a write below the end of the file comes last", "the padding of an image overwrites what is at its end",
  [(W+"fs/mod.rs", """        self.len = core::cmp::max(self.len, offset + buffer_len);""", """        self.len = offset + buffer_len;""")], r"""
pub fn run() {
    let f = fs();
    let a = f.dir(0, "a");
    let d = f.dir(a, "d");
    f.file(d, "f", &[7; 100000]);
    f.file(a, "g", &[8; 5000]);
    let i = f.file(0, "a.iso", b"");
    pack(a, i).unwrap();
    assert_eq!(fs().nodes[i].data.len() % 65536, 0, "not a multiple of 32 sectors");
    let o = fs().dir(0, "o");
    unpack(i, o).unwrap();
    let f = fs();
    let od = f.child(o, b"d").unwrap();
    assert!(f.nodes[f.child(od, b"f").unwrap()].data == [7; 100000]);
    assert!(f.nodes[f.child(o, b"g").unwrap()].data == [8; 5000]);
}
"""),
 S("web", "web-listing-fails", "the listing of a directory fails after its first entry", "the rest of the directory is missing from an image that is reported as finished",
  [(W+"fs/util.rs", """                        Err(e) => {
                            break Err(e);
                        }
                    }
                }
""", """                        Err(e) if vec.is_empty() => {
                            break Err(e);
                        }
                        Err(_) => {
                            break Ok(vec);
                        }
                    }
                }
""")], r"""
pub fn run() {
    for n in 0..40 {
        let f = fs();
        f.nodes.clear();
        let a = f.dir(0, "a");
        f.file(a, "f", b"1234");
        f.file(a, "g", b"5678");
        let i = f.file(0, "a.iso", b"");
        f.fault = n;
        let r = pack(a, i);
        fs().fault = 0;
        if n == 0 {
            r.clone().unwrap();
        }
        if r.is_ok() {
            let o = fs().dir(0, "o");
            unpack(i, o).unwrap();
            assert!(fs().child(o, b"f").is_some() && fs().child(o, b"g").is_some(), "a file is missing (operation {n} failed)");
        }
    }
}
"""),
 S("web", "web-partition-data", "an image that begins with a video partition", "files hold other data than those of the image",
  [(W+"ops/browser.rs", """                            img_offset + offset,
                            img_offset + offset + size,
""", """                            offset,
                            offset + size,
""")], r"""
pub fn run() {
    let f = fs();
    let a = f.dir(0, "a");
    f.file(a, "f", b"1234");
    let i = f.file(0, "a.iso", b"");
    pack(a, i).unwrap();
    for pad in [0, 34078720] {
        fs().nodes[i].pad = pad;
        let o = fs().dir(0, "o");
        unpack(i, o).unwrap();
        let f = fs();
        assert_eq!(f.nodes[f.child(o, b"f").unwrap()].data, b"1234");
    }
}
"""),
]
