F = "xdvdfs-fsd/src/"
K = "xdvdfs-core/src/"
PRE = r"""
mkdir -p a/d/e a/d/f a/e
printf 'hello, world' > a/B.txt
printf abc > a/d/B.txt
: > a/empty
: > a/d/e/none
"$X" pack a in.iso >/dev/null || fail pack
mkdir mnt
run() { FUSE_SCRIPT=script timeout 20 "$D" -o nofork in.iso mnt > got 2> err; }
"""
def S(id, needs, breaks, edits, case):
    return dict(id=id, property="C18", needs=needs, breaks=breaks, edits=edits, fsd=True, files={"case.sh": PRE.lstrip("\n") + case.lstrip("\n")})
SEEDS = [
 S("mount-offset-wraps", "a read at an offset of 4 GiB or more of a mounted file", "the offset is cut to 32 bits, so reads far behind the end of a file give its contents again",
  [(F+"img_fs.rs", ".read_data_offset(&mut self.device, size as u64, offset as u64);", ".read_data_offset(&mut self.device, size as u64, (offset as u32).into());")], r"""
cat > script <<'S'
cat /B.txt 7 5
cat /B.txt 4294967296 5
cat /B.txt 12 5
S
run || fail mount
cat > want <<'S'
cat /B.txt: world
cat /B.txt: 
cat /B.txt: 
S
diff got want || fail "a read behind the end"
"""),
 S("mount-listing-cut", "a device error (or a cut image) while a mounted directory of more than one sector is listed", "the listing ends there as if it were complete",
  [(F+"img_fs.rs", """                    idx += 1;
                }
                Ok(None) => break,
                Err(_) => {
                    reply.error(libc::EIO);
                    return;
                }
""", """                    idx += 1;
                }
                Ok(None) | Err(_) => break,
""")], r"""
i=10; n=abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz
mkdir b; while [ $i -lt 60 ]; do : > b/$n$i; i=$((i+1)); done
"$X" pack b in.iso >/dev/null || fail pack
cat > script <<'S'
ls / 65536
S
run || fail mount
[ "$(grep -c abc got)" = 50 ] || fail "all entries"
truncate -s $((34*2048)) in.iso
run || fail mount
grep -q 'error 5' got || fail "half of a directory is listed as if it were all of it"
"""),
 S("mount-same-inode", "a mounted image with two files of the same name and size in different directories", "inode numbers follow name and size, so such files are one",
  [(F+"img_fs.rs", "    inode_rev_lookup: HashMap<DirectoryEntryNode, u64>,", "    inode_rev_lookup: HashMap<([u8; 256], u32), u64>,"),
   (F+"img_fs.rs", "        let inode = self.inode_rev_lookup.get(dirent);", "        let key = (dirent.name, dirent.node.dirent.data.size);\n        let inode = self.inode_rev_lookup.get(&key);"),
   (F+"img_fs.rs", "        self.inode_rev_lookup.insert(*dirent, self.next_inode);", "        self.inode_rev_lookup.insert(key, self.next_inode);"),
  ], r"""
printf 'HELLO, WORLD' > a/d/B.txt
"$X" pack a in.iso >/dev/null || fail pack
cat > script <<'S'
cat /B.txt 0 20
cat /d/B.txt 0 20
cat /B.txt 0 20
S
run || fail mount
cat > want <<'S'
cat /B.txt: hello, world
cat /d/B.txt: HELLO, WORLD
cat /B.txt: hello, world
S
diff got want || fail "different files, one inode"
"""),
 S("mount-read-cache", "two reads of a mounted file where the second begins inside the first and goes on behind it", "the data of the last read is kept and answers reads that begin inside it, cut at its end",
  [(F+"img_fs.rs", "    cache: FuseFilesystemCache,\n", "    cache: FuseFilesystemCache,\n    last: Option<(u64, u64, Box<[u8]>)>,\n"),
   (F+"img_fs.rs", "            cache: FuseFilesystemCache::new(),\n", "            cache: FuseFilesystemCache::new(),\n            last: None,\n"),
   (F+"img_fs.rs", """        let data =
            dirent
""", """        let start = offset as u64;
        if let Some((last_ino, last_start, data)) = &self.last {
            let last_end = last_start + data.len() as u64;
            if *last_ino == ino && start >= *last_start && start < last_end {
                let begin = (start - last_start) as usize;
                let end = data.len().min(begin + size as usize);
                reply.data(&data[begin..end]);
                return;
            }
        }

        let data =
            dirent
"""),
   (F+"img_fs.rs", "            Ok(data) => reply.data(data.as_ref()),\n", "            Ok(data) => {\n                reply.data(data.as_ref());\n                self.last = Some((ino, start, data));\n            }\n"),
  ], r"""
cat > script <<'S'
cat /B.txt 0 5
cat /B.txt 1 3
cat /B.txt 3 6
cat /d/B.txt 0 3
cat /B.txt 0 3
S
run || fail mount
cat > want <<'S'
cat /B.txt: hello
cat /B.txt: ell
cat /B.txt: lo, wo
cat /d/B.txt: abc
cat /B.txt: hel
S
diff got want || fail "overlapping reads"
"""),
 S("mount-parent-waits", "the daemon in the background fails to open or mount the image", "the launching process keeps its end of the pipe open and waits forever",
  [(F+"daemonize.rs", "                std::mem::drop(w);\n", "")], r"""
: > script
FUSE_SCRIPT=script timeout 20 "$D" in.iso mnt || fail "a good mount"
head -c 100000 /dev/zero > bad.iso
FUSE_SCRIPT=script timeout 20 "$D" bad.iso mnt 2>/dev/null
r=$?
[ $r = 1 ] || fail "status $r"
"""),
 S("mount-fsname", "a mount option whose value holds an equals sign", "the value ends at the second equals sign",
  [(F+"main.rs", "MountOption::FSName(x[7..].into())", "MountOption::FSName(x.split('=').nth(1).unwrap_or_default().into())")], r"""
echo options > script
FUSE_SCRIPT=script timeout 20 "$D" -o nofork,fsname=label=disc,ro in.iso mnt > got || fail mount
grep -q 'label=disc' got || { cat got; fail "the name is cut"; }
grep -q RO got || fail "another option"
"""),
]
