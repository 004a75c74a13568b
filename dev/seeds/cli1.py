C = "xdvdfs-cli/src/"
K = "xdvdfs-core/src/"
def S(id, property, needs, breaks, edits, case, files={}):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, cli=True, files=dict(files, **{"case.sh": case.lstrip("\n")}))
SEEDS = [
 S("checksum-dirs", "C15", "an image with an empty directory", "directories do not take part in the checksum, so images that differ in an empty directory have the same one",
  [(K+"checksum.rs", """        hasher.update(path.as_bytes());

        if !is_dir {
            let data""", """        if !is_dir {
            hasher.update(path.as_bytes());

            let data""")], r"""
mkdir -p a/d/e b/d
echo 1 > a/d/f; echo 1 > b/d/f
"$X" pack a a.iso >/dev/null && "$X" pack b b.iso >/dev/null || fail pack
x=$("$X" checksum -s a.iso | cut -f1); y=$("$X" checksum -s b.iso | cut -f1)
[ -n "$x" ] && [ "$x" != "$y" ] || fail "different trees, same checksum"
"$X" pack a.iso c.iso >/dev/null || fail repack
[ "$x" = "$("$X" checksum -s c.iso | cut -f1)" ] || fail "same tree, different checksum"
"""),
 S("checksum-folded", "C15", "two directories with files of the same path up to the case of letters, in another order than their names have", "paths are ordered without regard to case, the hashed paths too",
  [(K+"checksum.rs", """        let path = alloc::format!("{}/{}", dir, file.name_str()?);
        iter.insert(path, file);""", """        let path = alloc::format!("{}/{}", dir, file.name_str()?);
        iter.insert(path.to_ascii_lowercase(), file);""")], r"""
mkdir a b
echo 1 > a/Name; echo 1 > b/name
"$X" pack a a.iso >/dev/null && "$X" pack b b.iso >/dev/null || fail pack
x=$("$X" checksum -s a.iso | cut -f1); y=$("$X" checksum -s b.iso | cut -f1)
[ -n "$x" ] && [ "$x" != "$y" ] || fail "different names, same checksum"
"""),
 S("copyout-tail", "C16", "copy-out of a file over an existing longer file", "the target is not truncated, so it keeps the end of what was there",
  [(C+"cmd_unpack.rs", """    let mut file = File::options()
        .write(true)
        .truncate(true)
        .create(true)
        .open(&args.dest_path)?;
""", """    let mut file = File::options()
        .write(true)
        .create(true)
        .open(&args.dest_path)?;
""")], r"""
mkdir a; printf hello > a/f; : > a/e
"$X" pack a a.iso >/dev/null || fail pack
printf 'something longer' > t
"$X" copy-out a.iso /f t || fail copy-out
[ "$(cat t)" = hello ] || fail "the end of the old file is still there"
"$X" copy-out a.iso /e t || fail copy-out
[ -e t ] && [ ! -s t ] || fail "the old file is still there"
"""),
 S("unpack-empty", "C16", "an image with an empty file, extracted over a file that exists", "the file that is there is kept",
  [(C+"cmd_unpack.rs", """        if dirent.node.dirent.filename_length == 0 {
""", """        if dirent.node.dirent.is_empty() && file_path.exists() {
            continue;
        }

        if dirent.node.dirent.filename_length == 0 {
""")], r"""
mkdir -p a/d; printf hello > a/f; : > a/d/e; : > a/d/e.x
"$X" pack a a.iso >/dev/null || fail pack
"$X" unpack a.iso new >/dev/null || fail unpack
diff -r a new || fail "not the same tree"
mkdir a2 out; : > a2/f; "$X" pack a2 a2.iso >/dev/null || fail pack
echo old > out/f
"$X" unpack a2.iso out >/dev/null || fail unpack
diff -r a2 out || fail "the old file is still there"
"""),
 S("tail-of-old-image", "C20", "an output file that exists and is longer than the image", "the output is not truncated, so the image is followed by the old file's data",
  [(C+"cmd_pack.rs", """        .write(true)
        .truncate(true)
        .create(true)
        .open(image_path)?;""", """        .write(true)
        .create(true)
        .open(image_path)?;""")], r"""
mkdir a; printf hello > a/f
head -c 1000000 /dev/zero | tr '\0' x > old.iso
"$X" pack a old.iso >/dev/null && "$X" pack a new.iso >/dev/null || fail pack
cmp old.iso new.iso || fail "the old file is still there"
"""),
 S("default-over-source", "C20", "packing an image that lies in the working directory and is named like the default output, given by a path with directories", "the default output is compared with the path as given, so it is not recognised as the source and packing fails",
  [(C+"cmd_pack.rs", """    if output.exists() && absolute_path(&output)? == source_path {
        return Ok""", """    if output.exists() && output == source_path {
        return Ok""")], r"""
mkdir a; printf hello > a/f
"$X" pack a g.iso >/dev/null || fail pack
"$X" pack ../w/g.iso >/dev/null || fail "pack fails"
[ -e g.xiso.iso ] || fail "no output"
x=$("$X" checksum -s g.iso | cut -f1)
[ "$x" = "$("$X" checksum -s g.xiso.iso | cut -f1)" ] || fail "not the same tree"
"""),
 S("exclusions-first", "C24", "a specification with an exclusion after the rule that includes the entry", "the exclusions of a specification are tried first",
  [(C+"cmd_build_image.rs", """        map_rules.push((key.to_owned(), value));
    }

    Ok(())""", """        map_rules.push((key.to_owned(), value));
    }

    map_rules.sort_by_key(|(host, _)| !host.starts_with('!'));
    Ok(())""")], r"""
mkdir a; echo 1 > a/x.b; echo 2 > a/y.b
"$X" image-spec from -m "*:/{1}" -m "!y.*" spec || fail image-spec
"$X" build-image -f spec a s.iso >/dev/null || fail build
"$X" build-image -m "*:/{1}" -m "!y.*" a o.iso >/dev/null || fail build
cmp s.iso o.iso || fail "the specification means something else"
"""),
 S("spec-backslash", "C24", "a rule with a backslash in the image path, written to a specification", "backslashes become slashes in the specification, but not when the same rule is given as an option",
  [(C+"cmd_build_image.rs", "                toml::Value::String(image.map(|s| s.to_owned()).unwrap_or_default()),", "                toml::Value::String(image.map(|s| s.replace('\\\\', \"/\")).unwrap_or_default()),")], r"""
mkdir a; echo 1 > a/x
"$X" image-spec from -m 'x:/b\s' spec || fail image-spec
"$X" build-image -f spec a s.iso >/dev/null || fail build
"$X" build-image -m 'x:/b\s' a o.iso >/dev/null || fail build
cmp s.iso o.iso || fail "the specification means something else"
"""),
 S("total-wraps", "C22", "an image whose files have more than 4 GiB together", "tree adds sizes up in 32 bits",
  [(C+"cmd_read.rs", "    let mut total_size: usize = 0;", "    let mut total_size: u32 = 0;"), (C+"cmd_read.rs", "total_size += file.node.dirent.data.size() as usize;", "total_size = total_size.wrapping_add(file.node.dirent.data.size());")], r"""
mkdir a; printf 1 > a/f; printf 2 > a/g; printf 3 > a/h
"$X" pack a a.iso >/dev/null || fail pack
# records of f, g and h: size 1 becomes 0x70000000
python3 - <<'P' || exit 2
b = bytearray(open("a.iso", "rb").read())
for n in b"fgh":
    at = b.index(bytes([1, 0, 0, 0, 0x80, 1, n])) if bytes([1, 0, 0, 0, 0x80, 1, n]) in b else b.index(bytes([1, n]), 33 * 2048) - 5
    b[at:at + 4] = (0x70000000).to_bytes(4, "little")
open("a.iso", "wb").write(b)
P
"$X" tree a.iso | grep -q "3 files, $((3 * 0x70000000)) bytes" || { "$X" tree a.iso; fail "wrong total"; }
"""),
 S("md5-path-case", "C22", "md5 of a directory that is not below the root", "paths below a directory that is given are printed without it",
  [(C+"cmd_md5.rs", """        md5_file_tree(img, &tree, file).await?;""", """        let base = file.rsplit_once('/').map_or(file, |(_, name)| name);
        md5_file_tree(img, &tree, base).await?;""")], r"""
mkdir -p a/d/e; printf 1 > a/d/e/f; printf 2 > a/d/g
"$X" pack a a.iso >/dev/null || fail pack
"$X" md5 a.iso /d | grep -q '  /d/e/f$' || fail "the path is not that of the file"
"$X" md5 a.iso /d/e | grep -q '  /d/e/f$' || fail "the path is not that of the file"
"""),
 S("delete-first", "C23", "a rewrite with -D that fails", "the original is deleted even if the rewritten image is not complete",
  [(C+"exiso_compat.rs", """        cmd_pack_path(&renamed_input_path, &dest_path).await?;

        if delete {
            std::fs::remove_file(&renamed_input_path)?;
        }
""", """        let result = cmd_pack_path(&renamed_input_path, &dest_path).await;

        if delete && dest_path.exists() {
            std::fs::remove_file(&renamed_input_path)?;
        }

        result?;
""")], r"""
mkdir a; head -c 3000000 /dev/zero | tr '\0' a > a/f
"$X" pack a g.iso >/dev/null || fail pack
cp g.iso copy.iso
(trap '' XFSZ; ulimit -f 1000; "$X" extract-xiso -D -r g.iso >/dev/null 2>&1) && fail "it can not succeed"
for f in *; do cmp -s "$f" copy.iso && [ "$f" != copy.iso ] && exit 0; done
fail "the image is lost"
"""),
 S("second-extract", "C23", "two images extracted with -d", "only the first image is extracted into the directory",
  [(C+"exiso_compat.rs", """    for xiso in xiso_list {
        cmd_unpack(&UnpackArgs {
            image_path: xiso.clone(),
            path: directory.clone(),
        })
        .await?;
    }
""", """    let mut directory = directory.clone();
    for xiso in xiso_list {
        cmd_unpack(&UnpackArgs {
            image_path: xiso.clone(),
            path: directory.take(),
        })
        .await?;
    }
""")], r"""
mkdir a b; printf 1 > a/f; printf 2 > b/g
"$X" pack a a.iso >/dev/null && "$X" pack b b.iso >/dev/null || fail pack
"$X" extract-xiso -d to -x a.iso b.iso >/dev/null || fail extract
[ -e to/f ] && [ -e to/g ] || fail "not all images are extracted to the directory"
"""),
]
