"""Texts of properties.jsonl and MANIFEST.json (written by gen.py)."""

def P(id, title, statement, over, text, why, files, mech, observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}

R = "xdvdfs-core/src/"
CLI = "xdvdfs-cli/src/"
PROPERTIES = [
    P("C01", "A packed image reads back as exactly the source tree",
      "For every source tree that packing accepts, reading the produced image gives the same tree: the same directories and files at every level, each once, under their exact names, with their kind, size and every byte of contents. Both ways of listing a directory (following the links between entries, and scanning it sequentially) give the same entries. A tree with a file of 4 GiB or more, or with two names in a directory that differ only in case, is refused with an error.",
      ["inputs"], "all source trees: shapes, names, sizes, contents, listing orders",
      "The unit tests pack a handful of fixed trees; names, sizes that cross sector or directory boundaries, and listing orders are combinatorial.",
      [R + "write/img.rs", R + "write/dirtab.rs", R + "write/avl.rs", R + "write/sector.rs", R + "read.rs", R + "layout.rs"],
      [("two passes: table sizes bottom-up, allocation top-down", R + "write/img.rs create_xdvdfs_image"), ("serialisation of a directory", R + "write/dirtab.rs disk_repr")]),
    P("C02", "Path lookup finds exactly the entries that exist, ignoring case",
      "On any well-formed image, whichever tool wrote it, looking up the path of an entry in any ASCII letter case returns that entry, and the lookup agrees with what listing the directories shows. A path that names nothing is reported as not existing; leading and repeated-at-the-ends slashes do not matter; no path string makes the lookup crash.",
      ["inputs"], "all well-formed images, all path strings",
      "The tests look up fixed paths in one fixed image; absent names, odd slashes and case variants at every position of a search tree are not reached.",
      [R + "read.rs", R + "util.rs", R + "write/dirtab.rs"],
      [("binary search by case-folded order", R + "read.rs find_dirent"), ("path splitting", R + "read.rs walk_path")]),
    P("C03", "Image layout: disjoint, in bounds, sector-aligned, 64 KiB padded",
      "In every packed image the volume descriptor sits in sector 32, every file and directory occupies whole sectors after it, all of these regions are disjoint and inside the image, and no directory record crosses a sector boundary. Nothing is written twice or before the volume descriptor, and the image length is a multiple of 64 KiB.",
      ["inputs"], "all source trees and file sizes",
      "Overlaps need particular combinations of sizes (multiples of a sector, zero, sizes near 2^32) and of directory lengths; tests check few.",
      [R + "write/img.rs", R + "write/sector.rs", R + "write/dirtab.rs"],
      [("bump allocation of sectors", R + "write/sector.rs allocate_contiguous"), ("record alignment", R + "write/dirtab.rs")]),
    P("C04", "Reading an arbitrary or damaged image never crashes",
      "Whatever bytes an image holds, every read operation (detecting the volume, listing, recursive listing, sequential scan, path lookup, reading file data) returns a result or an error. It never panics, overflows or reads outside the device.",
      ["inputs"], "all image contents, all path strings, all ranges",
      "Tests read well-formed images only.",
      [R + "read.rs", R + "layout.rs", R + "blockdev.rs"],
      [("explicit error values for malformed records", R + "read.rs"), ("bounds checks of regions", R + "layout.rs DiskRegion::offset")]),
    P("C05", "Reading a cyclic or self-containing directory structure ends",
      "On any image, including one whose entry links form cycles or whose directories contain themselves, listing, recursive listing, sequential scanning, path lookup and repacking finish after a number of device reads bounded by the size of the structure, and list no record more than once.",
      ["inputs"], "all directory link structures, all nestings",
      "No test contains a cyclic structure.",
      [R + "read.rs", R + "write/fs/xdvdfs.rs"],
      [("visited records", R + "read.rs walk_dirent_tree, find_dirent"), ("ancestor directories", R + "read.rs file_tree; " + R + "write/fs/xdvdfs.rs read_dir")]),
    P("C06", "On-disk records are bit exact and invalid volumes are rejected",
      "Directory records and the volume descriptor have the documented little-endian layout, and reading back a written record gives the same values for every value of every field. A record counts as absent exactly when its 14 bytes are all 0x00 or all 0xff. A sector is accepted as a volume descriptor exactly when both magic strings are present.",
      ["inputs"], "all field values, all sector contents near a valid one",
      "Tests serialise a few values.",
      [R + "layout.rs", R + "read.rs"],
      [("serde layout", R + "layout.rs"), ("magic check", R + "layout.rs VolumeDescriptor::is_valid")]),
    P("C07", "File names are stored in Windows-1252 exactly, or refused",
      "A file name is either stored in Windows-1252 and read back unchanged, or packing is refused with an error: a name with a character outside that code page, or longer than 255 stored bytes, is never truncated or replaced. Every stored name byte string decodes to the corresponding characters, and names survive image-to-image copies.",
      ["inputs"], "all names",
      "Tests use short ASCII names; every character and the exact length limit need all values.",
      [R + "layout.rs", R + "write/dirtab.rs", R + "write/fs/mod.rs"],
      [("encode and decode", R + "layout.rs encode_name, name_str"), ("length check", R + "write/dirtab.rs add_node")]),
    P("C08", "The order of names is a total order that ignores ASCII case",
      "Names are compared by their characters after upper-casing ASCII letters, a proper prefix first. The comparison is a total order: exactly the names that differ only in ASCII case are equal, and it is antisymmetric and transitive.",
      ["inputs"], "all pairs and triples of names",
      "Tests sort a few fixed lists.",
      [R + "util.rs", R + "layout.rs"], [("comparison", R + "util.rs cmp_ignore_case_utf8")]),
    P("C09", "Directories are written as balanced search trees in any insertion order",
      "For every set of names and every order in which they are supplied, the directory written is a binary search tree in name order that contains each entry once, rooted at its first record, with the depth of a balanced (AVL) tree. Names that are equal up to case are refused.",
      ["inputs", "histories"], "all insertion orders and names",
      "Rebalancing bugs need particular insertion orders; tests try a few.",
      [R + "write/avl.rs", R + "write/dirtab.rs"], [("rotations", R + "write/avl.rs"), ("preorder renumbering", R + "write/avl.rs reorder_backing_preorder")]),
    P("C10", "Reading file data returns exactly the requested bytes of that file",
      "Reading a whole file, a range of it, or into a buffer returns exactly the bytes of that file at that position; a range is cut at the end of the file and never includes bytes beyond it. Device errors are reported.",
      ["inputs", "fault_sequences"], "all regions, offsets, counts",
      "Ranges at and beyond the end of file are untested.",
      [R + "layout.rs"], [("range arithmetic", R + "layout.rs read_data, read_data_all, read_data_offset, DiskRegion::offset")]),
    P("C11", "Game partitions are detected and all accesses translated",
      "On a disc image the filesystem is looked for at offset 0 and then at the three known game-partition offsets (XGD1, XGD2, XGD3) in that order, and the first one with a valid volume is used; without any, opening is refused. Afterwards every read, write and seek is shifted by exactly that offset.",
      ["inputs"], "all placements of volumes, all positions",
      "No test has a partitioned disc image.",
      [R + "blockdev.rs"], [("probing", R + "blockdev.rs OffsetWrapper::new"), ("translation", R + "blockdev.rs")]),
    P("C12", "In-memory devices transfer exactly the requested range or fail",
      "A read or write on an in-memory device (or any seekable reader) succeeds exactly when the whole range lies inside the device; then it transfers exactly that range and changes nothing else. Otherwise it returns an error and changes nothing; no offset or length makes it crash.",
      ["inputs"], "all offsets, lengths and contents",
      "Tests use in-range accesses.",
      [R + "blockdev.rs"], [("range check", R + "blockdev.rs")]),
    P("C13", "The data fed to CISO compression is the image a plain pack writes",
      "Whether packing from files or from an image, the sequence of sectors handed to the compressor has the same length and the same bytes as the uncompressed image, including partially filled last sectors of files, gaps and padding.",
      ["inputs"], "all source trees, sectors and positions",
      "The compressed path has no unit test with files that do not fill their last sector.",
      [R + "write/fs/sector_linear.rs", R + "write/fs/xdvdfs.rs", R + "write/img.rs"], [("virtual sector map", R + "write/fs/sector_linear.rs")]),
    P("C14", "Repacking an image keeps the tree one to one",
      "Packing an image from an existing image gives an image with exactly the same tree: names, kinds, sizes and contents. Block-to-block copies transfer exactly the requested bytes to the requested place for every length.",
      ["inputs"], "all images, copy lengths and positions",
      "Tests repack a fixed image; chunk boundaries and non-ASCII names are not reached.",
      [R + "write/fs/xdvdfs.rs", R + "write/fs/mod.rs"], [("chunked copy", R + "write/fs/xdvdfs.rs RWCopier::copy"), ("entry cache", R + "write/fs/mod.rs PathPrefixTree")]),
    P("C15", "checksum depends on exactly the names and the contents",
      "The checksum command hashes, for every entry of the image in the order of the full paths, the path and (for files) the contents, and nothing else: it does not depend on where entries are stored, on the layout of the directories, or on whether the volume is a game partition. Each image of a command line gets its own line.",
      ["inputs", "fault_sequences"], "all trees and layouts",
      "No test runs the command; the order of entries and the layout of images are not sampled.",
      [CLI + "cmd_read.rs"], [("checksum", CLI + "cmd_read.rs cmd_checksum")]),
    P("C16", "unpack and copy-out write exactly the entry, below the target",
      "When unpack or copy-out exits with status 0, the target holds exactly the tree (or the entry) of the image: every directory and file with its name and its complete contents, replacing longer files that were there. Nothing outside of the target is created, changed or removed, whatever names the image holds; the image is not changed. If an operation fails, the image ends early, or a name would lead elsewhere, the exit status is not 0.",
      ["inputs", "fault_sequences"], "all names, contents, layouts and failures",
      "Hostile names and failures at particular operations are not tested.",
      [CLI + "cmd_unpack.rs"], [("extraction", CLI + "cmd_unpack.rs")]),
    P("C17", "Path rewriting maps exactly the entries its rules say",
      "With remapping rules, the image contains exactly the host entries that match some rule (or lie below a matching directory), each at the path its rule rewrites it to: the rules are tried in the given order, the first matching rule that is not an exclusion decides, an exclusion drops what earlier rules included, and a later rule can include it again. References {n} stand for the n-th glob match ({0} for the whole path) and are replaced by the matched text unchanged; malformed references are refused with an error. A mapped file keeps its size and its contents come from its host file. A dry run lists exactly the mapped entries.",
      ["inputs"], "all host trees and rule sets",
      "Unit tests check a few fixed trees and rules; interactions of order, exclusion, captures and names that look like references are not sampled.",
      [R + "write/fs/remap.rs"],
      [("rule evaluation", R + "write/fs/remap.rs RemapOverlayFilesystem::new"), ("overlay tree", R + "write/fs/mod.rs PathPrefixTree")]),
    P("C19", "Input/output failures are always reported",
      "If any listing, read, write or copy operation of the source or the device fails while an image is packed, repacked, listed, searched or read, the operation as a whole returns an error; it never reports success or completion. Without a failure it succeeds.",
      ["fault_sequences"], "a failure at every operation",
      "No test injects failures.",
      [R + "write/img.rs", R + "read.rs", R + "write/fs/xdvdfs.rs", R + "layout.rs"], [("error propagation", R + "write/img.rs")]),
    P("C20", "pack, build-image and compress make complete images and keep the source",
      "When pack, build-image or compress exits with status 0, the output file holds an image of exactly the source tree (compress: the data read back from the compressed image). Without an output path the image is named after the whole name of the source (for build-image: where the specification says). The source is never changed, nothing but the output file is written, and an output path that means the source (for build-image: a file that is mapped into the image), or a place inside of a source directory that is packed or compressed, however it is spelled, is refused before anything is touched. If any operation fails, or a file has lost data since it was listed, the exit status is not 0. Without a failure the command succeeds.",
      ["inputs", "fault_sequences"], "all output paths, contents, and failures at every operation",
      "The commands themselves are untested; failures while the end of a file is written, and spellings of paths, are not sampled.",
      [CLI + "cmd_pack.rs", CLI + "cmd_build_image.rs", CLI + "cmd_compress.rs", CLI + "img.rs", R + "write/img.rs"],
      [("output path checks", CLI + "img.rs absolute_path"), ("image writing", R + "write/img.rs")]),
    P("C21", "Progress reports match what is packed",
      "While packing, the announced entry and directory counts equal the number of entries and directories reported afterwards and present in the source; each reported entry is in the image at the reported sector. Completion is reported exactly once, last, and only if packing succeeds.",
      ["inputs", "fault_sequences"], "all trees, a failure at every point",
      "No test looks at progress events.",
      [R + "write/img.rs"], [("callbacks", R + "write/img.rs create_xdvdfs_image, create_dirent_tables")]),
    P("C22", "ls, tree, md5 and info report exactly what the image holds",
      "ls and tree (and extract-xiso -l) print exactly the entries of the directory or of the whole image with their sizes and totals, md5 prints the digest of exactly the contents of each file (or of the file or directory asked for) with its path, and info prints the fields of the volume and of the entries. A path that is not there, a file where a directory is needed, or a failing read give an exit status other than 0. The commands change no file.",
      ["inputs", "fault_sequences"], "all trees, names, layouts and failures",
      "No test runs the commands.",
      [CLI + "cmd_read.rs", CLI + "cmd_md5.rs", CLI + "cmd_info.rs"], [("listing", CLI + "cmd_read.rs"), ("digests", CLI + "cmd_md5.rs"), ("metadata", CLI + "cmd_info.rs")]),
    P("C23", "extract-xiso mode does what its options say and never loses an image",
      "-c makes one image per directory given, each complete, under the name given or the default one, refusing outputs that are the source or inside of it; -x (the default) extracts each image completely, below the directory given with -d or below the default one; -r rewrites each image into a complete image with the same tree, in the place of the original or in the directory given with -d; the original is kept under another name, or with -D deleted once the new image is complete: a failure never leaves the user without a complete copy of the image, and gives an exit status other than 0.",
      ["inputs", "fault_sequences"], "all option combinations, a failure at every operation",
      "No test runs this mode; the window between writing the new image and deleting the old one is not sampled.",
      [CLI + "exiso_compat.rs"], [("rewrite", CLI + "exiso_compat.rs")]),
    P("C18", "A mounted image shows exactly the image",
      "A mounted image shows exactly what the image holds: a lookup finds an entry under its name in any case with its kind and size and says that any other name does not exist, a directory lists each of its entries exactly once whatever the sizes of the buffers and wherever the listing is continued, lookups, listings and attributes agree on inode numbers, and a read gives the bytes of the file at the offset, cut at its end. A device failure or a damaged image shows as an error of the request, never as other contents or as an absent entry, and has no effect on later requests. Nothing can be opened for writing or changed. The program, forked or not, exits with 0 only when the image is mounted, and passes the mount options on.",
      ["inputs", "fault_sequences"], "all names, offsets, buffer sizes, failures and option lists",
      "No test mounts an image; buffer boundaries, failures and the parent of a fork cannot be sampled by unit tests.",
      ["xdvdfs-fsd/src/img_fs.rs", "xdvdfs-fsd/src/main.rs", "xdvdfs-core/src/read.rs"], [("requests", "xdvdfs-fsd/src/img_fs.rs"), ("mounting", "xdvdfs-fsd/src/main.rs"), ("forking", "xdvdfs-fsd/src/daemonize.rs")]),
    P("C24", "A generated image specification means the same as the options",
      "A specification that `image-spec from` writes (to a file or the standard output) for rules and an output path given as options makes build-image build the same image at the same place as the options themselves, whatever characters the rules hold and in whatever order they are; rules that a specification cannot hold (the same host path more than once) are refused. A failure to write the specification gives an exit status other than 0.",
      ["inputs", "fault_sequences"], "all rule lists and output paths",
      "No test runs image-spec; quoting, order and repeated paths are not sampled.",
      [CLI + "cmd_build_image.rs"], [("generation", CLI + "cmd_build_image.rs cmd_image_spec"), ("reading", CLI + "cmd_build_image.rs deserialize_overlay_config")]),
    P("C25", "The desktop application reports every failure and keeps the source",
      "When a command of the desktop application (pack_image, unpack_image, compress_image) answers without a message, which the user is shown as success, its output is complete: pack's file holds an image of exactly the source tree, unpack's directory exactly the tree of the image, and compress's directory one compressed image of the source tree, named after the source. Every failure of an operation, an image that ends early, a file that lost data since it was listed, and a name that would lead elsewhere is answered with a message. The source is never changed, nothing but the output is written, and an output that is the source or inside of it, however it is spelled, is refused before anything is touched.",
      ["inputs", "fault_sequences"], "all trees, names, paths and failures",
      "The application has no tests; failures and hostile names are not sampled.",
      ["xdvdfs-desktop/src/pack.rs", "xdvdfs-desktop/src/unpack.rs", "xdvdfs-desktop/src/compress.rs"], [("pack", "xdvdfs-desktop/src/pack.rs pack_image"), ("unpack", "xdvdfs-desktop/src/unpack.rs unpack_image"), ("compress", "xdvdfs-desktop/src/compress.rs compress_image")]),
    P("C26", "The web application reports every failure and completes its output",
      "When an operation of the web application (pack_image, unpack_image, compress_image in the browser) answers Ok, which the user is shown as finished, its output is complete and closed: pack's file holds an image of exactly the source tree, unpack's directory holds exactly the tree of the image (an existing file is replaced, also by an empty one), and compress's directory one compressed image of the source tree, named after the whole name of the source directory. If any browser operation fails, an image ends early, or a file has lost data since it was listed, the operation answers with an error; it never panics. Nothing but the output is changed.",
      ["inputs", "fault_sequences"], "all trees, names and failures of browser operations",
      "The application has no tests, and they would need a browser; failures of single promises cannot be provoked there.",
      ["xdvdfs-web/src/ops/browser.rs", "xdvdfs-web/src/fs/mod.rs", "xdvdfs-web/src/fs/ciso.rs", "xdvdfs-web/src/fs/util.rs"], [("operations", "xdvdfs-web/src/ops/browser.rs"), ("file system layer", "xdvdfs-web/src/fs/mod.rs"), ("output parts", "xdvdfs-web/src/fs/ciso.rs")]),
]

NOT_APPLICABLE = []

LEVEL_NOTE = "Bounded: z3 decides every branch and every check for all inputs within the stated bounds, on the LLVM IR compiled from /repo's current source; nothing is claimed outside them. Trusted: rustc up to LLVM IR, the executor symx, z3, the device and filesystem models. Sampled path models are replayed on the native build and must agree; counterexamples must reproduce natively."
