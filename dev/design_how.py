# property: (what is specified against which oracle, why this reaches what tests cannot, cost of the quick run)
HOW = {
"C01": ("`h_pack` builds a tree of one of seven shapes in MemFs (names and/or sizes symbolic), runs `create_xdvdfs_image` against RecDev, then reads the recorded image back with the real reader and compares names, kinds, sizes and, at one symbolic position per file, the origin of the byte with MemFs. `h_big` does the same for directories over many sectors with one name of symbolic length; `h_toolarge` any 64-bit size; `h_scan_full` the sequential scan at sector ends. Oracle: the model tree.",
        "the layout depends on every name length and size at once (records moved to the next sector, sector rounding); the tests fix them.", "about 100 s."),
"C02": ("packs a tree, then looks up every entry with symbolic case flips, and an arbitrary query; the answer must be the entry that equals the query up to ASCII case, or `DoesNotExist`. `h_foreign` writes every search tree shape of three records by hand (absent children as 0 or 0xffff), `h_path_string` any ASCII path string. Oracle: comparison in the harness, not the crate's.",
        "lookup correctness is a statement about all pairs (directory, query) and all shapes other tools write.", "about 40 s."),
"C03": ("RecDev records every write as an extent; the harness asserts write-once, nothing before sector 32, pairwise disjoint regions (from the reader's view of each entry), no record over a sector end, total length a multiple of 64 KiB. Sizes are any 32-bit values.",
        "sizes such as 0xfffff801 or a table that ends exactly on a boundary are solver-chosen.", "about 40 s."),
"C04": ("the device holds arbitrary (symbolic) bytes; every read operation is run to completion; each panic, overflow check, slice bound and out-of-object access on any path is a violation. `h_damaged` runs the commands (from main(), on the file model) and the requests of a mounted image on an image in which bytes of a record or of the volume descriptor are arbitrary.",
        "all byte strings of the bounded length, not a fuzzer's sample.", "about 50 s."),
"C05": ("records with arbitrary links and directories with arbitrary containment; the device counts reads and the harness asserts a bound linear in the number of records and that no record is listed twice. `h_damaged` counts the operations of the C library that a command needs.",
        "every cycle shape of the bounded size.", "about 20 s."),
"C06": ("reads and writes records and volumes with symbolic fields, compared with an independent byte-level statement of the layout; acceptance is asserted to be equivalent to both magics.", "equivalence over all field values.", "about 10 s."),
"C07": ("names of symbolic characters are encoded (refused or stored) and decoded against an independent table of Windows-1252; lengths around 255; image-to-image copies.", "all of the 1.1 million characters, and pairs.", "about 15 s."),
"C08": ("pairs and triples of symbolic names; the comparison is compared with the definition (fold ASCII, compare characters) and checked for antisymmetry and transitivity.", "all pairs within the bounds.", "about 20 s."),
"C09": ("after packing, the directory table bytes are walked by the harness itself: order, each entry once, root first, depth of an AVL tree; insertion orders are symbolic through the names.", "every insertion order of 4 (5) names forks inside the real rotations.", "about 40 s."),
"C10": ("`read_data`, `read_data_all`, `read_data_offset` on regions with any start, size and requested range against a device that says which byte is where and can fail at any read.", "every 64-bit offset and count, including wrap-around.", "about 10 s."),
"C11": ("`Disc` holds any subset of the four partitions; the chosen offset and every later read, write and seek must be shifted by it.", "all subsets and positions.", "about 10 s."),
"C12": ("slices, vectors, boxed slices and `Cursor`s of symbolic bytes; any 64-bit offset; success exactly when in range, and then byte for byte.", "offset + length near 2^64.", "about 10 s."),
"C13": ("`SectorLinearBlockDevice` and its filesystem are run beside a plain pack of the same tree; every sector handed to the compressor is compared at a symbolic byte position.", "all combinations of boundary sizes.", "about 15 s."),
"C14": ("packs an image from a recorded image and compares the trees; `RWCopier::copy` for any length and positions.", "any length up to several MB is one query per chunk count.", "about 20 s."),
"C15": ("the real program (main, clap, std::fs) runs on the file model; SHA3 is replaced by a recorder, and the recorded stream must equal path/contents in path order as computed by the harness from the tree, for two layouts of the same tree and for partitions.", "symbolic names decide the order; two layouts of the same tree give the same digest for all of them.", "about 30 s."),
"C16": ("the real program unpacks images whose names hold arbitrary bytes; the file model records every operation. Exit 0 implies that the target is exactly the tree; anything outside of the target or the image being touched is a violation; with a fault at any point exit 0 is a violation unless complete.", "names are any bytes (`..`, `/`, NUL); the failing operation is any of all operations.", "about 45 s."),
"C17": ("`RemapOverlayFilesystem` (wax globs included, executed symbolically) over a model host tree with symbolic names; the oracle is an evaluator of the rule sets written in the harness; copies are recorded and must come from the right host file.", "names decide which rule matches; all of them within the alphabet.", "about 50 s."),
"C18": ("xdvdfsd's request handlers run with fuser replaced by a stand-in of the same interface whose replies record the answer, and tokio by a stand-in that polls futures in place. Names, offsets, buffer sizes, open flags, the failing read and the length of the image are symbolic; the oracle is the tree of the image. `h_mount` runs main(), with `fork` modelled as child first, parent after.", "offsets of 63 bits, every buffer size and resume point, every fault position.", "about 50 s."),
"C19": ("a fault flag at every source/device operation (symbolic index): the operation as a whole must return an error if a fault was delivered and succeed if not.", "every fault point of every operation.", "about 10 s."),
"C20": ("pack, build-image and compress from main() on the file model: sources, outputs with arbitrary spelling, links, faults at any point, short reads and writes, files that shrink. The output is read back by an independent reader of the harness and must be the tree; nothing else may change. compress: the CISO file is decoded by the harness.", "any output path string, any fault point.", "about 85 s."),
"C21": ("the callbacks recorded while packing are compared with the tree and the image; with a fault `FinishedPacking` must not appear.", "counts and sectors for all sizes; fault points.", "about 10 s."),
"C22": ("ls, tree, md5, info (of the volume, of every entry of six trees, of missing paths) and extract-xiso -l from main(); standard output is compared with text computed from the tree and from the records of the image; MD5 is a recorder.", "symbolic names, attribute bytes and fault points.", "about 45 s."),
"C23": ("extract-xiso mode from main() with one to three images, every combination of flags, a fault at any point; after the run at least one complete copy of every image must exist.", "every fault point of the rename/delete sequence.", "about 30 s."),
"C24": ("image-spec from is run, its output is fed to build-image in the same model, and the result is compared with build-image with the options.", "rule characters are symbolic, so TOML escaping is covered by the solver.", "about 25 s."),
"C26": ("xdvdfs-web/src/ops and src/fs are compiled for the host with the JavaScript crates and the binding file replaced by a model of promises, values and the File System Access API (harness/web/src/js.rs), and run through the harnesses of C16/C20/C25: an answer `Ok` means success, a panic is a violation (in a browser the view then waits forever).",
        "every promise can be the one that fails; names are any bytes; nothing in the repository tests these files.", "about 15 s."),
"C25": ("the three commands of xdvdfs-desktop are compiled with tauri replaced by a stand-in of the same interface (the build script removes the attribute macro only) and run through the same harnesses as C16/C20: an answer without a message means success.", "as C16/C20.", "about 20 s."),
}

for _i in ("C01", "C02", "C10", "C11", "C13", "C14", "C17", "C19"):
    _t = list(HOW[_i])
    _t[0] += " The same promise is also checked where the programs use the code: jobs of the crates cli, fsd, desk and web run it through the real std::fs code on the file model, since a change there (std::fs adapters, copiers, commands) breaks the property just as well."
    HOW[_i] = tuple(_t)
