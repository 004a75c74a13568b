"""What is checked: harness crates, and per property the jobs (harness entry + bounds)."""
import re

CRATES = {
    "cli": {"repo_pkgs": ["xdvdfs", "sha3", "md-5", "env_logger"]},
    "remap": {"repo_pkgs": ["xdvdfs"]},
    "fsd": {"repo_pkgs": ["xdvdfs", "env_logger", "fuser", "tokio"]},
    "desk": {"repo_pkgs": ["xdvdfs", "tauri"]},
    "web": {"repo_pkgs": ["xdvdfs"]},
    "core": {"repo_pkgs": ["xdvdfs"]},
}

COMMON_ASSUMPTIONS = [
    "The LLVM IR is what rustc (stable, opt-level 1, overflow checks on) emits for /repo's working tree plus the harness; the code is executed as compiled for x86_64 Linux.",
    "symx (the executor in /verif/engine), z3 and rustc are trusted; completed paths are replayed on the native build and must agree, and every counterexample must reproduce natively before it is reported.",
    "Heap allocation never fails.",
]


def own_functions(funcs):
    out = set()
    for f in funcs:
        if "xdvdfs" in f or re.match(r"_ZN4hcli(?!.*(3vfs|5h_cli))|_ZN4hfsd(?!.*3vfs)|_ZN5hdesk(?!.*3vfs)|_ZN4hweb(?!.*(3vfs|2js))", f):
            out.add(short(f))
    return sorted(out)


def short(f):
    # legacy mangling: _ZN + length-prefixed parts
    m = re.match(r"_ZN(.*)E$", f)
    if not m:
        return f
    s, parts = m.group(1), []
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        n = int(k.group(1))
        s = s[len(k.group(1)):]
        parts.append(s[:n])
        s = s[n:]
    if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]):
        parts.pop()
    t = "::".join(parts)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","), ("..", "::")):
        t = t.replace(a, b)
    return t


def J(entry, *args, time=120, crate="core", reach=(), bounds="", cost=1, thorough=False, **kw):
    d = {"crate": crate, "entry": entry, "args": list(args), "time": time, "reach": list(reach), "bounds": bounds, "cost": cost, "thorough": thorough}
    d.update(kw)
    return d


# flags of h_pack
RT, LK, LAY, SCAN, FN, FS, TREE, BYTES, QUERY = 1, 2, 4, 8, 16, 32, 64, 128, 256


def span(lo, hi):
    return lo << 16 | hi


PROPS = {}


def prop(pid, jobs, bounds, outside, assumptions=()):
    PROPS[pid] = {"jobs": jobs, "bounds": bounds, "outside": outside, "assumptions": list(assumptions)}


SRC = "The source tree is an in-memory model (MemFs) that answers directory listings and hands file data over as (file id, offset) extents or as bytes; the output is a recording device."

prop("C01", [
    J("h_pack", 0, 2, 1, RT + SCAN + FS, reach=["verified", "duplicate"], bounds="2 files, names of 1 symbolic character"),
    J("h_pack", 0, 3, 1, RT + SCAN + FS, reach=["verified", "duplicate"], cost=3, bounds="3 files, names of 1 symbolic character"),
    J("h_pack", 0, 2, 2, RT + SCAN + FS, reach=["verified", "duplicate"], cost=3, bounds="2 files, names of 1..2 symbolic characters"),
    J("h_pack", 0, 2, 1, RT + SCAN + FN, reach=["verified"], bounds="2 files, any 32-bit sizes, any byte position"),
    J("h_pack", 0, 4, 1, RT + FN, reach=["verified"], bounds="4 files, any sizes", cost=4),
    J("h_pack", 1, 2, 1, RT + SCAN + FN, reach=["verified"], bounds="directory with 2 files next to a file, any sizes", cost=2),
    J("h_pack", 2, 2, 1, RT + FN, reach=["verified"], bounds="directories nested 2 deep, any sizes"),
    J("h_pack", 2, 4, 1, RT + FN + FS, reach=["verified"], bounds="directories nested 4 deep"),
    J("h_pack", 2, 2, 1, RT + FS, reach=["verified"], bounds="directories nested 2 deep, symbolic names", cost=2),
    J("h_pack", 3, 1, 1, RT + FS, reach=["verified", "duplicate"], bounds="two sibling directories, symbolic names"),
    J("h_pack", 3, 1, 2, RT + FS, reach=["verified", "duplicate"], bounds="two sibling directories, names of 1..2 characters", cost=5),
    J("h_pack", 4, 2, 1, RT + FS, reach=["verified", "duplicate"], bounds="directories inside two siblings, symbolic names", cost=2),
    J("h_pack", 5, 0, 1, RT + SCAN, reach=["verified"], bounds="empty tree"),
    J("h_pack", 5, 2, 1, RT + SCAN, reach=["verified"], bounds="empty directories, symbolic names"),
    J("h_pack", 6, 2, 1, RT + SCAN + FN, reach=["verified"], bounds="mixed tree, any sizes", cost=3),
    J("h_big", 40, 100, span(1, 255), RT + SCAN, reach=["verified"], bounds="40 entries over 3 sectors, one name of any length 1..255", cost=6),
    J("h_big", 12, 240, span(200, 255), RT + SCAN + (5 << 16), reach=["verified"], bounds="12 long names, one of any length 200..255", cost=2),
    J("h_big", 120, 30, span(1, 40), RT + SCAN + (60 << 16), reach=["verified"], bounds="120 entries", cost=5),
    J("h_toolarge", reach=["accepted", "refused"], bounds="any 64-bit file size"),
    J("h_scan_full", 1, 225, 242, 1, reach=["scanned"], bounds="scan of a full sector, any end of the last record"),
    J("h_scan_full", 2, 225, 242, 0, reach=["scanned"], bounds="scan of two full sectors"),
    J("h_pack", 0, 4, 1, RT + FS, thorough=True, time=900, cost=9, bounds="4 files, names of 1 symbolic character"),
    J("h_pack", 0, 3, 2, RT + FS, thorough=True, time=1800, cost=9, bounds="3 files, names of 1..2 symbolic characters"),
    J("h_pack", 6, 2, 1, RT + SCAN + FS, thorough=True, time=900, cost=9, bounds="mixed tree, symbolic names"),
    J("h_pack", 1, 3, 1, RT + FN, thorough=True, time=900, cost=9, bounds="directory with 3 files, any sizes"),
    J("h_big", 200, 60, span(1, 255), RT + SCAN + (77 << 16), thorough=True, time=1800, cost=9, bounds="200 entries"),
],
    "Trees of up to 4 entries with symbolic names (1..2 ASCII characters, any case and order) or up to 6 entries with symbolic 32-bit sizes; directories nested up to 4; directories of up to 120 entries (quick) / 200 (thorough) over several sectors with one name of any length 1..255; file bytes at a symbolic position.",
    "Larger trees, names with several symbolic characters at once, and simultaneous symbolic names and sizes. Non-ASCII names are under C07.",
    [SRC])

prop("C02", [
    J("h_pack", 0, 2, 1, LK + FS, reach=["verified"], bounds="2 files, lookups in either case"),
    J("h_pack", 0, 3, 1, LK + FS, reach=["verified"], bounds="3 files, lookups in either case", cost=2),
    J("h_pack", 0, 2, 2, LK + FS, reach=["verified"], bounds="2 files, names of 1..2 characters", cost=3),
    J("h_pack", 0, 1, 1, QUERY + FS, reach=["absent", "present"], bounds="1 file, any 1-character query"),
    J("h_pack", 0, 3, 1, QUERY + FS, reach=["absent", "present"], bounds="3 files, any 1-character query", cost=2),
    J("h_pack", 1, 2, 1, LK + QUERY + FS, reach=["absent", "present"], bounds="inside a directory", cost=3),
    J("h_pack", 4, 1, 1, LK + QUERY + FS, reach=["absent", "present"], bounds="nested directories, symbolic names", cost=3),
    J("h_pack", 5, 0, 1, QUERY, reach=["absent"], bounds="empty root"),
    J("h_big", 20, 120, span(1, 255), LK, reach=["verified"], bounds="20 entries over several sectors, every entry looked up", cost=5),
    J("h_big", 90, 20, span(1, 9), LK + (45 << 16), reach=["verified"], bounds="90 entries, every entry looked up", cost=5),
    J("h_avl", 9, 3, 1, QUERY, reach=["absent", "present"], bounds="9 fixed names and a symbolic one, any query", cost=2),
    J("h_path_string", 6, reach=["found", "not found"], bounds="any ASCII path of up to 6 characters on a small tree"),
    J("h_below", reach=["directory", "file"], bounds="entries with any attributes whose contents look like a directory"),
    J("h_foreign", 0, reach=["agree"]), J("h_foreign", 1, reach=["agree"]), J("h_foreign", 2, reach=["agree"]),
    J("h_foreign", 3, reach=["agree"]), J("h_foreign", 4, reach=["agree"], bounds="every search tree shape of 3 entries, absent children as 0 or 0xffff, any names, any query"),
    J("h_pack", 0, 4, 1, QUERY + FS, thorough=True, time=900, cost=9, bounds="4 files, any query"),
    J("h_pack", 0, 3, 2, LK + FS, thorough=True, time=1800, cost=9, bounds="3 files, names of 1..2 characters"),
    J("h_path_string", 10, thorough=True, time=900, cost=5, bounds="paths of up to 10 characters"),
],
    "Directories of up to 3 entries (4 thorough) with symbolic names and any query; directories of 20..90 fixed entries over several sectors; any ASCII path string of up to 6 (10) characters; every search-tree shape of 3 entries as another tool could have written it.",
    "Queries of several symbolic characters against several symbolic names at once; non-ASCII query strings beyond C07/C08.",
    [SRC])

prop("C03", [
    J("h_pack", 0, 2, 1, LAY + FN, reach=["verified"], bounds="2 files, any 32-bit sizes"),
    J("h_pack", 0, 3, 1, LAY + FN, reach=["verified"], bounds="3 files, any sizes", cost=4),
    J("h_pack", 1, 2, 1, LAY + FN, reach=["verified"], bounds="directory with 2 files and a file, any sizes", cost=4),
    J("h_pack", 2, 2, 1, LAY + FN, reach=["verified"], bounds="nested directories, any sizes", cost=2),
    J("h_pack", 6, 2, 1, LAY + FN, reach=["verified"], bounds="mixed tree with empty directory, any sizes", cost=5),
    J("h_pack", 5, 0, 1, LAY, reach=["verified"], bounds="empty tree"),
    J("h_pack", 5, 2, 1, LAY, reach=["verified"], bounds="empty directories"),
    J("h_pack", 0, 2, 2, LAY + FS, reach=["verified"], bounds="2 files, symbolic names", cost=2),
    J("h_big", 40, 100, span(1, 255), LAY, reach=["verified"], bounds="40 entries over 3 sectors, one name of any length", cost=6),
    J("h_big", 16, 113, span(90, 140), LAY + (3 << 16), reach=["verified"], bounds="records of 128 bytes: directory ends at a sector boundary for some length", cost=3),
    J("h_big", 130, 2, span(1, 40), LAY + (9 << 16), reach=["verified"], bounds="130 short records", cost=5),
    J("h_pack", 0, 5, 1, LAY + FN, thorough=True, time=1800, cost=9, bounds="5 files, any sizes"),
    J("h_big", 200, 60, span(1, 255), LAY + (77 << 16), thorough=True, time=1800, cost=9, bounds="200 entries"),
],
    "Up to 4 files and directories with any 32-bit sizes; directories of up to 130 entries (200 thorough) with one name of any length 1..255.",
    "More than 6 objects with symbolic sizes; more than 2^32 sectors in total.",
    [SRC])

prop("C04", [
    J("h_host_walk", 18, 4, reach=["error", "listed many"], bounds="listing 18 arbitrary bytes", cost=3, time=200),
    J("h_host_walk", 20, 1, reach=["error", "listed many"], bounds="listing 20 arbitrary bytes, names of at most 1 byte", cost=9, time=300),
    J("h_host_walk", 22, 1, thorough=True, bounds="listing 22 arbitrary bytes", cost=9, time=900),
    J("h_host_path", 18, 2, 2, reach=["error"], bounds="looking up any 2-character path in 18 arbitrary bytes", cost=3),
    J("h_host_path", 22, 1, 1, reach=["error", "found"], bounds="looking up any name in 22 arbitrary bytes", cost=8, time=300),
    J("h_host_scan", 0, 20, 1, 255, reach=["end"], bounds="scanning 20 arbitrary bytes, any name length", cost=2),
    J("h_host_scan", 1990, 58, 1, 255, reach=["error", "end"], bounds="scanning arbitrary bytes at the end of a sector", cost=2),
    J("h_host_scan", 2012, 36, 2, 255, reach=["error", "end"], bounds="scanning across a sector end", cost=2),
    J("h_host_image", 18, 1, reach=["error", "listed"], bounds="arbitrary root region and 18 arbitrary directory bytes", cost=4),
    J("h_host_cycle", 3, 0, reach=["error", "listed"], bounds="3 records with any links", cost=2),
    J("h_host_cycle", 3, 1, reach=["error", "found"], bounds="3 records with any links, any 1-character query", cost=2),
    J("h_host_dirs", 3, 0, reach=["error", "listed"]), J("h_host_dirs", 3, 1, reach=["error", "packed"], bounds="3 directories with any contents"),
    J("h_path_string", 6, reach=["found", "not found"], bounds="any path string of up to 6 characters"),
    J("h_data", 1, 6, reach=["beyond", "error", "read"], bounds="any region, any range of a file"),
    J("h_name_dec", 3, reach=["decoded"], bounds="names of 3 arbitrary bytes"),
    J("h_volume_read", 3, reach=["accepted", "rejected"]),
    J("h_host_walk", 26, 1, thorough=True, time=3000, cost=9, bounds="listing 26 arbitrary bytes"),
    J("h_host_path", 26, 1, 3, thorough=True, time=3000, cost=9, bounds="any 3-character path in 26 arbitrary bytes"),
    J("h_host_scan", 1900, 148, 1, 255, thorough=True, time=3000, cost=9, bounds="scanning 148 arbitrary bytes"),
    J("h_host_image", 22, 1, thorough=True, time=3000, cost=9, bounds="22 arbitrary directory bytes"),
],
    "Directory data of up to 22 (26 thorough) arbitrary bytes with names of a few bytes; up to 58 (148) arbitrary bytes at a sector end for sequential scans; any root region; any path string of up to 6 characters; any range of a file region.",
    "Longer arbitrary data; what the commands do with records that have several arbitrary fields at once; the panics of the operating system's allocator when a hostile image claims huge files.",
    ["Devices are modelled: a read is exact or fails."])

prop("C05", [
    J("h_host_cycle", 3, 0, reach=["error", "listed"], bounds="listing 3 records with any links", cost=2),
    J("h_host_cycle", 3, 1, reach=["error", "found"], bounds="looking up any name in 3 records with any links", cost=2),
    J("h_host_cycle", 2, 0, reach=["error", "listed"]), J("h_host_cycle", 2, 1, reach=["error", "found"]),
    J("h_host_dirs", 2, 0, reach=["error", "listed"]), J("h_host_dirs", 3, 0, reach=["error", "listed"], bounds="recursive listing of 3 directories that may contain each other"),
    J("h_host_dirs", 4, 0, reach=["error", "listed"], bounds="4 directories", cost=2),
    J("h_host_dirs", 3, 1, reach=["error", "packed"], bounds="repacking 3 directories that may contain each other"),
    J("h_host_walk", 18, 4, reach=["error", "listed many"], bounds="18 arbitrary bytes", cost=3, time=200),
    J("h_host_scan", 0, 20, 1, 255, reach=["end"], bounds="sequential scan of arbitrary bytes", cost=2),
    J("h_host_scan", 2012, 36, 2, 255, reach=["error", "end"], cost=2),
    J("h_scan_full", 1, 225, 242, 1, reach=["scanned"], bounds="scan of a full sector, any end of the last record"),
    J("h_scan_full", 2, 225, 242, 0, reach=["scanned"], bounds="scan of two full sectors"),
    J("h_host_cycle", 4, 0, thorough=True, time=3000, cost=9, bounds="4 records with any links"),
    J("h_host_cycle", 4, 1, thorough=True, time=3000, cost=9),
    J("h_host_dirs", 5, 0, thorough=True, time=1000, cost=5), J("h_host_dirs", 4, 1, thorough=True, time=1000, cost=5),
],
    "Any links among 3 directory records (4 thorough); any containment among 4 directories (5); every run is limited to a fixed number of device reads, far above what an acyclic structure of that size needs.",
    "Longer cycles.",
    ["Termination is decided as: the operation needs no more device reads than a fixed small multiple of the number of records."])

prop("C06", [
    J("h_dirent_codec", bounds="every record"), J("h_dirent_read", 2, bounds="every 14-byte record with a 2-byte name"),
    J("h_dirent_read", 0), J("h_volume_write", bounds="every root table and timestamp"),
] + [J("h_volume_read", k, reach=["accepted", "rejected"] if k < 40 else [], bounds="volume sector with arbitrary bytes in window %d" % k) for k in (0, 1, 2, 3, 10, 20, 25, 30, 40, 41)] + [
    J("h_volume_read", k, thorough=True) for k in range(4, 10)],
    "All 14-byte directory records with names of 0..2 bytes; every root region in a volume descriptor; volume sectors that differ from a valid one in any 48-byte window tried.",
    "Volume sectors with more than 48 arbitrary bytes at once.")

prop("C07", [
    J("h_name_enc", 1, 0, reach=["encoded"]), J("h_name_enc", 2, 0, reach=["encoded", "refused"]), J("h_name_enc", 3, 0, reach=["encoded", "refused"]), J("h_name_enc", 4, 0, reach=["refused"]),
    J("h_name_enc", 1, 2, reach=["encoded", "refused"], cost=2), J("h_name_enc", 2, 1, reach=["encoded", "refused"], cost=2), J("h_name_enc", 1, 3, reach=["encoded", "refused"], cost=2),
    J("h_name_enc", 2, 2, reach=["encoded", "refused"], cost=3, bounds="any two characters"),
    J("h_name_dec", 1, reach=["decoded"]), J("h_name_dec", 3, reach=["decoded"], bounds="any three stored bytes"),
    J("h_name_len", 2, 9, 0, reach=["stored"]), J("h_name_len", 250, 258, 0, reach=["stored", "refused"], bounds="lengths around 255"),
    J("h_name_len", 120, 130, 1, reach=["stored"], bounds="two-byte characters: the limit counts stored bytes"),
    J("h_repack_name", 1, reach=["repacked"], cost=2), J("h_repack_name", 2, reach=["repacked"], cost=2), J("h_repack_name", 3, reach=["repacked"], bounds="every encodable character as the name of a file in a directory of that name, copied from image to image", cost=2),
    J("h_name_enc", 3, 2, thorough=True, time=1200, cost=6), J("h_name_enc", 3, 3, thorough=True, time=1200, cost=6), J("h_name_enc", 4, 2, thorough=True, time=1200, cost=6),
],
    "Every name of one character and every name of two characters of up to 2 (3 thorough) UTF-8 bytes; names of every length around 255 and, with two-byte characters, around 128.",
    "Longer names with several symbolic characters.")

prop("C08", [
    J("h_cmp_order", 3, 1, reach=["case-fold-equal"], bounds="ASCII names of up to 3 characters", cost=2),
    J("h_cmp_order", 2, 2, reach=["case-fold-equal"], bounds="names of up to 2 characters of up to 2 UTF-8 bytes", cost=2),
    J("h_cmp_order", 1, 4, reach=["case-fold-equal"], bounds="any single character"),
    J("h_cmp_order", 3, 2, reach=["case-fold-equal"], cost=3), J("h_cmp_order", 2, 4, reach=["case-fold-equal"], cost=4, bounds="any two characters"),
    J("h_cmp_trans", 2, bounds="three names of up to 2 characters"),
    J("h_cmp_order", 5, 1, thorough=True, time=1800, cost=9), J("h_cmp_trans", 3, thorough=True, time=1800, cost=9),
],
    "All pairs of names of up to 3 ASCII characters or 2 Unicode characters; all triples of up to 2 ASCII characters for transitivity.",
    "Longer names (the comparison is character by character).")

prop("C09", [
    J("h_avl", n, p, 1, TREE + RT, reach=["verified"], bounds="%d names in insertion pattern %d and one symbolic name" % (n, p)) for n in (3, 7, 12) for p in range(5)
] + [
    J("h_avl", 8, 3, 2, TREE, reach=["verified", "duplicate"], bounds="8 names and two symbolic ones", cost=3),
    J("h_avl", 4, 0, 2, TREE, reach=["verified", "duplicate"], cost=2), J("h_avl", 4, 1, 2, TREE, reach=["verified", "duplicate"], cost=2),
    J("h_avl", 20, 2, 1, TREE, reach=["verified"], cost=2), J("h_avl", 33, 3, 1, TREE, reach=["verified"], cost=3), J("h_avl", 30, 0, 1, TREE, reach=["verified"], cost=3),
    J("h_pack", 0, 4, 1, TREE + FS, reach=["verified", "duplicate"], bounds="4 symbolic names in any order", cost=6),
    J("h_pack", 0, 3, 1, TREE + FS, reach=["verified", "duplicate"], cost=2),
    J("h_big", 60, 60, span(1, 255), TREE + RT, reach=["verified"], bounds="60 entries over several sectors", cost=6),
    J("h_pack", 0, 5, 1, TREE + FS, thorough=True, time=3000, cost=9, bounds="5 symbolic names in any order"),
    J("h_avl", 12, 4, 2, TREE, thorough=True, time=1800, cost=9), J("h_avl", 7, 2, 3, TREE, thorough=True, time=3000, cost=9),
],
    "4 (5 thorough) entirely symbolic names in any insertion order; up to 33 fixed names in five insertion patterns with one or two symbolic names inserted after them; 60 entries over several sectors.",
    "Other large insertion orders.",
    [SRC])

prop("C10", [
    J("h_data", 0, 6, reach=["read", "error", "empty"], bounds="whole files"),
    J("h_data", 1, 6, reach=["read", "error", "beyond"], bounds="any range", cost=2),
    J("h_data", 2, 4, reach=["read", "error"], bounds="into a buffer"),
    J("h_pack", 1, 2, 1, RT + FN, reach=["verified"], bounds="through a packed image, any sizes", cost=2),
    J("h_data", 1, 12, thorough=True, time=900, cost=5), J("h_data", 0, 16, thorough=True),
],
    "Any start sector; file sizes up to 6 bytes (16 thorough) with any 64-bit offset and count; device errors at any read.",
    "Larger files at the level of whole reads (the arithmetic is the same; C01 covers any byte of files of any 32-bit size).",
    ["The device is a recording model that fills the buffer or fails."])

prop("C11", [
    J("h_wrap", reach=["raw image", "game partition", "no partition"], bounds="any subset of valid partitions, any position"),
    J("h_wrap_write", 0, reach=["done"]), J("h_wrap_write", 1, reach=["done"]), J("h_wrap_write", 2, reach=["done"]), J("h_wrap_write", 3, reach=["done"]),
],
    "All 16 subsets of partitions holding a valid volume; any 32-bit position for reads, writes, and seeks from the start or relative.",
    "Positions beyond 32 bits; seeks from the end; the value a seek returns.")

prop("C12", [
    J("h_mem", 4, k, reach=["done", "refused", "empty"], bounds="4-byte device, kind %d" % k) for k in range(4)
] + [J("h_mem", 1, k, reach=["done", "refused"]) for k in range(4)] + [J("h_mem", 8, k, thorough=True, time=600, cost=3) for k in range(4)],
    "Devices of 1 and 4 bytes (8 thorough) with arbitrary contents, any 64-bit offset, any length up to one more than the device.",
    "Larger devices.")

prop("C13", [
    J("h_linear", s, m, reach=["compared"], bounds="tree %d, %s" % (s, ("from files", "from an image")[m]), cost=3 if s == 1 else 1) for s in range(5) for m in range(2)
],
    "Five small tree shapes with file sizes 0, 1, 2047, 2048, 2049, 4095, 4096, 5000 in every combination; every sector, any byte position in it.",
    "The CISO container and LZ4 encoding (crate ciso), larger files.",
    [SRC, "The source of file data is a model that returns as many bytes as the file has left."])

prop("C14", [
    J("h_repack", s, 0, RT + LK + LAY + SCAN, reach=["verified"], bounds="tree %d" % s, cost=3 if s == 1 else 1) for s in range(5)
] + [
    J("h_repack", 0, 1, RT, reach=["verified"], bounds="directory with a symbolic name", cost=3),
    J("h_repack_name", 2, reach=["repacked"], cost=2), J("h_repack_name", 3, reach=["repacked"], cost=2),
    J("h_copier", 4000000, reach=["one chunk", "several chunks"], bounds="any length up to 4 MB, any positions"),
    J("h_host_dirs", 3, 1, reach=["error", "packed"]),
    J("h_copier", 20000000, thorough=True, time=900, cost=3),
    J("h_repack", 0, 2, RT, thorough=True, time=1800, cost=5),
],
    "Five small tree shapes with file sizes around sector boundaries; a directory name of any ASCII character or any other encodable character; copies of any length up to 4 MB (20 MB thorough).",
    "Larger trees.",
    ["Source and destination devices are recording models."])

prop("C17", [
    J("h_remap", r, s, 1, 2 if r in (1, 5, 7) else 0, crate="remap", reach=["mapped"], bounds="rules %d, tree %d" % (r, s)) for r in range(8) for s in (0, 1, 2, 3)
] + [
    J("h_remap", r, 4, 0, 0, crate="remap", reach=["mapped"] + ([] if r == 6 else ["file"]), bounds="rules %d, fixed tree of 6 entries" % r) for r in range(8)
] + [
    J("h_remap", r, s, 2, 2 if r in (1, 5, 7) else 0, crate="remap", reach=["mapped"], cost=3, bounds="rules %d, tree %d, names of 2 characters" % (r, s)) for r, s in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (6, 0), (0, 3), (6, 3), (4, 3))
] + [
    J("h_remap", r, s, 2, 2, crate="remap", reach=["mapped"], cost=6, time=900, thorough=True) for r in range(8) for s in (1, 2, 3)
] + [
    J("h_remap", r, 0, 3, 2, crate="remap", reach=["mapped"], cost=6, time=900, thorough=True) for r in range(8)
] + [
    J("h_remap", 0, 4, 0, 1, crate="remap", reach=["failed"], bounds="a listing fails"), J("h_remap", 2, 3, 1, 1, crate="remap", reach=["failed"]),
    J("h_brace", 3, 0, crate="remap", reach=["plain", "reference", "refused"], bounds="rewrite paths of 3 characters from {}01a"),
    J("h_brace", 4, 0, crate="remap", reach=["plain", "reference", "refused"], thorough=True, time=300),
    J("h_brace", 0, 3, crate="remap", reach=["reference"]), J("h_brace", 0, 21, crate="remap", reach=["reference"]),
] + [J("h_literal", k, crate="remap", reach=["inserted"], bounds="matched text that looks like a reference") for k in range(5)]
  + [J("h_dot", k, crate="remap", reach=["kept"], bounds="names that begin with a dot") for k in range(4)],
    "Eight rule sets (literal names, `*`, `**`, alternatives, exclusions, re-inclusions, order, several captures) on five tree shapes; names of 1 and 2 symbolic characters out of `.`, a..e (3 in the thorough run); substitution references of any form up to 4 characters, and of 21 digits.",
    "Other glob constructs (classes, repetitions), other characters, rules that map two host entries to the same image path. For the rule sets with `**` at the front the characters are enumerated by the solver one by one.",
    ["The host tree is an in-memory model; copies are recorded by source entry, offsets and size."])

prop("C19", [
    J("h_fault_pack", 0, 0, reach=["fault", "no fault"]), J("h_fault_pack", 1, 0, reach=["fault", "no fault"], bounds="a failing source operation at any point"),
    J("h_fault_pack", 0, 1, reach=["fault", "no fault"]), J("h_fault_pack", 1, 1, reach=["fault", "no fault"], bounds="a failing device operation at any point"),
] + [J("h_fault_read", 1, k, reach=["fault", "no fault"], bounds="a failing read at any point of operation %d" % k) for k in range(7)] + [
    J("h_data", 0, 6, reach=["error"]), J("h_data", 1, 6, reach=["error"], cost=2), J("h_data", 2, 4, reach=["error"]),
],
    "Trees of 3 and 6 entries; one failing source, copy, write or read operation at every point.",
    "More than one fault per operation; short writes that report success.",
    [SRC])

prop("C21", [
    J("h_progress", 0, 2, 1, FS, reach=["reported", "failed"]), J("h_progress", 4, 1, 1, FS, reach=["reported", "failed"]), J("h_progress", 4, 2, 1, FS, reach=["reported", "failed"], cost=3),
    J("h_progress", 6, 2, 1, FN, reach=["reported"], bounds="mixed tree, any sizes"), J("h_progress", 5, 0, 1, 0, reach=["reported"]), J("h_progress", 2, 3, 1, FN, reach=["reported"]),
    J("h_progress", 1, 3, 1, FS, reach=["reported", "failed"], cost=2),
    J("h_fault_pack", 1, 0, reach=["fault", "no fault"]), J("h_fault_pack", 1, 1, reach=["fault", "no fault"]),
],
    "Trees of up to 6 entries with symbolic names or any sizes; one fault at any point.",
    "Larger trees.",
    [SRC])


def G(entry, grid, reach, bounds="", target="cli", **kw):
    """Jobs of the cli harness over a grid; `reach` may be a function of the arguments."""
    out = []
    for a in grid:
        r = reach(*a) if callable(reach) else reach
        out.append(J(entry, *a, crate=target, reach=r, bounds=bounds(*a) if callable(bounds) else bounds, **kw))
    return out


def product(*a):
    import itertools
    return list(itertools.product(*a))


VFS = "The program runs from its main() on the real std::fs and std::io code; the C library's file functions below are an in-memory model (one process, no permissions, no hard links; operations either work or fail as a whole, except reads and writes, which may be short)."
CLI_OUT = "Hard links, other processes changing files while the command runs, more than one failure, crashes of the machine, trees deeper than 3 levels. The async build of the program differs from the checked sync build in its executor only; `clap` and `std` are part of what is executed."

prop("C15",
    G("h_checksum", product(range(2), range(7), (1, 2), (0, 2, 4, 6)), ["checksum"], lambda c, s, k, m: "tree %d, names of %d characters" % (s, k))
    + G("h_checksum", product((0,), range(7), (1,), (1, 3)), ["checksum", "failed"], "a failing operation at any point"),
    "Seven trees of up to 5 entries; one name of 1 and 2 symbolic printable characters, contents with symbolic bytes; plain images and game partitions, two layouts (order and position of tables and data); one failure at any point.",
    "Names of more than 2 symbolic characters, larger trees, properties of SHA3 (it is replaced by a recorder of the bytes fed to it). " + CLI_OUT, [VFS])

prop("C16",
    G("h_unpack", product(range(5), (1, 2), (0, 2, 4, 16, 32, 64, 128)), lambda s, k, m: ["unpacked"] if m == 64 else ["unpacked", "refused"], lambda s, k, m: "tree %d, names of %d arbitrary bytes" % (s, k))
    + G("h_unpack", product(range(5), (3,), (0, 4)), ["unpacked", "refused"], "names of 3 arbitrary bytes")
    + G("h_unpack", product(range(5), (1, 2, 3), (1,)), ["unpacked", "refused"], "a failing operation at any point")
    + G("h_unpack", product((0, 3), (1, 2), (8, 9)), ["refused"], "an image that ends early")
    + G("h_copyout", product((0, 1, 5, 6, 7), (1,), (0, 2, 4, 16, 32, 128)), ["copied"])
    + G("h_copyout", product((2, 3), (1, 2), (0, 2, 4, 16, 32, 128)), ["copied", "refused"])
    + G("h_copyout", product((4, 8, 9), (1,), (0, 2, 4)), ["refused"])
    + G("h_copyout", product((0, 1, 2, 3, 5, 6, 7), (1, 2), (1,)), ["copied", "refused"], "a failing operation at any point")
    + G("h_copyout", product((0, 3), (1,), (8,)), ["refused"], "an image that ends early")
    + G("h_default", product((4,), (1, 2, 3), (1, 2)), ["named"], "without a target directory")
    + G("h_unpack", product(range(5), (4, 5), (0, 1, 4)), ["unpacked", "refused"], thorough=True, time=600)
    + G("h_copyout", product((1, 2, 3, 5), (3, 4), (0, 1, 4)), [], thorough=True, time=600),
    "Five trees; one name of 1..3 bytes of any value (5 in the thorough run), including `.`, `/`, NUL and bytes outside of ASCII; symbolic bytes in the contents; plain images and game partitions, two layouts, images that end early, existing targets, short reads and writes, copies done by the kernel, one failure at any point.",
    "Symbolic links that exist in the target beforehand. " + CLI_OUT, [VFS])

prop("C20",
    G("h_pack", product(range(5), range(5), (0, 2, 4, 8, 128)), ["packed"], lambda c, s, m: "command %d, tree %d" % (c, s))
    + G("h_pack", product(range(5), range(5), (1, 3, 9)), ["packed", "failed"], "a failing operation at any point")
    + G("h_pack", product(range(5), range(1, 5), (16,)), ["failed"], "a file that has become shorter")
    + G("h_pack", product(range(2), range(5), (32, 96, 40)), ["packed"], "from an image")
    + G("h_pack", product(range(2), range(5), (33,)), ["packed", "failed"], "from an image, a failing operation at any point")
    + G("h_guard", product((0, 1), range(6), (3, 4), (0,)), ["packed", "refused"], lambda c, s, n, m: "output path of any %d characters out of ./slon" % n)
    + G("h_guard", product((0, 1), range(6), (4,), (32,)), ["packed", "refused"])
    + G("h_guard", [(0, 0, 5, 0), (0, 0, 6, 0), (0, 3, 5, 0), (1, 0, 5, 0)], ["packed", "refused"])
    + G("h_compress", product(range(2), range(4), (0, 2, 8, 32, 96)), ["packed"])
    + G("h_compress", product(range(2), range(4), (1, 33)), ["packed", "failed"], "a failing operation at any point")
    + G("h_compress", product((0,), range(1, 5), (16,)), ["failed"], "compress: a file that has become shorter")
    + G("h_compress", product(range(2), (4,), (0, 32)), [])
    + G("h_default", product((0, 1, 3), (1, 2, 3), (0,)) + product((0, 1), (1, 2), (1, 2)) + product((0,), (1, 2), (3,)), ["named"], "no output path, names of any characters out of `.`, space, a, i")
    + G("h_where", product((0, 3), (0, 1), (0,)) + product((1, 2, 4, 5, 6, 7, 8), range(4), (0,)), ["built"], "where build-image finds its specification and source, and puts the image")
    + G("h_where", product((0, 3), (0, 1), (1,)) + product((1, 2, 4, 5, 6, 7, 8), (0, 1), (1,)), ["built", "failed"], "a failing operation at any point")
    + G("h_mapped", product((0, 1), range(4), (3,)), ["built", "refused"], "output path of build-image of any 3 characters out of ./slon") + G("h_mapped", product((0, 1), (0, 1), (4,)), ["built", "refused"])
    + G("h_mapped", product((0, 1), range(4), (5, 6)), [], thorough=True, time=600, cost=3)
    + G("h_default", product((0, 1, 3), (4, 5), (0,)), ["named"], thorough=True)
    + G("h_guard", product((0, 1), range(6), (5, 6), (0, 32)), [], thorough=True, time=600, cost=3)
    + G("h_guard", product((0,), range(6), (7,), (0,)), [], thorough=True, time=900, cost=5),
    "Five trees of up to 4 files, sizes 0, 1, 3, 10, 100, one sector, more than one sector, contents with symbolic bytes; pack, build-image (rules on the command line and from a specification) and compress, with and without output path, from directories and images; output paths of up to 6 characters of any form (7 thorough) over a tree with symbolic links, 6 spellings of the source; one failure at any point, short reads and writes.",
    "Outputs of `compress` that exist with the added extension inside of the source, names that begin with two dots (std::path does not extend them), the internals of the CISO format. " + CLI_OUT, [VFS, "The contents of the files that are compressed are fixed."])

prop("C22",
    G("h_list", product((0, 1, 2, 3, 6, 7), range(7), (1,), (8,)), ["listed"], "files of almost 4 GiB")
    + G("h_list", product((0, 1, 2, 3, 6, 7), range(7), (1, 2), (0, 2, 4)), ["listed"], lambda c, s, k, m: "command %d, tree %d, names of %d characters" % (c, s, k))
    + G("h_list", product((4, 5), range(7), (1,), (0, 2, 4)), ["refused"])
    + G("h_list", product((0, 1, 2, 3, 6, 7), range(7), (1,), (1,)), ["listed", "failed"], "a failing operation at any point")
    + G("h_md5", product((0,), range(7), (1, 2), (0, 2, 4)), ["md5"]) + G("h_md5", product((0,), range(1, 7), (1,), (1,)), ["md5", "failed"])
    + G("h_md5", product((1,), range(1, 7), (1, 2), (0, 2, 4)), ["md5"]) + G("h_md5", product((2,), (2, 5), (1, 2), (0, 2, 4)), ["md5"])
    + G("h_md5", product((1,), range(1, 7), (1,), (1,)), ["md5", "failed"]) + G("h_md5", product((3,), range(7), (1,), (0, 2)), ["refused"])
    + G("h_info", product((0, 1, 2), (5, 16383, 16384, 30000), (0, 1), (0, 2)), ["info"], lambda c, n, l, m: "child offset %d" % n)
    + G("h_info", product((0, 1, 2), (5,), (0, 1), (1,)), ["info", "failed"], "a failing operation at any point")
    + G("h_info_tree", [(i, s, k, m) for s, n in ((0, 1), (1, 3), (2, 5), (3, 6), (5, 5), (6, 5)) for i in range(n) for k in (1, 2) for m in (0, 2, 4)], ["info"], lambda i, s, k, m: "tree %d, entry %d" % (s, i))
    + G("h_info_tree", [(i, s, 1, 1) for s, n in ((1, 3), (2, 5), (3, 6)) for i in range(n)], ["info", "failed"], "a failing operation at any point")
    + G("h_info_tree", product((8, 9), (1, 2, 3, 5, 6), (1,), (0, 2, 4)), ["refused"], "paths that are not in the image"),
    "Seven trees of up to 5 entries; one name of 1 and 2 symbolic printable characters; plain images and game partitions, two layouts; one failure at any point. info: any attributes, child offsets below and above 64 KiB.",
    "Names that need escapes, properties of MD5 (it is replaced by a recorder of the bytes fed to it), the wording of error messages. " + CLI_OUT, [VFS])

prop("C23",
    G("h_create", product((1, 2, 3), (0, 3, 5, 7), (0,)), ["created"], lambda n, b, m: "%d images" % n) + G("h_create", product((1, 2, 3), (0, 2, 7), (1,)), ["created", "failed"], "a failing operation at any point")
    + G("h_extract", product((1, 2), (0, 1), (0, 1), (0, 2)), ["extracted"]) + G("h_extract", product((1, 2), (0, 1), (0, 1), (1, 3)), ["extracted", "failed"], "a failing operation at any point")
    + G("h_rewrite", product((1, 2), range(8), (0,)), ["rewritten"], lambda n, fl, m: "flags %d" % fl) + G("h_rewrite", product((1, 2), range(8), (1,)), ["rewritten", "failed"], "a failing operation at any point")
    + G("h_guard", product((2,), range(6), (3, 4), (0,)), ["packed", "refused"], "output path of any characters out of ./slon") + G("h_guard", [(2, 0, 5, 0)], ["packed", "refused"])
    + G("h_list", product((6,), range(7), (1, 2), (0, 2)), ["listed"])
    + G("h_default", product((2,), (1, 2, 3), (0,)) + product((5,), (1, 2), (1, 2)), ["named"], "names of any characters out of `.`, space, a, i"),
    "One to three images per command line, with and without file names; every combination of -d and -D with -r; contents with symbolic bytes; one failure at any point; output paths of up to 5 characters of any form.",
    "-s (it has no effect), combinations of several commands in one line. " + CLI_OUT, [VFS])

def F(entry, *args, **kw):
    return J(entry, *args, crate="fsd", **kw)


prop("C18",
    [F("h_lookup", 0, 1, p, reach=["found", "absent"], bounds="any name of 1 byte in any directory, partition offset %d" % p) for p in range(4)]
    + [F("h_lookup", 0, 3, 0, reach=["found", "absent"], bounds="any name of 1..3 bytes in any directory", cost=3),
       F("h_lookup", 3, 2, 0, reach=["absent"], bounds="any name of 1..2 bytes in an empty root")]
    + [F("h_readdir", 0, d, 64, f, reach=["entries"] if d in (0, 2) else [], bounds="directory %d, a buffer of any size per call, continued from any entry" % d) for d in (0, 2, 3, 6) for f in (0, 1)]
    + [F("h_readdir", 3, 0, 64, 0, bounds="an empty root"),
       F("h_readdir", 1, 0, 3000, 1, reach=["entries"], bounds="30 entries over 2 sectors, buffers of 3000 bytes or more, continued from any entry", cost=2),
       F("h_readdir", 1, 0, 120, 6, reach=["entries"], bounds="30 entries over 2 sectors, any buffer size", cost=3),
       F("h_readdir", 2, 2, 120, 7, reach=["entries"], bounds="30 entries in a subdirectory, any buffer size", cost=3),
       F("h_readdir", 1, 0, 120, 2, reach=["entries"], thorough=True, time=800, cost=9, bounds="any buffer size, continued from any entry")]
    + [F("h_read", n, 3 if n in (5, 2048, 0xffffffff) else 2, 0, reach=["end"], cost=3, bounds="two reads of a file of %d bytes, each of up to 2 or 3 bytes at any 63-bit offset" % n) for n in (0, 1, 5, 2047, 2048, 2049, 0x7fffffff, 0x80000000, 0xffffffff)]
    + [F("h_read", n, a | 1 << 32, 0, reach=["data", "end"], bounds="a file of %d bytes, %d bytes at any offset" % (n, a), cost=2) for n, a in ((5000, 4096), (0xffffffff, 4096), (20000, 8192), (20000, 8193), (100000, 65536))]
    + [F("h_read", n, 2, k, reach=["data", "end", "cut"], bounds="a file of %d bytes in an image that ends anywhere (multiples of %d)" % (n, k), cost=2) for n, k in ((8, 1), (5000, 512), (70000, 8192))]
    + [F("h_fault", 0, 95, 0, reach=["failed"], bounds="a device failure at any point of reading everything", cost=2),
       F("h_fault", 0, 95, 1, reach=["failed"], bounds="the same behind a partition offset", cost=2),
       F("h_cut", 0, 256, reach=["shown"], bounds="an image cut at any multiple of 256"),
       F("h_cut", 2, 512, reach=["shown"], bounds="an image with a directory over sectors cut at any multiple of 512", cost=4),
       F("h_cut", 0, 8, thorough=True, time=600, cost=5, reach=["shown"], bounds="an image cut at any multiple of 8"),
       F("h_fault", 2, 200, 0, thorough=True, time=800, cost=8, reach=["failed"], bounds="a larger image"),
       F("h_open", reach=["opened", "refused"], bounds="any open flags; every request that changes something"),
       F("h_mount", 0, reach=["mounted", "refused"], bounds="nine states of the source and the mount point, a failure at any point"),
       F("h_mount", 1, reach=["mounted", "refused"], bounds="the same with a daemon that forks"),
       F("h_options", 0, reach=["mounted"]), F("h_options", 1, reach=["mounted", "refused"]), F("h_options", 2, reach=["mounted", "refused"], bounds="any two mount options"),
       F("h_options", 3, thorough=True, time=600, reach=["mounted", "refused"], bounds="any three mount options")],
    "Images of 8 entries in three levels (empty directories, equal names, a Latin 1 name) and of 32 entries with a directory over two sectors, at the four partition offsets; any looked-up name of up to 3 bytes; any sizes of the kernel's directory buffers; reads of any 63-bit offset of files of 9 sizes up to 4 GiB - 1, for 0..3 bytes and for page sizes; one device failure at any point and the image cut at any position (multiples of 256 bytes); any 32-bit open flags; up to two mount options; forking and not.",
    "The kernel's side of FUSE and the fuser crate (a stand-in with fuser's interface takes its place and records the answers), tokio's scheduler (futures are polled in place), concurrent requests (fuser delivers them one after another), times and permissions beyond being read-only, other systems than Linux.",
    [VFS, "fuser and tokio are replaced by stand-ins with the same interface; fork runs the child first and then the parent."])

prop("C24",
    G("h_spec", product(range(6), (0,), (0, 2, 4)), ["built"], lambda r, k, m: "rules %d" % r) + G("h_spec", product((6, 7), (0,), (0, 2)), ["refused"], "a host path with more than one rule")
    + G("h_spec", product(range(6), (0,), (1,)), ["built", "refused"], "a failing operation at any point")
    + G("h_spec", product((4, 5), (1,), (0, 2)), ["built"], "a rule path of one character out of `a . \" ' = # \\ _ -`, space and tab", cost=3)
    + G("h_spec", product((4, 5), (2,), (0,)), ["built"], thorough=True, time=800, cost=5),
    "Eight sets of rules over a source of 4 files (literal paths, globs, alternatives, exclusions and inclusions, order, repeated host paths), with and without -O, written to a file and to the standard output; one path of a rule of one symbolic character that the format of the specification treats specially (two in the thorough run); one failure at any point.",
    "Other characters in rules, specifications that are edited by hand. " + CLI_OUT, [VFS])


def D(entry, grid, reach, bounds="", **kw):
    return G(entry, grid, reach, bounds, target="desk", **kw)


prop("C25",
    D("h_unpack", product(range(5), (1, 2), (0, 2, 4, 16, 32, 64, 128)), lambda s, k, m: ["unpacked"] if m == 64 else ["unpacked", "refused"], lambda s, k, m: "unpack: tree %d, names of %d arbitrary bytes" % (s, k))
    + D("h_unpack", product(range(5), (1, 2), (1,)), ["unpacked", "refused"], "unpack: a failing operation at any point")
    + D("h_unpack", product((0, 3), (1, 2), (8, 9)), ["refused"], "unpack: an image that ends early")
    + D("h_pack", product((0,), range(5), (0, 2, 4, 8, 32, 40, 96, 128)), ["packed"], lambda c, s, m: "pack: tree %d" % s)
    + D("h_pack", product((0,), range(5), (1, 3, 9, 33)), ["packed", "failed"], "pack: a failing operation at any point")
    + D("h_pack", product((0,), range(1, 5), (16,)), ["failed"], "pack: a file that has become shorter")
    + D("h_guard", product((0, 1), range(6), (3,), (0, 32)) + product((0, 1), (0, 3), (4,), (0,)), ["packed", "refused"], "output path of any 3 or 4 characters out of ./slon")
    + D("h_compress", product((0,), range(4), (0, 2, 8, 32, 96)), ["packed"], "compress")
    + D("h_compress", product((0,), range(4), (1, 33)), ["packed", "failed"], "compress: a failing operation at any point")
    + D("h_compress", product((0,), range(1, 4), (16,)), ["failed"], "compress: a file that has become shorter")
    + D("h_name", product((0, 1), (1, 2, 3)), ["named"], "compress: sources with names of any characters out of `.`, space, a, i")
    + D("h_unpack", product(range(5), (3, 4), (0, 1, 4)), ["unpacked", "refused"], thorough=True, time=600)
    + D("h_guard", product((0, 1), range(6), (5, 6), (0, 32)), [], thorough=True, time=600, cost=3)
    + D("h_name", product((0, 1), (4, 5)), ["named"], thorough=True),
    "Five trees of up to 4 files, contents with symbolic bytes; unpack: one name of 1 or 2 bytes of any value (4 in the thorough run), plain images and game partitions, two layouts, images that end early, existing targets; pack and compress from directories and images, output paths of up to 4 characters (6 thorough) of any form over a tree with symbolic links, 6 spellings of the source; one failure at any point, short reads and writes.",
    "The web view and tauri (a stand-in takes their place and accepts every event), the numbers shown as progress, two commands at the same time, the last sector of an image that ends exactly at a multiple of 32 sectors when it is compressed (see the finding of C20). " + CLI_OUT.replace("The async build of the program differs from the checked sync build in its executor only; `clap`", "Futures are polled in place; `tauri`").replace("`tauri` and `std` are", "`std` is"),
    [VFS.replace("The program runs from its main()", "The commands run"), "The attribute that registers a command with tauri is removed from the source before it is compiled."])


def W(entry, grid, reach, bounds="", **kw):
    return G(entry, grid, reach, bounds, target="web", **kw)


prop("C26",
    W("h_unpack", product(range(5), (1, 2), (0, 2, 4, 16, 64)), lambda s, k, m: ["unpacked"] if m == 64 else ["unpacked", "refused"], lambda s, k, m: "unpack: tree %d, names of %d arbitrary bytes" % (s, k))
    + W("h_unpack", product(range(5), (1, 2), (1,)), ["unpacked", "refused"], "unpack: a failing operation at any point")
    + W("h_unpack", product((0, 3), (1, 2), (8, 9)), ["refused"], "unpack: an image that ends early")
    + W("h_pack", product((0,), range(5), (0, 8, 32, 40, 96, 128)), ["packed"], lambda c, s, m: "pack: tree %d" % s)
    + W("h_pack", product((0,), range(5), (1, 9, 33)), ["packed", "failed"], "pack: a failing operation at any point")
    + W("h_pack", product((0,), range(1, 5), (16,)), ["failed"], "pack: a file that has become shorter")
    + W("h_compress", product((0,), range(4), (0, 8, 32, 96)), ["packed"], "compress")
    + W("h_compress", product((0,), range(4), (1, 33)), ["packed", "failed"], "compress: a failing operation at any point")
    + W("h_compress", product((0,), range(1, 4), (16,)), ["failed"], "compress: a file that has become shorter")
    + W("h_name", product((0, 1), (1, 2, 3)), ["named"], "compress: sources with names of any characters out of `.`, space, a, i")
    + W("h_unpack", product(range(5), (3, 4), (0, 1, 4)), ["unpacked", "refused"], thorough=True, time=600)
    + W("h_name", product((0, 1), (4, 5)), ["named"], thorough=True),
    "Five trees of up to 4 files, contents with symbolic bytes; unpack: one name of 1 or 2 bytes of any value (4 in the thorough run), plain images and game partitions, two layouts, images that end early, existing targets; pack and compress from directories and images, files that lost or gained data since they were listed; one failed promise at any point.",
    "The browser itself: JavaScript values and the File System Access API are a model (names that a host forbids, permissions and quotas appear as failures only), the views and file dialogs, wasm32 (the code is executed as compiled for x86_64), an output that is picked inside of the source or is the source (a browser replaces a file only when the writing is complete), the numbers shown as progress, files of more than some MiB, and the finding of C20 about the last sector of a compressed image.",
    ["The operations of the application run on a model of JavaScript promises and of the File System Access API (see harness/web/src/js.rs): a promise is settled when it is made, any promise can fail, a writable stream replaces the file when it is closed.",
     "js_sys, web_sys, wasm_bindgen and yew's Callback are replaced by the model, and so is the binding file xdvdfs-web/src/fs/bindings.rs; the rest of xdvdfs-web/src/fs and src/ops is compiled as it is."])


# ---- jobs that decide a property through further parts of the repository

def also(pid, jobs, bounds):
    PROPS[pid]["jobs"] += jobs
    PROPS[pid]["bounds"] += " " + bounds
    for a in [VFS]:
        if a not in PROPS[pid]["assumptions"] and any(j["crate"] != "core" for j in jobs):
            PROPS[pid]["assumptions"].append(a)


NAMES = G("h_names", product((0,), (0, 1, 3), (1, 2), (0,)) + [(0, 2, 1, 0), (0, 0, 3, 512), (0, 0, 4, 512)], ["packed", "failed"],
          lambda c, s, k, m: "pack: tree %d, a name of any %d bytes%s" % (s, k, ", the first three a character" if m else ""))

also("C01",
     G("h_pack", product((0,), range(5), (0, 2, 4)), ["packed"], lambda c, s, m: "the command pack: tree %d" % s)
     + G("h_pack", product((2,), range(4), (0,)), ["packed"], lambda c, s, m: "the command build-image: tree %d" % s) + NAMES,
     "The commands pack and build-image from directories of the in-memory C library: five trees, short reads and writes, copies by the kernel, host names of any 1 or 2 bytes.")
also("C02",
     G("h_copyout", product((0, 1, 2, 3, 5, 6, 7), (1,), (0,)), ["copied"], "copy-out of a path") + G("h_copyout", product((4, 8, 9), (1,), (0,)), ["refused"], "copy-out of a path that does not exist")
     + G("h_info_tree", [(i, s, 1, 0) for s, n in ((1, 3), (2, 5), (3, 6), (5, 5), (6, 5)) for i in range(n)], ["info"], "info of each entry")
     + G("h_info_tree", product((8, 9), (1, 2, 3, 5, 6), (1,), (0,)), ["refused"], "info of paths that do not exist")
     + [F("h_lookup", 0, 1, 0, reach=["found", "absent"], bounds="a mounted image: any name of 1 byte in any directory"),
        F("h_lookup", 0, 2, 0, reach=["found", "absent"], bounds="a mounted image: any name of 1 or 2 bytes in any directory", cost=2),
        F("h_lookup", 3, 2, 0, reach=["absent"], bounds="a mounted image with an empty root")],
     "The paths given to copy-out and info, and the names asked for in a mounted image (any of up to 2 bytes).")


def X(cmds, shape, at, masks, **kw):
    return G("h_damaged", product(cmds, (shape,), at, masks), kw.pop("reach", []), lambda c, s, a, m: "command %d, tree %d, item %d, bytes %#x" % (c, s, a, m), **kw)


LINK, SECTOR, SIZE, KIND, NLEN, NAME, ENDS, XGD = (0x1, 0x4), (0x10,), (0x100, 0x200), (0x1000,), (0x2000,), (0x4000,), 1 << 20, 2 << 20
WALK = (0, 1, 4, 6, 7, 9, 10, 11)
HASTY = (0, 1, 4, 7, 9, 10, 11)  # without checksum, which has a buffer of the size that a record claims
DAMAGED = (
    X(HASTY, 3, (1, 2), LINK) + X(WALK, 3, (1,), SECTOR) + X(WALK, 3, (2,), KIND + NLEN) + X(WALK, 3, (0,), (0x1, 0x10, 0x20, 0x100))
    + X((5, 8, 12), 3, (1, 4), LINK + NLEN) + X((2, 3), 3, (1, 3, 5), SIZE + KIND + NLEN) + X((2, 3), 3, (0,), (0x100,))
    + X((6, 7, 8, 11), 3, (3, 4), SIZE) + X((1, 6, 7, 11), 3, (1,), (ENDS,)) + X((7, 11), 3, (1,), (ENDS + XGD,)) + X((0, 1, 7, 10, 11), 2, (1, 2), NLEN + KIND) + X((0, 1, 7, 10), 2, (1, 2), NAME)
    + X((1, 7), 3, (1,), (0x5,), cost=4))
FDAMAGED = ([F("h_damaged", 0, i, m, reach=["shown"], bounds="a mounted image, item %d, bytes %#x" % (i, m)) for i, m in
             [(0, 0x1), (0, 0x10), (1, 0x200), (2, 0x1), (2, 0x4), (2, 0x10), (2, 0x100), (2, 0x200), (2, 0x1000), (2, 0x2000), (2, 0x4000), (3, 0x4), (3, 0x10), (3, 0x400), (3, 0x1000), (5, 0x200), (5, 0x1000)]]
            + [F("h_damaged", 0, i, m, thorough=True, time=900, cost=4, bounds="a mounted image, item %d, bytes %#x" % (i, m)) for i, m in ((0, 0x30), (3, 0x5), (4, 0x7))])
also("C04", DAMAGED + FDAMAGED,
     "The commands ls, tree, md5, info, checksum, unpack, copy-out, pack and the extract-xiso mode on an image in which one byte of a record or of the volume descriptor is arbitrary (links, sectors and lengths: any value below 48 or above 253; two links at once for tree and unpack) or that ends anywhere (multiples of 512), and the requests of a mounted image on such images.")
also("C05",
     X((0, 1, 2, 6, 7, 9, 10, 11), 3, (1,), SECTOR) + X((0, 1, 7, 11), 3, (1, 2), LINK) + X((1, 7), 3, (1,), (0x5,), cost=4) + X((0, 1, 7, 11), 3, (0,), (0x1,))
     + [F("h_damaged", 0, i, m, reach=["shown"], bounds="a mounted image, item %d, bytes %#x" % (i, m)) for i, m in ((0, 0x1), (2, 0x1), (2, 0x4), (2, 0x10), (3, 0x10))],
     "The commands and a mounted image with any link or directory sector (values below 48 or above 253) in a record: a command needs no more than 6000 operations of the C library.")
also("C07", NAMES, "The command pack with host names of any 1 or 2 bytes (UTF-8 or not), and of 3 or 4 that begin with a character of three bytes.")
also("C10",
     [F("h_read", n, 2, 0, reach=["end"], cost=3, bounds="a mounted image: two reads of a file of %d bytes at any offset" % n) for n in (0, 5, 2048, 0xffffffff)]
     + G("h_copyout", product((0, 2, 3), (1,), (0, 128)), ["copied"], "copy-out of files and directories") + G("h_unpack", product((1, 2, 3), (1,), (0, 128)), ["unpacked", "refused"], "unpack")
     + G("h_md5", product((0,), range(1, 7), (1,), (0, 2)), ["md5"], "the bytes that md5 sees") + G("h_checksum", product((0,), range(1, 7), (1,), (0,)), ["checksum"], "the bytes that checksum sees"),
     "The files that a mounted image, copy-out, unpack, md5 and checksum read.")
also("C11",
     G("h_list", product((0, 1, 3, 6), range(4), (1,), (2,)), ["listed"], "ls and tree of a game partition") + G("h_md5", product((0,), range(1, 4), (1,), (2,)), ["md5"], "md5 in a game partition")
     + G("h_checksum", product((0,), range(4), (1,), (2,)), ["checksum"], "checksum of a game partition") + G("h_unpack", product((1, 2, 3), (1,), (2,)), ["unpacked", "refused"], "unpack from a game partition")
     + G("h_copyout", product((0, 2, 3), (1,), (2,)), ["copied"], "copy-out from a game partition") + G("h_info", product((0, 1), (5,), (0,), (2,)), ["info"], "info in a game partition")
     + G("h_pack", product((0,), range(4), (96,)), ["packed"], "pack from a game partition") + G("h_compress", product((0,), range(4), (96,)), ["packed"], "compress from a game partition")
     + [F("h_lookup", 0, 1, p, reach=["found", "absent"], bounds="a mounted image at partition offset %d" % p) for p in range(4)],
     "The commands on an image at the third partition offset, and a mounted image at each of the four.")
also("C13",
     G("h_compress", product(range(2), range(4), (0, 2, 8, 32, 96)), ["packed"], "the command compress, read back from the compressed image")
     + W("h_compress", product((0,), range(4), (0, 8, 32)), ["packed"], "the web application's compress") + D("h_compress", product((0,), range(4), (0, 32)), ["packed"], "the desktop application's compress"),
     "compress of the command line, the web and the desktop application: four trees, from directories and images, with what the compressed image gives back compared with the tree.")
also("C14",
     G("h_pack", product((0,), range(5), (32, 96, 40)), ["packed"], "pack from an image") + W("h_pack", product((0,), range(5), (32, 40, 96)), ["packed"], "the web application's pack from an image")
     + D("h_pack", product((0,), range(5), (32, 96)), ["packed"], "the desktop application's pack from an image"),
     "pack from an image by the command line, the web and the desktop application: five trees, plain and game partitions, over an existing file.")
also("C17",
     G("h_spec", product(range(6), (0,), (0,)), ["built"], lambda r, k, m: "build-image with rules %d" % r) + G("h_pack", product((2, 3), range(4), (0,)), ["packed"], "build-image with the rule `**`")
     + G("h_names", [(1, 0, 1, 0), (1, 3, 1, 0), (1, 0, 3, 512)], ["packed", "failed"], "build-image with the rule `**`: a name of any 1 byte or a character of three"),
     "The command build-image: six sets of rules over a source of 4 files, and the rule `**` over four trees and over host names of any byte.")
also("C19",
     G("h_pack", product((0,), range(1, 5), (1, 3, 9)), ["packed", "failed"], "pack: a failing operation of the system at any point") + G("h_pack", product((0,), range(1, 5), (33,)), ["packed", "failed"], "pack from an image")
     + G("h_pack", product((2,), (2, 3), (1,)), ["packed", "failed"], "build-image") + G("h_pack", product((0, 2), range(1, 5), (16,)), ["failed"], "a file that has become shorter")
     + G("h_compress", product((0,), range(4), (1, 33)), ["packed", "failed"], "compress") + G("h_compress", product((0,), range(1, 4), (16,)), ["failed"], "compress: a file that has become shorter")
     + G("h_names", product((0,), (0, 1), (1,), (1,)), ["packed", "failed"], "pack: any name")
     + G("h_list", product((0, 1, 3, 6), range(1, 4), (1,), (1,)), ["listed", "failed"], "ls and tree") + G("h_md5", product((0, 1), range(1, 4), (1,), (1,)), ["md5", "failed"], "md5")
     + G("h_checksum", product((0,), range(1, 4), (1,), (1,)), ["checksum", "failed"], "checksum") + G("h_info_tree", [(i, 2, 1, 1) for i in range(5)], ["info", "failed"], "info")
     + G("h_unpack", product(range(1, 4), (1,), (1,)), ["unpacked", "refused"], "unpack") + G("h_unpack", product((0, 3), (1,), (8,)), ["refused"], "unpack from an image that ends early")
     + G("h_copyout", product((0, 2, 3), (1,), (1,)), ["copied", "refused"], "copy-out")
     + [F("h_fault", 0, 95, 0, reach=["failed"], bounds="a mounted image, everything read", cost=2)],
     "The commands pack, build-image, compress, ls, tree, md5, checksum, info, unpack and copy-out, and a mounted image: one failing operation of the C library at every point, sources that have become shorter, images that end early.")
also("C20", NAMES + G("h_names", product((0,), (0, 1), (1,), (1,)), ["packed", "failed"], "a failing operation at any point"), "Host names of any 1 or 2 bytes, UTF-8 or not.")
