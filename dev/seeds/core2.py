C = "xdvdfs-core/src/"
SEEDS = [
 dict(id="right-cycle", property="C05",
  needs="a damaged directory whose child links form a cycle through a right child",
  breaks="listing forgets the records it has seen whenever it descends into a right child, so such a cycle is followed forever",
  edits=[(C+"read.rs", """                    stack.push(4 * dirent.node.right_entry_offset as u64);
""", """                    let right_offset = 4 * dirent.node.right_entry_offset as u64;
                    visited.clear();
                    stack.push(right_offset);
""")],
  demo_rs="""
fn main() {
    let mut t = Tree::new();
    for i in 0..3u8 {
        t = t.file("/", &((b'a' + i) as char).to_string(), bytes(i, 10));
    }
    let mut mem = pack(&t);
    let vol = xdvdfs::read::read_volume(&mut mem).unwrap();
    mem.max_reads = 1000;
    let at = vol.root_table.offset::<String>(0).unwrap() as usize;
    // the last record (the right child of the first) gets itself as its right child
    let right = 4 * u16::from_le_bytes([mem.data[at + 2], mem.data[at + 3]]) as usize;
    let link = ((right / 4) as u16).to_le_bytes();
    mem.data[at + right + 2..at + right + 4].copy_from_slice(&link);
    assert!(vol.root_table.walk_dirent_tree(&mut mem).is_err());
    // and a cycle of two records
    let left = 4 * u16::from_le_bytes([mem.data[at], mem.data[at + 1]]) as usize;
    let link = ((right / 4) as u16).to_le_bytes();
    mem.data[at + left + 2..at + left + 4].copy_from_slice(&link);
    mem.data[at + right + 2..at + right + 4].copy_from_slice(&[0xff, 0xff]);
    let link = ((left / 4) as u16).to_le_bytes();
    mem.data[at + right..at + right + 2].copy_from_slice(&link);
    assert!(vol.root_table.walk_dirent_tree(&mut mem).is_err());
    assert!(mem.reads < 100, "listing does not end");
}
"""),
 dict(id="include-again", property="C17",
  needs="a rule that includes an entry again after an exclusion rule",
  breaks="evaluation stops at the first matching exclusion, so later rules cannot include the entry again",
  edits=[(C+"write/fs/remap.rs", "                    rewritten_path = None;\n                    continue;\n", "                    rewritten_path = None;\n                    break;\n")],
  demo_rs="""
use xdvdfs::write::fs::*;
fn main() {
    let t = Tree::new().file("/", "a.c", bytes(1, 10)).file("/", "b.c", bytes(2, 20));
    let rule = |a: &str, b: &str| (a.to_string(), b.to_string());
    let cfg = RemapOverlayConfig { map_rules: vec![rule("*.c", "/x/{1}"), rule("!*.c", ""), rule("b.*", "/y/{1}")] };
    let fs = RemapOverlayFilesystem::new(t, cfg).unwrap();
    let d: Vec<(String, String)> = fs.dump().iter().map(|(a, b)| (a.as_string(), b.as_string())).collect();
    assert_eq!(d, vec![("/b.c".to_string(), "/y/c".to_string())]);
}
"""),
 dict(id="outer-prefix", property="C17",
  needs="a rule that matches an entry inside a directory that another rule matches",
  breaks="inside a matching directory the rules are no longer tried on the entries themselves, so exclusions and rewrites below it have no effect",
  edits=[(C+"write/fs/remap.rs", """                let match_prefix = if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())
                } else if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
""", """                let match_prefix = if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
                } else if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())
""")],
  demo_rs="""
use xdvdfs::write::fs::*;
fn main() {
    let t = Tree::new().dir("/", "bin").file("/bin", "a", bytes(1, 10)).file("/bin", "b", bytes(2, 20));
    let rule = |a: &str, b: &str| (a.to_string(), b.to_string());
    let cfg = RemapOverlayConfig { map_rules: vec![rule("bin", "/n"), rule("!bin/b", "")] };
    let mut fs = RemapOverlayFilesystem::new(t, cfg).unwrap();
    let names: Vec<String> = FilesystemHierarchy::read_dir(&mut fs, &["n"].into_iter().collect()).unwrap().into_iter().map(|e| e.name).collect();
    assert_eq!(names, vec!["a".to_string()]);
}
"""),
]
