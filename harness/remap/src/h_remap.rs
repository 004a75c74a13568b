//! Path rewriting (build-image): which image paths exist and where their contents come from.
use crate::sym;
use xdvdfs::blockdev::BlockDeviceWrite;
use xdvdfs::write::fs::*;

#[derive(Clone, Default)]
pub struct Node {
    parent: usize,
    name: String,
    dir: bool,
    len: u64,
}

/// Host tree; node 0 is the root.
#[derive(Clone)]
pub struct Host {
    nodes: Vec<Node>,
    fail_dir: Option<usize>,
    fail_copy: bool,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct HostErr;
impl core::fmt::Display for HostErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("host")
    }
}
impl std::error::Error for HostErr {}

impl Host {
    fn new() -> Self {
        Host { nodes: vec![Node { dir: true, ..Default::default() }], fail_dir: None, fail_copy: false }
    }
    fn add(&mut self, parent: usize, name: &str, dir: bool, len: u64) -> usize {
        self.nodes.push(Node { parent, name: name.into(), dir, len });
        self.nodes.len() - 1
    }
    fn comps(&self, mut i: usize) -> Vec<&str> {
        let mut v = vec![];
        while i != 0 {
            v.insert(0, self.nodes[i].name.as_str());
            i = self.nodes[i].parent;
        }
        v
    }
    fn find(&self, p: &PathVec) -> Option<usize> {
        (0..self.nodes.len()).find(|i| {
            let c = self.comps(*i);
            let mut n = 0;
            let mut same = true;
            for x in p.iter() {
                same = same && n < c.len() && c[n] == x.as_str();
                n += 1;
            }
            same && n == c.len()
        })
    }
}

impl FilesystemHierarchy for Host {
    type Error = HostErr;
    fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, HostErr> {
        let d = self.find(path).ok_or(HostErr)?;
        if self.fail_dir == Some(d) {
            return Err(HostErr);
        }
        Ok((1..self.nodes.len())
            .filter(|i| self.nodes[*i].parent == d)
            .map(|i| FileEntry {
                name: self.nodes[i].name.clone(),
                file_type: if self.nodes[i].dir { FileType::Directory } else { FileType::File },
                len: self.nodes[i].len,
            })
            .collect())
    }
}

/// Records what was copied: (node, input offset, output offset, size)
#[derive(Default)]
pub struct Log {
    copies: Vec<(usize, u64, u64, u64)>,
}
impl BlockDeviceWrite for Log {
    type WriteError = HostErr;
    fn write(&mut self, _o: u64, _b: &[u8]) -> Result<(), HostErr> {
        Ok(())
    }
    fn len(&mut self) -> Result<u64, HostErr> {
        Ok(0)
    }
}

impl FilesystemCopier<Log> for Host {
    type Error = HostErr;
    fn copy_file_in(&mut self, src: &PathVec, dest: &mut Log, i: u64, o: u64, n: u64) -> Result<u64, HostErr> {
        if self.fail_copy {
            return Err(HostErr);
        }
        let f = self.find(src).ok_or(HostErr)?;
        dest.copies.push((f, i, o, n));
        Ok(n)
    }
}

// ---------------------------------------------------------------- oracle

#[derive(Clone, Copy)]
enum Tok {
    Lit(u8),
    /// `*`: any run of non-separators, captured
    Star,
    /// `**` (component): any number of components, captured
    Tree,
    /// `{a,b}`: one of single-character alternatives, captured
    Alt(&'static [u8]),
}

fn parse(g: &'static str) -> Vec<Tok> {
    let b = g.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'*' && i + 1 < b.len() && b[i + 1] == b'*' {
            v.push(Tok::Tree);
            i += 2;
        } else if b[i] == b'*' {
            v.push(Tok::Star);
            i += 1;
        } else if b[i] == b'{' {
            let j = i + b[i..].iter().position(|c| *c == b'}').unwrap();
            v.push(Tok::Alt(&b[i + 1..j]));
            i = j + 1;
        } else {
            v.push(Tok::Lit(b[i]));
            i += 1;
        }
    }
    v
}

/// Matches a glob; captures are spans. Patterns are chosen so that captures are unambiguous.
fn glob(t: &[Tok], p: &[u8], at: usize, caps: &mut Vec<(usize, usize)>) -> bool {
    let Some(f) = t.first() else { return at == p.len() };
    match f {
        Tok::Lit(b'/') if t.len() == 2 && matches!(t[1], Tok::Tree) && at == p.len() => {
            // "a/**" also names "a" itself
            caps.push((at, at));
            true
        }
        Tok::Lit(c) => at < p.len() && p[at] == *c && glob(&t[1..], p, at + 1, caps),
        Tok::Alt(s) => {
            if at < p.len() && s.iter().step_by(2).any(|c| *c == p[at]) {
                caps.push((at, at + 1));
                if glob(&t[1..], p, at + 1, caps) {
                    return true;
                }
                caps.pop();
            }
            false
        }
        Tok::Star => {
            let mut e = at;
            while e < p.len() && p[e] != b'/' {
                e += 1;
            }
            // greedy
            loop {
                caps.push((at, e));
                if glob(&t[1..], p, e, caps) {
                    return true;
                }
                caps.pop();
                if e == at {
                    return false;
                }
                e -= 1;
            }
        }
        Tok::Tree => {
            // last: the rest of the path; otherwise followed by '/': whole components
            if t.len() == 1 {
                caps.push((at, p.len()));
                return true;
            }
            let mut ends = vec![at];
            for i in at..p.len() {
                if p[i] == b'/' {
                    ends.push(i + 1);
                }
            }
            while let Some(e) = ends.pop() {
                caps.push((at, e));
                if glob(&t[2..], p, e, caps) {
                    return true;
                }
                caps.pop();
            }
            false
        }
    }
}

/// Rewritten image path of a matched host path, by the rules: the first matching positive rule
/// after the last matching exclusion.
fn rewrite(rules: &[(&'static str, &'static str)], p: &str) -> Option<String> {
    let mut out: Option<String> = None;
    for (from, to) in rules {
        let neg = from.starts_with('!');
        let t = parse(from.trim_start_matches('!'));
        let mut caps = vec![];
        if !glob(&t, p.as_bytes(), 0, &mut caps) {
            continue;
        }
        if neg {
            out = None;
        } else if out.is_none() {
            let mut s: Vec<u8> = vec![];
            let b = to.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'{' {
                    let k = (b[i + 1] - b'0') as usize;
                    if k == 0 {
                        s.extend_from_slice(p.as_bytes());
                    } else if k <= caps.len() {
                        s.extend_from_slice(&p.as_bytes()[caps[k - 1].0..caps[k - 1].1]);
                    }
                    i += 3;
                } else {
                    s.push(b[i]);
                    i += 1;
                }
            }
            out = Some(unsafe { String::from_utf8_unchecked(s) });
        }
    }
    out
}

fn matches_any(rules: &[(&'static str, &'static str)], p: &str) -> bool {
    rules.iter().any(|(from, _)| glob(&parse(from.trim_start_matches('!')), p.as_bytes(), 0, &mut vec![]))
}

fn clean(p: &str) -> Vec<String> {
    p.trim_start_matches('.').split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

/// (image path components, host node) of every mapped host entry
fn expect(h: &Host, rules: &[(&'static str, &'static str)]) -> Vec<(Vec<String>, usize)> {
    let mut out = vec![];
    for i in 1..h.nodes.len() {
        // nearest matched ancestor, or the entry itself
        let mut a = i;
        let mut tail: Vec<String> = vec![];
        while a != 0 && !matches_any(rules, &h.comps(a).join("/")) {
            tail.insert(0, h.nodes[a].name.clone());
            a = h.nodes[a].parent;
        }
        if a == 0 {
            continue;
        }
        if let Some(r) = rewrite(rules, &h.comps(a).join("/")) {
            let mut c = clean(&r);
            c.extend(tail);
            out.push((c, i));
        }
    }
    out
}

pub static RULES: &[&[(&str, &str)]] = &[
    // 0: literal directory to the root, literal file
    &[("a", "/"), ("b", "/x/b")],
    // 1: tree with whole-path substitution
    &[("a/**", "/y/{1}"), ("*", "/{0}")],
    // 2: order of rules and exclusion
    &[("*.a", "/p/{1}"), ("*", "/q/{1}"), ("!*.b", "")],
    // 3: inclusion again after an exclusion
    &[("*", "/{1}"), ("!*.b", ""), ("c.b", "/z/c")],
    // 4: alternatives, two captures used in the other order
    &[("a/*.{a,b}", "/{2}/{1}")],
    // 5: any depth
    &[("**/*.a", "/{2}")],
    // 6: exclusion below an included directory
    &[("a", "/n"), ("!a/b", "")],
    // 7: everything
    &[("**", "/{1}")],
];

fn ch(n: &str) -> u8 {
    let c = sym::u8(n);
    sym::assume((c == b'.') | ((c >= b'a') & (c <= b'e')));
    c
}

/// names of `n` symbolic characters
fn nm(n: &str, k: u64) -> String {
    let mut v = vec![];
    for _ in 0..k {
        v.push(ch(n));
    }
    sym::assume(v != b"." && v != b"..");
    unsafe { String::from_utf8_unchecked(v) }
}

/// rule set; tree shape; length of the symbolic names
pub fn h_remap(rules: u64, shape: u64, k: u64, mode: u64) {
    let rules = RULES[rules as usize];
    let mut h = Host::new();
    match shape {
        0 => {
            h.add(0, &nm("f", k), false, 7);
        }
        1 => {
            let d = h.add(0, &nm("d", 1), true, 0);
            h.add(d, &nm("f", k), false, 7);
        }
        2 => {
            h.add(0, &nm("f", k), false, 7);
            h.add(0, &nm("g", k), false, 9);
            sym::assume(h.nodes[1].name != h.nodes[2].name);
        }
        3 => {
            let d = h.add(0, "a", true, 0);
            h.add(d, &nm("f", k), false, 7);
            let e = h.add(d, "e", true, 0);
            h.add(e, "b.a", false, 3);
            sym::assume(h.nodes[2].name != "e");
        }
        _ => {
            h.add(0, "c.b", false, 7);
            h.add(0, "x.a", false, 8);
            let d = h.add(0, "a", true, 0);
            h.add(d, "b", false, 9);
            h.add(d, "f.a", false, 10);
            h.add(0, "b", false, 11);
        }
    }
    if mode & 2 != 0 {
        // one path per name: for patterns whose automata are too hard for the solver
        for n in &mut h.nodes {
            let v = unsafe { n.name.as_bytes_mut() };
            for c in v {
                *c = sym::concretize(*c as u64) as u8;
            }
        }
    }
    let want = expect(&h, rules);
    let cfg = RemapOverlayConfig { map_rules: rules.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    if mode & 1 != 0 {
        // a listing failure anywhere is reported
        let d = sym::u8("faildir") as usize;
        sym::assume(d < h.nodes.len() && h.nodes[sym::concretize(d as u64) as usize].dir);
        h.fail_dir = Some(sym::concretize(d as u64) as usize);
        let r = RemapOverlayFilesystem::new(h, cfg);
        sym::check(r.is_err(), "a failure to list the source is reported");
        sym::reach("failed");
        return;
    }
    let r = RemapOverlayFilesystem::new(h.clone(), cfg);
    sym::check(r.is_ok(), "the rules are accepted");
    let Ok(mut fs) = r else { return };
    // two host entries that claim one image path are left out of the statement
    for i in 0..want.len() {
        for j in 0..i {
            if want[i].0 == want[j].0 || want[i].0.starts_with(&want[j].0) && !h.nodes[want[j].1].dir || want[j].0.starts_with(&want[i].0) && !h.nodes[want[i].1].dir {
                sym::reach("conflict");
                return;
            }
        }
    }
    // list the whole overlay
    let mut todo = vec![PathVec::default()];
    let mut found: Vec<(Vec<String>, bool, u64)> = vec![];
    while let Some(d) = todo.pop() {
        let l = FilesystemHierarchy::read_dir(&mut fs, &d);
        sym::check(l.is_ok(), "directories of the overlay are listed");
        let Ok(l) = l else { return };
        for e in l {
            let p = PathVec::from_base(&d, &e.name);
            let dir = matches!(e.file_type, FileType::Directory);
            let mut v: Vec<String> = vec![];
            for c in p.iter() {
                v.push(c.clone());
            }
            sym::check(!found.iter().any(|f| f.0 == v), "every entry is listed once");
            found.push((v, dir, e.len));
            sym::check(found.len() <= 40, "listing the overlay ends");
            if found.len() > 40 {
                return;
            }
            if dir {
                todo.push(p);
            }
        }
    }
    // everything expected is there, with the right kind, size and source
    let mut log = Log::default();
    for (p, i) in &want {
        if p.is_empty() {
            continue;
        }
        let f = found.iter().find(|f| f.0 == *p);
        sym::check(f.is_some(), "every mapped entry is at its rewritten path");
        let Some(f) = f else { return };
        sym::check(f.1 == h.nodes[*i].dir, "a mapped entry keeps its kind");
        if !f.1 {
            sym::check(f.2 == h.nodes[*i].len, "a mapped file keeps its size");
            let pv: PathVec = p.iter().map(|s| s.as_str()).collect();
            let r = fs.copy_file_in(&pv, &mut log, 0, 4096, f.2);
            sym::check(r.is_ok(), "a mapped file is copied");
            sym::check(log.copies.pop() == Some((*i, 0, 4096, f.2)), "contents come from the host file of the rule");
            sym::reach("file");
        }
    }
    // nothing else is there: every entry is a mapped one or a directory leading to one
    for f in &found {
        let here = want.iter().any(|w| w.0 == f.0);
        let above = f.1 && want.iter().any(|w| w.0.len() > f.0.len() && w.0.starts_with(&f.0));
        sym::check(here || above, "only mapped entries are in the image");
    }
    if want.is_empty() {
        sym::reach("nothing mapped");
    }
    let dump = fs.dump();
    for (p, i) in &want {
        if p.is_empty() {
            continue;
        }
        let n = dump.iter().filter(|d| d.1.iter().eq(p.iter()) && h.find(&d.0) == Some(*i)).count();
        sym::check(n == 1 || h.nodes[*i].dir, "a dry run lists every mapped file once");
    }
    for (a, b) in &dump {
        let ok = want.iter().any(|w| b.iter().eq(w.0.iter()) && h.find(a) == Some(w.1));
        sym::check(ok, "a dry run lists only mapped entries");
    }
    sym::reach("mapped");
}

/// Substitution references in rewrite paths: digits inside closed braces are accepted, anything
/// else is refused, and nothing crashes. digits == 0: n characters of "{}01a"; otherwise one
/// reference of that many digits.
pub fn h_brace(n: u64, digits: u64, _c: u64, _d: u64) {
    let mut v = vec![];
    if digits == 0 {
        for _ in 0..n {
            let c = sym::u8("rewrite");
            sym::assume((c == b'{') | (c == b'}') | (c == b'0') | (c == b'1') | (c == b'a'));
            v.push(c);
        }
    } else {
        v.extend_from_slice(b"/x{");
        for i in 0..digits {
            let c = sym::u8("digit");
            if i % 8 == 0 {
                sym::assume((c == b'1') | (c == b'9'));
            } else {
                sym::assume(c == b'3');
            }
            v.push(c);
        }
        v.push(b'}');
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut h = Host::new();
    h.add(0, "a", false, 7);
    let mut open = false;
    let mut bad = false;
    let mut has = false;
    for c in s.bytes() {
        if c == b'{' {
            open = true;
            has = true;
        } else if open && c == b'}' {
            open = false;
        } else if open && !c.is_ascii_digit() {
            bad = true;
        }
    }
    let cfg = RemapOverlayConfig { map_rules: vec![("*".into(), s.clone())] };
    let r = RemapOverlayFilesystem::new(h, cfg);
    sym::check(r.is_ok() == !(bad || open), "exactly the rewrite paths with well formed references are accepted");
    let Ok(fs) = r else {
        sym::reach("refused");
        return;
    };
    if digits > 1 {
        // there is no such match: replaced by nothing
        let d = fs.dump();
        sym::check(d.len() == 1 && d[0].1.as_string() == "/x", "a reference to a match that does not exist stands for nothing");
    }
    if has {
        sym::reach("reference");
    } else {
        sym::reach("plain");
    }
}

/// Matched text is inserted as it is, also when it looks like a reference.
pub fn h_literal(kind: u64, _b: u64, _c: u64, _d: u64) {
    let c = ch("f") as char;
    sym::assume(c != '.');
    let mut h = Host::new();
    let (name, rule, want) = match kind {
        // whole name first
        0 => (format!("{{1}}{c}"), ("*", "/{0}/{1}"), format!("/{{1}}{c}/{{1}}{c}")),
        // captures used in order
        1 => (format!("{c}{{2}}.b"), ("*.*", "/{1}.{2}"), format!("/{c}{{2}}.b")),
        // captures used in the other order
        2 => (format!("b.{c}{{1}}"), ("*.*", "/{2}/{1}"), format!("/{c}{{1}}/b")),
        // a reference used twice
        3 => (format!("{{1}}.{c}"), ("*.*", "/{1}{1}/{2}"), format!("/{{1}}{{1}}/{c}")),
        // a name with a brace next to a reference
        _ => (format!("1}}{c}"), ("*", "/{1}"), format!("/1}}{c}")),
    };
    h.add(0, &name, false, 7);
    let cfg = RemapOverlayConfig { map_rules: vec![(rule.0.into(), rule.1.into())] };
    let r = RemapOverlayFilesystem::new(h, cfg);
    sym::check(r.is_ok(), "the rules are accepted");
    let Ok(fs) = r else { return };
    let d = fs.dump();
    sym::check(d.len() == 1 && d[0].1.as_string() == want, "matched text is inserted unchanged");
    sym::reach("inserted");
}

/// Names that begin with a dot keep it.
pub fn h_dot(kind: u64, _b: u64, _c: u64, _d: u64) {
    let c = ch("f") as char;
    sym::assume(c != '.');
    let mut h = Host::new();
    let name = format!(".{c}");
    h.add(0, &name, false, 7);
    let rule = ["{0}", "/{0}", "./{1}", ".x/{1}"][kind as usize];
    let cfg = RemapOverlayConfig { map_rules: vec![("*".into(), rule.into())] };
    let r = RemapOverlayFilesystem::new(h, cfg);
    sym::check(r.is_ok(), "the rules are accepted");
    let Ok(fs) = r else { return };
    let d = fs.dump();
    let want = if kind == 3 { format!("/.x/{name}") } else { format!("/{name}") };
    sym::check(d.len() == 1 && d[0].1.as_string() == want, "a name that begins with a dot is kept");
    sym::reach("kept");
}
