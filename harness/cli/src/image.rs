//! Hand-made images, independent of the packer under test.

#[derive(Clone)]
pub struct Item {
    /// index of the parent (0: the root directory, which has no item)
    pub parent: usize,
    pub name: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
    /// the size that the record gives, when it is not that of the data
    pub big: Option<u32>,
}

/// items[0] stands for the root.
#[derive(Clone)]
pub struct Tree {
    pub items: Vec<Item>,
}

impl Tree {
    pub fn new() -> Self {
        Tree { items: vec![Item { parent: 0, name: vec![], dir: true, data: vec![], big: None }] }
    }
    pub fn add(&mut self, parent: usize, name: &[u8], dir: bool, data: Vec<u8>) -> usize {
        self.items.push(Item { parent, name: name.to_vec(), dir, data, big: None });
        self.items.len() - 1
    }
    pub fn dir(&mut self, parent: usize, name: &str) -> usize {
        self.add(parent, name.as_bytes(), true, vec![])
    }
    pub fn file(&mut self, parent: usize, name: &str, data: Vec<u8>) -> usize {
        self.add(parent, name.as_bytes(), false, data)
    }
    pub fn size(&self, i: usize) -> u64 {
        self.items[i].big.map(|b| b as u64).unwrap_or(self.items[i].data.len() as u64)
    }
    pub fn kids(&self, d: usize) -> Vec<usize> {
        (1..self.items.len()).filter(|i| self.items[*i].parent == d).collect()
    }
    pub fn path(&self, mut i: usize) -> Vec<u8> {
        let mut v = vec![];
        while i != 0 {
            let mut t = b"/".to_vec();
            t.extend_from_slice(&self.items[i].name);
            t.extend_from_slice(&v);
            v = t;
            i = self.items[i].parent;
        }
        v
    }
}

fn align(v: &mut Vec<u8>, n: usize, fill: u8) {
    while v.len() % n != 0 {
        v.push(fill);
    }
}

pub fn pattern(seed: u8, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let mut x = seed as u32 + 1;
    for b in v.iter_mut() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        *b = (x >> 24) as u8;
    }
    v
}

/// The records of a directory in the given order, each the right child of the one before (a valid
/// search tree when the order is the name order). Records do not cross sectors.
/// `rev`: the files' data and subdirectories are laid out in reverse.
pub fn build(t: &Tree, rev: bool) -> Vec<u8> {
    // table sizes
    let mut place = vec![(0u32, 0u32); t.items.len()];
    let mut offs = vec![0usize; t.items.len()];
    let mut sector = 33u32;
    let mut order: Vec<usize> = (0..t.items.len()).collect();
    if rev {
        order[1..].reverse();
    }
    for i in order {
        let it = &t.items[i];
        let size = if it.dir {
            let mut at = 0usize;
            for k in t.kids(i) {
                let n = 14 + t.items[k].name.len();
                if at / 2048 != (at + n - 1) / 2048 {
                    at = (at / 2048 + 1) * 2048;
                }
                offs[k] = at;
                at += (n + 3) / 4 * 4;
            }
            (at + 2047) / 2048 * 2048
        } else {
            it.data.len()
        };
        place[i] = (sector, size as u32);
        if rev {
            sector += 1;
        }
        sector += ((size + 2047) / 2048) as u32;
    }
    let mut img = vec![0u8; sector as usize * 2048];
    for i in 0..t.items.len() {
        let (s, _) = place[i];
        let base = s as usize * 2048;
        let it = &t.items[i];
        if !it.dir {
            img[base..base + it.data.len()].copy_from_slice(&it.data);
            continue;
        }
        for b in &mut img[base..base + place[i].1 as usize] {
            *b = 0xff;
        }
        let kids = t.kids(i);
        for (n, k) in kids.iter().enumerate() {
            let at = base + offs[*k];
            let right = if n + 1 < kids.len() { (offs[kids[n + 1]] / 4) as u16 } else { 0 };
            let ki = &t.items[*k];
            let mut rec = vec![];
            rec.extend_from_slice(&0u16.to_le_bytes());
            rec.extend_from_slice(&right.to_le_bytes());
            rec.extend_from_slice(&(if ki.big.unwrap_or(place[*k].1) == 0 { 0 } else { place[*k].0 }).to_le_bytes());
            rec.extend_from_slice(&ki.big.unwrap_or(place[*k].1).to_le_bytes());
            rec.push(if ki.dir { 0x10 } else { 0x80 });
            rec.push(ki.name.len() as u8);
            rec.extend_from_slice(&ki.name);
            img[at..at + rec.len()].copy_from_slice(&rec);
        }
    }
    let v = 32 * 2048;
    img[v..v + 20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    img[v + 20..v + 24].copy_from_slice(&place[0].0.to_le_bytes());
    img[v + 24..v + 28].copy_from_slice(&place[0].1.to_le_bytes());
    img[v + 2048 - 20..v + 2048].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    align(&mut img, 2048, 0);
    img
}

pub fn le(img: &[u8], at: usize, n: usize) -> usize {
    let mut v = 0;
    for i in 0..n {
        v |= (img[at + i] as usize) << (8 * i);
    }
    v
}

/// Where the record of an item of an image made by `build` is: its table, and its offset in there.
pub fn record(img: &[u8], t: &Tree, i: usize) -> (usize, usize) {
    let p = t.items[i].parent;
    let table = if p == 0 {
        le(img, 32 * 2048 + 20, 4) * 2048
    } else {
        let (b, o) = record(img, t, p);
        le(img, b + o + 4, 4) * 2048
    };
    let mut at = 0;
    for k in t.kids(p) {
        if k == i {
            break;
        }
        at = le(img, table + at + 2, 2) * 4;
    }
    (table, at)
}

/// Whether the image is exactly the tree (names in any order), read with the offsets of its records.
pub fn matches(img: &[u8], t: &Tree) -> bool {
    let v = 32 * 2048;
    if img.len() < v + 2048 || img.len() % (32 * 2048) != 0 {
        return false;
    }
    if &img[v..v + 20] != b"MICROSOFT*XBOX*MEDIA" || &img[v + 2048 - 20..v + 2048] != b"MICROSOFT*XBOX*MEDIA" {
        return false;
    }
    table(img, t, 0, le(img, v + 20, 4), le(img, v + 24, 4))
}

fn table(img: &[u8], t: &Tree, d: usize, sector: usize, size: usize) -> bool {
    let kids = t.kids(d);
    let base = sector * 2048;
    if kids.is_empty() && size == 0 {
        return true;
    }
    if img.len() < base + size {
        return false;
    }
    let mut seen = vec![];
    if !(kids.is_empty() && le(img, base, 4) == 0xffffffff) {
        let mut work = vec![0usize];
        while let Some(o) = work.pop() {
            if o + 14 > size || seen.len() == kids.len() {
                return false;
            }
            let at = base + o;
            let n = img[at + 13] as usize;
            if o + 14 + n > size {
                return false;
            }
            let mut found = 0;
            for k in &kids {
                if t.items[*k].name == img[at + 14..at + 14 + n] {
                    found = *k;
                }
            }
            if found == 0 || seen.contains(&found) {
                return false;
            }
            seen.push(found);
            let it = &t.items[found];
            let (s, z) = (le(img, at + 4, 4), le(img, at + 8, 4));
            if (img[at + 12] & 0x10 != 0) != it.dir {
                return false;
            }
            if it.dir {
                if !table(img, t, found, s, z) {
                    return false;
                }
            } else if z != it.data.len() || (z != 0 && (img.len() < s * 2048 + z || img[s * 2048..s * 2048 + z] != it.data[..])) {
                return false;
            }
            for c in [0, 2] {
                let o = le(img, at + c, 2) * 4;
                if o != 0 {
                    work.push(o);
                }
            }
        }
    }
    seen.len() == kids.len()
}

/// The end of the last region that the records of an image name
pub fn span(img: &[u8]) -> usize {
    let v = 32 * 2048;
    let mut end = v + 2048;
    let mut work = vec![(le(img, v + 20, 4) * 2048, le(img, v + 24, 4))];
    while let Some((base, size)) = work.pop() {
        end = end.max(base + size);
        if size == 0 || le(img, base, 4) == 0xffffffff {
            continue;
        }
        let mut offs = vec![0usize];
        while let Some(o) = offs.pop() {
            let at = base + o;
            let (s, z) = (le(img, at + 4, 4) * 2048, le(img, at + 8, 4));
            end = end.max(s + z);
            if img[at + 12] & 0x10 != 0 {
                work.push((s, z));
            }
            for c in [0, 2] {
                let o = le(img, at + c, 2) * 4;
                if o != 0 {
                    offs.push(o);
                }
            }
        }
    }
    end
}
