//! Files and directories in memory. Node 0 is the root.
#![allow(static_mut_refs)]
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Kind {
    File,
    Dir,
}

pub struct Node {
    pub parent: usize,
    pub name: Vec<u8>,
    pub kind: Kind,
    pub data: Vec<u8>,
    /// zeros before and other bytes after the data
    pub pad: u64,
    pub tail: u64,
    pub lost: u64,
    pub live: bool,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    pub log: Vec<(u8, usize)>,
    /// the operation, counted down, that fails (0: none)
    pub fault: u64,
}

static mut FS: Fs = Fs { nodes: Vec::new(), log: Vec::new(), fault: 0 };

pub fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}

pub fn tail_byte(_: u64) -> u8 {
    0
}

impl Fs {
    pub fn tick(&mut self) -> bool {
        if self.fault == 0 {
            return false;
        }
        self.fault -= 1;
        self.fault == 0
    }
    pub fn child(&self, d: usize, name: &[u8]) -> Option<usize> {
        (1..self.nodes.len()).find(|n| self.nodes[*n].live && self.nodes[*n].parent == d && self.nodes[*n].name == name)
    }
    pub fn make(&mut self, parent: usize, name: Vec<u8>, kind: Kind) -> usize {
        if self.nodes.is_empty() {
            self.nodes.push(Node { parent: 0, name: vec![], kind: Kind::Dir, data: vec![], pad: 0, tail: 0, lost: 0, live: true });
        }
        self.nodes.push(Node { parent, name, kind, data: vec![], pad: 0, tail: 0, lost: 0, live: true });
        self.nodes.len() - 1
    }
    pub fn file(&mut self, parent: usize, name: &str, data: &[u8]) -> usize {
        let n = self.make(parent, name.into(), Kind::File);
        self.nodes[n].data = data.to_vec();
        n
    }
    pub fn dir(&mut self, parent: usize, name: &str) -> usize {
        self.make(parent, name.into(), Kind::Dir)
    }
}
