//! The C library's file functions, over an in-memory tree. The real std::fs / std::io code (and
//! with it the real command code) runs on top of these, symbolically and in the native replay; no
//! call reaches the real file system.
#![allow(static_mut_refs)]
use core::ffi::{c_char, c_int, c_void};

pub const ENOENT: c_int = 2;
pub const EIO: c_int = 5;
pub const EBADF: c_int = 9;
pub const EEXIST: c_int = 17;
pub const ENOTDIR: c_int = 20;
pub const EISDIR: c_int = 21;
pub const EINVAL: c_int = 22;
pub const ENOSYS: c_int = 38;
pub const ELOOP: c_int = 40;
pub const ENOTEMPTY: c_int = 39;

#[derive(Clone, PartialEq)]
pub enum Kind {
    Dir,
    File,
    Link,
    Other,
}

#[derive(Clone)]
pub struct Node {
    pub parent: usize,
    pub name: Vec<u8>,
    pub kind: Kind,
    /// contents of a file after `pad` zero bytes, target of a link
    pub data: Vec<u8>,
    pub pad: u64,
    /// number of bytes after `data`, whose values follow from their position (`tail_byte`)
    pub tail: u64,
    /// the file has become this much shorter (longer, when negative) since it was listed
    pub lost: u64,
    pub live: bool,
    /// created by the code under test
    pub new: bool,
}

#[derive(Clone, Copy)]
struct Open {
    node: usize,
    pos: u64,
    read: bool,
    write: bool,
    refs: u32,
}

struct Dir {
    fd: c_int,
    node: usize,
    next: usize,
    ent: libc::dirent64,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    fds: Vec<Option<usize>>,
    open: Vec<Open>,
    pub cwd: usize,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// number of the operation that fails (0: none)
    pub fault: u64,
    pub ops: u64,
    pub faulted: bool,
    /// a read returns at most this much (0: no limit)
    pub short_read: usize,
    pub short_write: usize,
    /// every change: ('c'reate, 't'runcate, 'w'rite, 'm'kdir, 'd'elete, 'r'ename from, 'R'ename to, node)
    pub log: Vec<(u8, usize)>,
    /// copy_file_range works
    pub kernel_copy: bool,
    /// set while the harness itself inspects or prepares (no faults)
    pub quiet: bool,
    /// the program waits for something that cannot happen
    pub stuck: bool,
    /// operations after which the program is stopped (0: no limit)
    pub limit: u64,
}

pub static mut FS: Fs = Fs {
    nodes: Vec::new(),
    fds: Vec::new(),
    open: Vec::new(),
    cwd: 0,
    out: Vec::new(),
    err: Vec::new(),
    fault: 0,
    ops: 0,
    faulted: false,
    short_read: 0,
    short_write: 0,
    log: Vec::new(),
    kernel_copy: false,
    quiet: false,
    stuck: false,
    limit: 0,
};
static mut ERRNO: c_int = 0;

pub fn fs() -> &'static mut Fs {
    unsafe { &mut *core::ptr::addr_of_mut!(FS) }
}

/// the byte at a position of the part of a file that is not stored
pub fn tail_byte(p: u64) -> u8 {
    (p ^ p >> 8 ^ p >> 16 ^ p >> 24 ^ p >> 32) as u8
}

impl Fs {
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.nodes.push(Node { parent: 0, name: Vec::new(), kind: Kind::Dir, data: Vec::new(), pad: 0, tail: 0, lost: 0, live: true, new: false });
        self.fds = vec![None, None, None];
        self.open.clear();
        self.cwd = 0;
    }
    pub fn add(&mut self, parent: usize, name: &str, kind: Kind, data: Vec<u8>) -> usize {
        self.nodes.push(Node { parent, name: name.as_bytes().to_vec(), kind, data, pad: 0, tail: 0, lost: 0, live: true, new: false });
        self.nodes.len() - 1
    }
    pub fn dir(&mut self, parent: usize, name: &str) -> usize {
        self.add(parent, name, Kind::Dir, vec![])
    }
    pub fn file(&mut self, parent: usize, name: &str, data: Vec<u8>) -> usize {
        self.add(parent, name, Kind::File, data)
    }
    pub fn child(&self, d: usize, name: &[u8]) -> Option<usize> {
        (1..self.nodes.len()).find(|i| self.nodes[*i].live && self.nodes[*i].parent == d && self.nodes[*i].name == name)
    }
    /// is n inside (or equal to) d
    pub fn within(&self, mut n: usize, d: usize) -> bool {
        loop {
            if n == d {
                return true;
            }
            if n == 0 {
                return false;
            }
            n = self.nodes[n].parent;
        }
    }
    pub fn path(&self, mut n: usize) -> Vec<u8> {
        if n == 0 {
            return b"/".to_vec();
        }
        let mut parts: Vec<usize> = vec![];
        while n != 0 {
            parts.push(n);
            n = self.nodes[n].parent;
        }
        let mut v = vec![];
        while let Some(p) = parts.pop() {
            v.push(b'/');
            v.extend_from_slice(&self.nodes[p].name);
        }
        v
    }
    /// One more fallible operation; true when it is to fail.
    pub fn tick(&mut self) -> bool {
        if self.quiet {
            return false;
        }
        self.ops += 1;
        if self.limit != 0 && self.ops >= self.limit {
            crate::sym::throw();
        }
        if self.fault == self.ops {
            self.faulted = true;
            return true;
        }
        false
    }
    /// (directory, last name, node if it exists)
    pub fn walk(&self, path: &[u8], follow: bool, depth: usize) -> Result<(usize, Vec<u8>, Option<usize>), c_int> {
        self.walk_from(self.cwd, path, follow, depth)
    }
    fn walk_from(&self, base: usize, path: &[u8], follow: bool, depth: usize) -> Result<(usize, Vec<u8>, Option<usize>), c_int> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if depth > 8 {
            return Err(ELOOP);
        }
        let mut d = if path[0] == b'/' { 0 } else { base };
        let mut last: (usize, Vec<u8>, Option<usize>) = (d, vec![], Some(d));
        let mut i = 0;
        while i < path.len() {
            if path[i] == b'/' {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < path.len() && path[j] != b'/' {
                j += 1;
            }
            let name = &path[i..j];
            let mut more = false;
            for c in &path[j..] {
                more = more || *c != b'/';
            }
            let slash = j < path.len();
            match last.2 {
                None => return Err(ENOENT),
                Some(n) => {
                    if self.nodes[n].kind != Kind::Dir {
                        return Err(ENOTDIR);
                    }
                    d = n;
                }
            }
            if name == b"." {
                last = (d, vec![], Some(d));
            } else if name == b".." {
                let p = self.nodes[d].parent;
                last = (p, vec![], Some(p));
            } else {
                let c = self.child(d, name);
                last = (d, name.to_vec(), c);
                if let Some(n) = c {
                    if self.nodes[n].kind == Kind::Link && (more || slash || follow) {
                        let t = self.nodes[n].data.clone();
                        last = self.walk_from(d, &t, true, depth + 1)?;
                    }
                }
            }
            if slash && !more {
                if let Some(n) = last.2 {
                    if self.nodes[n].kind != Kind::Dir {
                        return Err(ENOTDIR);
                    }
                }
            }
            i = j;
        }
        Ok(last)
    }
    fn lookup(&self, path: &[u8], follow: bool) -> Result<usize, c_int> {
        self.walk(path, follow, 0)?.2.ok_or(ENOENT)
    }
    fn new_fd(&mut self, o: usize) -> c_int {
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(o);
                return i as c_int;
            }
        }
        self.fds.push(Some(o));
        (self.fds.len() - 1) as c_int
    }
    fn desc(&mut self, fd: c_int) -> Result<usize, c_int> {
        if fd < 3 || fd as usize >= self.fds.len() {
            return Err(EBADF);
        }
        self.fds[fd as usize].ok_or(EBADF)
    }
    pub fn open_node(&mut self, node: usize, read: bool, write: bool) -> c_int {
        self.open.push(Open { node, pos: 0, read, write, refs: 1 });
        let o = self.open.len() - 1;
        self.new_fd(o)
    }
    pub fn open_files(&self) -> usize {
        self.fds.iter().skip(3).filter(|f| f.is_some()).count()
    }
    fn data_read(&mut self, fd: c_int, buf: *mut u8, n: usize) -> Result<usize, c_int> {
        let o = self.desc(fd)?;
        if !self.open[o].read {
            return Err(EBADF);
        }
        let nd = &self.nodes[self.open[o].node];
        if nd.kind == Kind::Dir {
            return Err(EISDIR);
        }
        let pos = self.open[o].pos;
        if nd.kind == Kind::Other && pos >= nd.data.len() as u64 {
            // an empty pipe that this process could still write to
            let node = self.open[o].node;
            if self.open.iter().any(|w| w.node == node && w.write && w.refs > 0) {
                self.stuck = true;
                crate::sym::throw();
            }
        }
        let len = nd.data.len() as u64 + nd.pad + nd.tail;
        let left = if pos >= len { 0 } else { (len - pos) as usize };
        let mut k = if n < left { n } else { left };
        if self.short_read != 0 && k > self.short_read {
            k = self.short_read;
        }
        if k != 0 && pos < nd.pad {
            k = k.min((nd.pad - pos) as usize);
            unsafe { core::ptr::write_bytes(buf, 0, k) };
        } else if k != 0 && nd.tail != 0 && pos >= nd.pad + nd.data.len() as u64 {
            k = crate::sym::concretize(k as u64) as usize;
            for i in 0..k {
                unsafe { *buf.add(i) = tail_byte(pos.wrapping_add(i as u64)) };
            }
        } else if k != 0 {
            if nd.tail != 0 {
                k = k.min((nd.pad + nd.data.len() as u64 - pos) as usize);
            }
            unsafe { core::ptr::copy_nonoverlapping(nd.data.as_ptr().add((pos - nd.pad) as usize), buf, k) };
        }
        self.open[o].pos = pos + k as u64;
        Ok(k)
    }
    fn data_write(&mut self, fd: c_int, buf: *const u8, n: usize) -> Result<usize, c_int> {
        let o = self.desc(fd)?;
        if !self.open[o].write {
            return Err(EBADF);
        }
        let node = self.open[o].node;
        let mut k = n;
        if self.short_write != 0 && k > self.short_write {
            k = self.short_write;
        }
        let pos = self.open[o].pos as usize;
        let d = &mut self.nodes[node].data;
        if pos + k > d.len() {
            d.resize(pos + k, 0);
        }
        if k != 0 {
            unsafe { core::ptr::copy_nonoverlapping(buf, d.as_mut_ptr().add(pos), k) };
        }
        self.open[o].pos += k as u64;
        self.log.push((b'w', node));
        Ok(k)
    }
    pub fn make(&mut self, parent: usize, name: Vec<u8>, kind: Kind) -> usize {
        self.nodes.push(Node { parent, name, kind, data: vec![], pad: 0, tail: 0, lost: 0, live: true, new: true });
        self.nodes.len() - 1
    }
}

unsafe fn s<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    core::slice::from_raw_parts(p as *const u8, n)
}
fn fail(e: c_int) -> c_int {
    unsafe { ERRNO = e };
    -1
}

#[no_mangle]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    core::ptr::addr_of_mut!(ERRNO)
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, buf: *mut c_char, n: usize) -> c_int {
    let m = b"os error\0";
    let mut i = 0;
    while i < m.len() && i < n {
        *buf.add(i) = m[i] as c_char;
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    let p = s(path);
    let acc = flags & libc::O_ACCMODE;
    let (d, name, n) = match f.walk(p, flags & libc::O_NOFOLLOW == 0, 0) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    let node = match n {
        Some(n) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(EEXIST);
            }
            if f.nodes[n].kind == Kind::Dir && acc != libc::O_RDONLY {
                return fail(EISDIR);
            }
            if flags & libc::O_DIRECTORY != 0 && f.nodes[n].kind != Kind::Dir {
                return fail(ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                f.nodes[n].data.clear();
                f.log.push((b't', n));
            }
            n
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return fail(ENOENT);
            }
            if name.is_empty() || p[p.len() - 1] == b'/' {
                return fail(EISDIR);
            }
            let n = f.make(d, name, Kind::File);
            f.log.push((b'c', n));
            n
        }
    };
    f.open.push(Open { node, pos: 0, read: acc != libc::O_WRONLY, write: acc != libc::O_RDONLY, refs: 1 });
    let o = f.open.len() - 1;
    if flags & libc::O_APPEND != 0 {
        f.open[o].pos = f.nodes[node].data.len() as u64;
    }
    f.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = fs();
    match f.desc(fd) {
        Ok(o) => {
            f.open[o].refs -= 1;
            f.fds[fd as usize] = None;
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, _arg: c_int) -> c_int {
    let f = fs();
    if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
        if f.tick() {
            return fail(EIO);
        }
        return match f.desc(fd) {
            Ok(o) => {
                f.open[o].refs += 1;
                f.new_fd(o)
            }
            Err(e) => fail(e),
        };
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let f = fs();
    if f.tick() {
        return fail(EIO) as isize;
    }
    match f.data_read(fd, buf as *mut u8, n) {
        Ok(k) => k as isize,
        Err(e) => fail(e) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let f = fs();
    if fd == 1 || fd == 2 {
        let v = if fd == 1 { &mut f.out } else { &mut f.err };
        v.extend_from_slice(core::slice::from_raw_parts(buf as *const u8, n));
        return n as isize;
    }
    if f.tick() {
        return fail(EIO) as isize;
    }
    match f.data_write(fd, buf as *const u8, n) {
        Ok(k) => k as isize,
        Err(e) => fail(e) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    let mut t = 0isize;
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len == 0 {
            continue;
        }
        let r = write(fd, v.iov_base, v.iov_len);
        if r < 0 {
            return if t == 0 { r } else { t };
        }
        t += r;
        if (r as usize) < v.iov_len {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len != 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let f = fs();
    let o = match f.desc(fd) {
        Ok(o) => o,
        Err(e) => return fail(e) as isize,
    };
    let p = f.open[o].pos;
    f.open[o].pos = off as u64;
    let r = read(fd, buf, n);
    f.open[o].pos = p;
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let f = fs();
    let o = match f.desc(fd) {
        Ok(o) => o,
        Err(e) => return fail(e) as isize,
    };
    let p = f.open[o].pos;
    f.open[o].pos = off as u64;
    let r = write(fd, buf, n);
    f.open[o].pos = p;
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let f = fs();
    let o = match f.desc(fd) {
        Ok(o) => o,
        Err(e) => return fail(e) as i64,
    };
    let base = match whence {
        0 => 0,
        1 => f.open[o].pos as i64,
        _ => f.nodes[f.open[o].node].data.len() as i64 + (f.nodes[f.open[o].node].pad + f.nodes[f.open[o].node].tail) as i64,
    };
    let Some(p) = base.checked_add(off) else { return fail(EINVAL) as i64 };
    if p < 0 {
        return fail(EINVAL) as i64;
    }
    f.open[o].pos = p as u64;
    p
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
unsafe fn fill(f: &Fs, n: usize, st: *mut libc::stat64) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<libc::stat64>());
    let nd = &f.nodes[n];
    (*st).st_ino = n as u64 + 1;
    (*st).st_size = ((nd.data.len() as u64 + nd.pad + nd.tail) as i64).wrapping_add(nd.lost as i64);
    (*st).st_mode = match nd.kind {
        Kind::Dir => 0o40755,
        Kind::File => 0o100644,
        Kind::Link => 0o120777,
        Kind::Other => 0o010644,
    };
}
unsafe fn stat_path(base: usize, path: *const c_char, st: *mut libc::stat64, follow: bool) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    match f.walk_from(base, s(path), follow, 0).and_then(|x| x.2.ok_or(ENOENT)) {
        Ok(n) => {
            fill(f, n, st);
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(fs().cwd, path, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(fs().cwd, path, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let f = fs();
    let base = match fd {
        libc::AT_FDCWD => f.cwd,
        fd => match f.desc(fd) {
            Ok(o) => f.open[o].node,
            Err(e) => return fail(e),
        },
    };
    stat_path(base, path, st, flags & libc::AT_SYMLINK_NOFOLLOW == 0)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    match f.desc(fd) {
        Ok(o) => {
            let n = f.open[o].node;
            fill(f, n, st);
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(_fd: c_int, _p: *const c_char, _flags: c_int, _mask: u32, _st: *mut c_void) -> c_int {
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, _mode: c_int) -> c_int {
    match fs().lookup(s(path), true) {
        Ok(_) => 0,
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, _mode: u32) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    match f.walk(s(path), false, 0) {
        Ok((_, _, Some(_))) => fail(EEXIST),
        Ok((d, name, None)) => {
            let n = f.make(d, name, Kind::Dir);
            f.log.push((b'm', n));
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let f = fs();
    match f.lookup(s(path), false) {
        Ok(n) => {
            if f.nodes[n].kind != Kind::Dir {
                return fail(ENOTDIR);
            }
            f.nodes[n].live = false;
            f.log.push((b'd', n));
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    match f.lookup(s(path), false) {
        Ok(n) => {
            if f.nodes[n].kind == Kind::Dir {
                return fail(EISDIR);
            }
            f.nodes[n].live = false;
            f.log.push((b'd', n));
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    let n = match f.lookup(s(a), false) {
        Ok(n) => n,
        Err(e) => return fail(e),
    };
    match f.walk(s(b), false, 0) {
        Ok((_, _, Some(t))) if t == n => 0,
        Ok((d, name, t)) => {
            if let Some(t) = t {
                if f.nodes[t].kind == Kind::Dir {
                    return fail(EISDIR);
                }
                f.nodes[t].live = false;
                f.log.push((b'd', t));
            }
            f.nodes[n].parent = d;
            f.nodes[n].name = name;
            f.log.push((b'r', n));
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = fs();
    if f.tick() {
        return fail(EIO);
    }
    match f.desc(fd) {
        Ok(o) => {
            let node = f.open[o].node;
            f.nodes[node].data.resize(n as usize, 0);
            f.log.push((b'w', node));
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let f = fs();
    if f.tick() {
        fail(EIO);
        return core::ptr::null_mut();
    }
    match f.lookup(s(path), true) {
        Ok(n) => {
            if f.nodes[n].kind != Kind::Dir {
                fail(ENOTDIR);
                return core::ptr::null_mut();
            }
            f.open.push(Open { node: n, pos: 0, read: true, write: false, refs: 1 });
            let fd = f.new_fd(f.open.len() - 1);
            let d = Box::new(Dir { fd, node: n, next: 0, ent: core::mem::zeroed() });
            Box::into_raw(d) as *mut c_void
        }
        Err(e) => {
            fail(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut Dir);
    let f = fs();
    if f.tick() {
        fail(EIO);
        return core::ptr::null_mut();
    }
    while d.next < f.nodes.len() {
        let i = d.next;
        d.next += 1;
        let n = &f.nodes[i];
        if i == 0 || !n.live || n.parent != d.node {
            continue;
        }
        d.ent.d_ino = i as u64 + 1;
        d.ent.d_type = match n.kind {
            Kind::Dir => libc::DT_DIR,
            Kind::File => libc::DT_REG,
            Kind::Link => libc::DT_LNK,
            Kind::Other => libc::DT_FIFO,
        };
        for (k, c) in n.name.iter().enumerate() {
            d.ent.d_name[k] = *c as c_char;
        }
        d.ent.d_name[n.name.len()] = 0;
        return &mut d.ent;
    }
    core::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = Box::from_raw(d as *mut Dir);
    close(d.fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Dir)).fd
}
extern "C" {
    fn malloc(n: usize) -> *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, _buf: *mut c_char) -> *mut c_char {
    let f = fs();
    if f.tick() {
        fail(EIO);
        return core::ptr::null_mut();
    }
    match f.lookup(s(path), true) {
        Ok(n) => {
            let p = f.path(n);
            let b = malloc(p.len() + 1) as *mut u8;
            core::ptr::copy_nonoverlapping(p.as_ptr(), b, p.len());
            *b.add(p.len()) = 0;
            b as *mut c_char
        }
        Err(e) => {
            fail(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: usize) -> isize {
    let f = fs();
    match f.lookup(s(path), false) {
        Ok(i) if f.nodes[i].kind == Kind::Link => {
            let d = &f.nodes[i].data;
            let k = if d.len() < n { d.len() } else { n };
            core::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, k);
            k as isize
        }
        Ok(_) => fail(EINVAL) as isize,
        Err(e) => fail(e) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    let f = fs();
    let p = f.path(f.cwd);
    if p.len() + 1 > n {
        fail(34);
        return core::ptr::null_mut();
    }
    core::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
    *buf.add(p.len()) = 0;
    buf
}
// unless kernel_copy is set there is no copying in the kernel: std falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ap: *mut i64, b: c_int, bp: *mut i64, n: usize, _f: u32) -> isize {
    let f = fs();
    if !f.kernel_copy {
        return fail(ENOSYS) as isize;
    }
    if !ap.is_null() || !bp.is_null() {
        return fail(EINVAL) as isize;
    }
    if f.tick() {
        return fail(EIO) as isize;
    }
    let n = if n < 1 << 16 { n } else { 1 << 16 };
    let mut v = vec![0u8; n];
    let k = match f.data_read(a, v.as_mut_ptr(), n) {
        Ok(k) => k,
        Err(e) => return fail(e) as isize,
    };
    let mut at = 0;
    while at < k {
        match f.data_write(b, v.as_ptr().add(at), k - at) {
            Ok(w) => at += w,
            Err(e) => return fail(e) as isize,
        }
    }
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut i64, _n: usize) -> isize {
    fail(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize {
    fail(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn memchr(p: *const c_void, c: c_int, n: usize) -> *mut c_void {
    let p = p as *const u8;
    let mut i = 0;
    while i < n {
        if *p.add(i) == c as u8 {
            return p.add(i) as *mut c_void;
        }
        i += 1;
    }
    core::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn memrchr(p: *const c_void, c: c_int, n: usize) -> *mut c_void {
    let p = p as *const u8;
    let mut i = n;
    while i > 0 {
        i -= 1;
        if *p.add(i) == c as u8 {
            return p.add(i) as *mut c_void;
        }
    }
    core::ptr::null_mut()
}
