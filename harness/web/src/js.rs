//! A model of the parts of JavaScript and of the browser that the web application uses: values,
//! promises (settled when they are made), files and directories of the File System Access API.
//! A writable stream collects what is written in a copy, which takes the place of the file when the
//! stream is closed. Every operation that returns a promise can fail.
#![allow(static_mut_refs)]
use crate::vfs::{fs, tail_byte, Kind};
use std::future::Future;
use std::ops::Deref;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Undefined,
    Bool(bool),
    Text(String),
    List(Vec<JsValue>),
    /// the answer of an iterator
    Next(bool, Vec<JsValue>),
    /// a file or directory
    Node(usize),
    Stream(usize),
    Blob(Blob),
    Buffer(Vec<u8>),
    Error,
}

#[derive(Clone, PartialEq, Debug)]
pub struct JsValue(Val);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Undefined);
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Val::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Val::Text(s.to_string()))
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == Val::Undefined
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(Val::Text(s))
    }
}

macro_rules! object {
    ($t:ident) => {
        #[derive(Clone, PartialEq, Debug)]
        pub struct $t(JsValue);
        impl Deref for $t {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<JsValue> for $t {
            fn from(v: JsValue) -> Self {
                $t(v)
            }
        }
        impl From<$t> for JsValue {
            fn from(v: $t) -> Self {
                v.0
            }
        }
    };
}
object!(JsString);
object!(Array);
object!(Object);

impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(JsValue::from_str(s))
    }
}

impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(JsValue::from(s))
    }
}

impl Array {
    pub fn get(&self, i: u32) -> JsValue {
        match &self.0 .0 {
            Val::List(v) if (i as usize) < v.len() => v[i as usize].clone(),
            _ => JsValue::UNDEFINED,
        }
    }
    pub fn length(&self) -> u32 {
        match &self.0 .0 {
            Val::List(v) => v.len() as u32,
            _ => 0,
        }
    }
}

pub struct Reflect;

impl Reflect {
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let k = key.as_string().unwrap_or_default();
        Ok(match (&target.0, k.as_str()) {
            (Val::Next(done, _), "done") => JsValue(Val::Bool(*done)),
            (Val::Next(false, v), "value") => JsValue(Val::List(v.clone())),
            (Val::Node(n), "kind") => JsValue::from_str(if fs().nodes[*n].kind == Kind::Dir { "directory" } else { "file" }),
            (Val::Node(n), "name") => JsValue::from(name(*n)),
            _ => JsValue::UNDEFINED,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Promise(Result<JsValue, JsValue>);

fn settle(f: impl FnOnce() -> Result<Val, ()>) -> Promise {
    if fs().tick() {
        return Promise(Err(JsValue(Val::Error)));
    }
    Promise(f().map(JsValue).map_err(|_| JsValue(Val::Error)))
}

pub struct JsFuture(Option<Promise>);

impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture(Some(p))
    }
}

impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.take() {
            Some(p) => Poll::Ready(p.0),
            None => Poll::Pending,
        }
    }
}

pub struct Uint8Array(Vec<u8>);

impl Uint8Array {
    pub fn new(v: &JsValue) -> Self {
        match &v.0 {
            Val::Buffer(b) => Uint8Array(b.clone()),
            _ => Uint8Array(vec![]),
        }
    }
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        assert_eq!(self.0.len(), dst.len());
        dst.copy_from_slice(&self.0);
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.clone()
    }
}

impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Uint8Array(b.to_vec())
    }
}

/// a range of a file
#[derive(Clone, PartialEq, Debug)]
pub struct Blob {
    node: usize,
    start: u64,
    end: u64,
}

impl Blob {
    pub fn size(&self) -> f64 {
        (self.end - self.start) as f64
    }
    pub fn slice_with_f64_and_f64_and_content_type(&self, from: f64, to: f64, _: &str) -> Result<Blob, JsValue> {
        let size = self.end - self.start;
        let clamp = |x: f64| {
            if x < 0.0 {
                size.saturating_sub(-x as u64)
            } else {
                size.min(x as u64)
            }
        };
        let (a, b) = (clamp(from), clamp(to));
        Ok(Blob { node: self.node, start: self.start + a, end: self.start + b.max(a) })
    }
    pub fn array_buffer(&self) -> Promise {
        settle(|| Ok(Val::Buffer(self.bytes()?)))
    }
    fn bytes(&self) -> Result<Vec<u8>, ()> {
        let f = fs();
        let n = &f.nodes[self.node];
        let len = n.data.len() as u64;
        // the file has changed below the snapshot
        if self.end > n.pad + len + n.tail {
            return Err(());
        }
        let mut v = Vec::with_capacity((self.end - self.start) as usize);
        let mut p = self.start;
        while p < self.end {
            if p < n.pad {
                let k = (n.pad.min(self.end) - p) as usize;
                v.resize(v.len() + k, 0);
                p += k as u64;
            } else if p < n.pad + len {
                let k = ((n.pad + len).min(self.end) - p) as usize;
                v.extend_from_slice(&n.data[(p - n.pad) as usize..][..k]);
                p += k as u64;
            } else {
                v.push(tail_byte(p));
                p += 1;
            }
        }
        Ok(v)
    }
}

#[derive(Clone)]
pub struct File(Blob);

impl Deref for File {
    type Target = Blob;
    fn deref(&self) -> &Blob {
        &self.0
    }
}

impl From<JsValue> for File {
    fn from(v: JsValue) -> Self {
        match v.0 {
            Val::Blob(b) => File(b),
            _ => File(Blob { node: 0, start: 0, end: 0 }),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FileSystemHandle(pub usize);

impl FileSystemHandle {
    pub fn name(&self) -> String {
        name(self.0)
    }
}

fn name(n: usize) -> String {
    String::from_utf8(fs().nodes[n].name.clone()).unwrap_or_default()
}

macro_rules! handle {
    ($t:ident, $dir:expr) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        pub struct $t(pub FileSystemHandle);
        impl Deref for $t {
            type Target = FileSystemHandle;
            fn deref(&self) -> &FileSystemHandle {
                &self.0
            }
        }
        impl From<JsValue> for $t {
            fn from(v: JsValue) -> Self {
                match v.0 {
                    Val::Node(n) if (fs().nodes[n].kind == Kind::Dir) == $dir => $t(FileSystemHandle(n)),
                    _ => panic!("not a handle of this kind"),
                }
            }
        }
    };
}
handle!(FileSystemDirectoryHandle, true);
handle!(FileSystemFileHandle, false);

/// getDirectoryHandle and getFileHandle
pub fn child(d: usize, name: &str, dir: bool, create: bool) -> Promise {
    settle(|| {
        let f = fs();
        let n = name.as_bytes();
        if n.is_empty() || n == b"." || n == b".." || n.contains(&b'/') || !f.nodes[d].live {
            return Err(());
        }
        let kind = if dir { Kind::Dir } else { Kind::File };
        match f.child(d, n) {
            Some(c) if f.nodes[c].kind == kind => Ok(Val::Node(c)),
            None if create => {
                let c = f.make(d, n.to_vec(), kind);
                f.log.push((if dir { b'm' } else { b'c' }, c));
                Ok(Val::Node(c))
            }
            _ => Err(()),
        }
    })
}

pub fn remove(d: usize, name: &str) -> Promise {
    settle(|| {
        let f = fs();
        let c = f.child(d, name.as_bytes()).ok_or(())?;
        if f.nodes[c].kind == Kind::Dir && (1..f.nodes.len()).any(|k| f.nodes[k].live && f.nodes[k].parent == c) {
            return Err(());
        }
        f.nodes[c].live = false;
        f.log.push((b'd', c));
        Ok(Val::Undefined)
    })
}

pub struct AsyncIterator(std::cell::Cell<usize>, usize);

impl AsyncIterator {
    pub fn next(&self) -> Result<Promise, JsValue> {
        Ok(settle(|| {
            let f = fs();
            for k in self.0.get()..f.nodes.len() {
                if f.nodes[k].live && f.nodes[k].parent == self.1 {
                    self.0.set(k + 1);
                    return Ok(Val::Next(false, vec![JsValue::from(name(k)), JsValue(Val::Node(k))]));
                }
            }
            Ok(Val::Next(true, vec![]))
        }))
    }
}

impl FileSystemDirectoryHandle {
    pub fn entries(&self) -> AsyncIterator {
        AsyncIterator(std::cell::Cell::new(1), self.0 .0)
    }
}

/// files that were asked for already (their size is then known to the application)
static mut ASKED: Vec<usize> = Vec::new();

pub struct Stream {
    node: usize,
    data: Vec<u8>,
    pos: u64,
    open: bool,
}
pub static mut STREAMS: Vec<Stream> = Vec::new();

pub fn streams() -> &'static mut Vec<Stream> {
    unsafe { &mut STREAMS }
}

pub fn all_closed() -> bool {
    streams().iter().all(|s| !s.open)
}

impl FileSystemFileHandle {
    pub fn get_file(&self) -> Promise {
        let n = self.0 .0;
        settle(|| {
            let f = fs();
            if !f.nodes[n].live {
                return Err(());
            }
            let nd = &f.nodes[n];
            let mut len = nd.data.len() as u64 + nd.pad + nd.tail;
            let asked = unsafe { &mut ASKED };
            if !asked.contains(&n) {
                // the file changes after this
                len = len.wrapping_add(nd.lost);
                asked.push(n);
            }
            Ok(Val::Blob(Blob { node: n, start: 0, end: len }))
        })
    }
    pub fn create_writable(&self) -> Promise {
        let n = self.0 .0;
        settle(|| {
            streams().push(Stream { node: n, data: vec![], pos: 0, open: true });
            Ok(Val::Stream(streams().len() - 1))
        })
    }
}

#[derive(Clone)]
pub struct FileSystemWritableFileStream(usize);

impl From<JsValue> for FileSystemWritableFileStream {
    fn from(v: JsValue) -> Self {
        match v.0 {
            Val::Stream(s) => FileSystemWritableFileStream(s),
            _ => panic!("not a stream"),
        }
    }
}

impl FileSystemWritableFileStream {
    fn put(&self, b: &[u8]) -> Result<Val, ()> {
        let s = &mut streams()[self.0];
        if !s.open {
            return Err(());
        }
        let p = s.pos as usize;
        if s.data.len() < p + b.len() {
            s.data.resize(p + b.len(), 0);
        }
        s.data[p..p + b.len()].copy_from_slice(b);
        s.pos += b.len() as u64;
        Ok(Val::Undefined)
    }
    pub fn write_u8_array(&self, data: Uint8Array) -> Promise {
        settle(|| self.put(&data.0))
    }
    pub fn write_blob(&self, data: Blob) -> Promise {
        settle(|| self.put(&data.bytes()?))
    }
    pub fn write_file(&self, data: File) -> Promise {
        self.write_blob(data.0)
    }
    pub fn seek(&self, to: f64) -> Promise {
        settle(|| {
            let s = &mut streams()[self.0];
            if !s.open {
                return Err(());
            }
            s.pos = to as u64;
            Ok(Val::Undefined)
        })
    }
    pub fn close(&self) -> Promise {
        settle(|| {
            let f = fs();
            let s = &mut streams()[self.0];
            if !s.open {
                return Err(());
            }
            s.open = false;
            f.nodes[s.node].data = s.data.clone();
            f.nodes[s.node].pad = 0;
            f.log.push((b'w', s.node));
            Ok(Val::Undefined)
        })
    }
    pub fn abort(&self) -> Promise {
        settle(|| {
            streams()[self.0].open = false;
            Ok(Val::Undefined)
        })
    }
}

/// yew's callback
pub struct Callback<IN, OUT = ()>(std::rc::Rc<dyn Fn(IN) -> OUT>);

impl<IN, OUT> Clone for Callback<IN, OUT> {
    fn clone(&self) -> Self {
        Callback(self.0.clone())
    }
}

impl<IN, OUT> Callback<IN, OUT> {
    pub fn emit(&self, v: IN) -> OUT {
        (self.0)(v)
    }
}

impl<IN, OUT, F: Fn(IN) -> OUT + 'static> From<F> for Callback<IN, OUT> {
    fn from(f: F) -> Self {
        Callback(std::rc::Rc::new(f))
    }
}
