//! Reader for the textual LLVM IR that rustc emits. Function bodies and global
//! initialisers are parsed lazily.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Func,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w as u64 + 7) / 8 {
                0..=1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
}

/// constants
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Rc<Vec<K>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    K(K),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(Rc<str>),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, u32, Opd, Opd),
    Icmp(Pred, Ty, u32, Opd, Opd),
    Cast(CastOp, Ty, Ty, u32, Opd),
    /// floating point (operation, operand type, result type, destination, operands)
    Fp(Rc<str>, Ty, Ty, u32, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    Select(u32, Ty, Ty, Opd, Opd, Opd),
    Alloca(u32, u64, Opd),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, Option<u32>), // last: normal dest for invoke
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<i64>),
    Copy(u32, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Rmw(u32, Rc<str>, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub idx: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub lines: Option<(usize, usize)>, // body line range incl. define line
    pub parsed: RefCell<Option<Rc<Func>>>,
}
pub struct Global {
    pub name: Rc<str>,
    pub line: usize,
    pub ty: RefCell<Option<Ty>>,
    pub constant: bool,
}

pub const FUNC_BASE: u64 = 0x7000_0000;
pub const GLOB_BASE: u64 = 0x4000_0000;

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<&'static str>,
    pub types: HashMap<&'static str, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<Rc<str>, u32>,
    pub globs: Vec<Global>,
    pub gidx: HashMap<Rc<str>, u32>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),       // word / keyword / int type
    L(&'a str),       // %local (without %), unquoted
    G(&'a str),       // @global
    N(&'a str),       // number
    S(&'a str),       // "string"
    CS(&'a str),      // c"string"
    P(char),          // punctuation
    M,                // metadata !.. (name/num)
    A,                // #N attribute
    Dots,
}

fn lex<'a>(s: &'a str) -> Vec<T<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(24);
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && isw(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { T::L(&s[st..en]) } else { T::G(&s[st..en]) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::S(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::CS(&s[i + 2..j]));
                i = j + 1;
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && isw(b[i]) {
                        i += 1;
                    }
                }
                out.push(T::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && isw(b[i]) {
                    i += 1;
                }
                out.push(T::A);
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::Dots);
                i += 3;
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                let mut j = i + 1;
                while j < b.len() && (isw(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(T::N(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) {
                    j += 1;
                }
                out.push(T::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

type PR<X> = Result<X, String>;

struct Ps<'m, 'a> {
    m: &'m Module,
    t: Vec<T<'a>>,
    p: usize,
    regs: Option<&'m RefCell<HashMap<String, u32>>>,
}

impl<'m, 'a> Ps<'m, 'a> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.p)
    }
    fn next(&mut self) -> PR<T<'a>> {
        let r = self.t.get(self.p).cloned().ok_or("eol")?;
        self.p += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> PR<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) -> PR<()> {
        let mut d = 0;
        loop {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                *w == "ptr"
                    || *w == "void"
                    || *w == "float"
                    || *w == "double"
                    || *w == "metadata"
                    || *w == "label"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.m.types.contains_key(*n),
            _ => false,
        }
    }
    fn skip_attrs_to_type(&mut self) -> PR<()> {
        while !self.type_start() {
            match self.next()? {
                T::W(_) => {
                    if self.is_p('(') {
                        self.skip_balanced()?;
                    }
                }
                T::A | T::N(_) | T::S(_) => {}
                T::P('=') => {}
                x => return Err(format!("attr? {:?}", x)),
            }
        }
        Ok(())
    }
    /// param attributes after a type, before a value
    fn skip_param_attrs(&mut self) -> PR<()> {
        loop {
            match self.peek() {
                Some(T::W(w)) => match *w {
                    "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "mul"
                    | "and" | "or" | "xor" | "shl" | "lshr" | "trunc" | "splat" | "asm" | "blockaddress"
                    | "ptrtoaddr" | "select" | "icmp" | "addrspacecast" => return Ok(()),
                    "align" => {
                        self.p += 1;
                        if self.is_p('(') {
                            self.skip_balanced()?;
                        } else {
                            self.p += 1;
                        }
                    }
                    _ => {
                        self.p += 1;
                        if self.is_p('(') {
                            self.skip_balanced()?;
                        }
                    }
                },
                Some(T::A) => self.p += 1,
                Some(T::S(_)) => self.p += 1,
                _ => return Ok(()),
            }
        }
    }
    fn ty(&mut self) -> PR<Ty> {
        let t = match self.next()? {
            T::W("ptr") => {
                if self.is_w("addrspace") {
                    self.p += 1;
                    self.skip_balanced()?;
                }
                Ty::Ptr
            }
            T::W("void") => Ty::Void,
            T::W("float") => Ty::Float,
            T::W("double") => Ty::Double,
            T::W("metadata") | T::W("label") | T::W("token") => Ty::Meta,
            T::W(w) if w.starts_with('i') => {
                Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?)
            }
            T::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Array(n as u64, Rc::new(t))
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    if !self.eat('}') {
                        loop {
                            f.push(self.ty()?);
                            if !self.eat(',') {
                                break;
                            }
                        }
                        self.expect('}')?;
                    }
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vector(n as u64, Rc::new(t))
                }
            }
            T::P('{') => {
                let mut f = vec![];
                if !self.eat('}') {
                    loop {
                        f.push(self.ty()?);
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect('}')?;
                }
                Ty::Struct(Rc::new(f), false)
            }
            T::L(n) => self
                .m
                .types
                .get(n)
                .cloned()
                .ok_or_else(|| format!("type %{}", n))?,
            x => return Err(format!("type? {:?}", x)),
        };
        Ok(t)
    }
    fn num(&mut self) -> PR<i128> {
        match self.next()? {
            T::N(n) => n.parse().map_err(|_| format!("num {}", n)),
            x => Err(format!("num? {:?}", x)),
        }
    }
    fn reg(&self, n: &str) -> PR<u32> {
        let r = self.regs.ok_or("no regs")?;
        let mut r = r.borrow_mut();
        let l = r.len() as u32;
        Ok(*r.entry(n.to_string()).or_insert(l))
    }
    fn zero(ty: &Ty) -> K {
        match ty {
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => K::Agg(Rc::new(
                (0..ty.count()).map(|i| Self::zero(&ty.elem(i))).collect(),
            )),
            _ => K::Int(0),
        }
    }
    fn val(&mut self, ty: &Ty) -> PR<Opd> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.to_string();
            self.p += 1;
            return Ok(Opd::R(self.reg(&n)?));
        }
        Ok(match self.konst(ty)? {
            K::Int(v) => Opd::C(v),
            k => Opd::K(k),
        })
    }
    fn konst(&mut self, ty: &Ty) -> PR<K> {
        let w = ty.bits();
        let msk = |v: i128| -> u128 {
            let v = v as u128;
            if w == 0 || w >= 128 {
                v
            } else {
                v & ((1u128 << w) - 1)
            }
        };
        match self.next()? {
            T::N(n) => {
                if let Ty::Double | Ty::Float = ty {
                    // decimal or hex float
                    let bits = if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|_| "hexfloat")?
                    } else {
                        n.parse::<f64>().map_err(|_| "float")?.to_bits()
                    };
                    return Ok(K::Int(if let Ty::Float = ty {
                        (f64::from_bits(bits) as f32).to_bits() as u128
                    } else {
                        bits as u128
                    }));
                }
                if let Ok(v) = n.parse::<i128>() {
                    Ok(K::Int(msk(v)))
                } else if let Ok(v) = n.parse::<u128>() {
                    Ok(K::Int(v))
                } else {
                    Err(format!("const {}", n))
                }
            }
            T::W("true") => Ok(K::Int(1)),
            T::W("false") | T::W("null") | T::W("none") => Ok(K::Int(0)),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => Ok(Self::zero(ty)),
            T::G(n) => self.m.addr_of(n).map(|a| K::Int(a as u128)),
            T::CS(s) => Ok(K::Agg(Rc::new(
                unescape(s).into_iter().map(|b| K::Int(b as u128)).collect(),
            ))),
            T::W("splat") => {
                self.expect('(')?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.expect(')')?;
                Ok(K::Agg(Rc::new(vec![v; ty.count()])))
            }
            T::P('[') => self.agg(']'),
            T::P('{') => self.agg('}'),
            T::P('<') => {
                if self.eat('{') {
                    let r = self.agg('}')?;
                    self.expect('>')?;
                    Ok(r)
                } else {
                    self.agg('>')
                }
            }
            T::W("getelementptr") => {
                while !self.is_p('(') {
                    self.p += 1;
                }
                self.p += 1;
                let base_t = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let b = self.kint(&pt)?;
                let mut off: u64 = 0;
                let mut cur = base_t;
                let mut first = true;
                while self.eat(',') {
                    // inrange markers
                    let it = self.ty()?;
                    let k = self.kint(&it)?;
                    let k = sx(k, it.bits());
                    if first {
                        off = off.wrapping_add((k as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        off = off.wrapping_add(match cur {
                            Ty::Struct(..) => cur.field_off(k as usize),
                            _ => (k as u64).wrapping_mul(cur.elem(0).size()),
                        });
                        cur = cur.elem(k as usize);
                    }
                }
                self.expect(')')?;
                Ok(K::Int((b as u64).wrapping_add(off) as u128))
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("trunc") | T::W("ptrtoaddr")
            | T::W("addrspacecast") => {
                self.expect('(')?;
                let t = self.ty()?;
                let v = self.kint(&t)?;
                if !self.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                self.expect(')')?;
                let w2 = t2.bits();
                Ok(K::Int(if w2 < 128 { v & ((1u128 << w2) - 1) } else { v }))
            }
            T::W(op @ ("add" | "sub" | "mul" | "and" | "or" | "xor")) => {
                while !self.is_p('(') {
                    self.p += 1;
                }
                self.p += 1;
                let t = self.ty()?;
                let a = self.kint(&t)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = self.kint(&t2)?;
                self.expect(')')?;
                let r = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    "or" => a | b,
                    _ => a ^ b,
                };
                let w2 = t.bits();
                Ok(K::Int(if w2 < 128 { r & ((1u128 << w2) - 1) } else { r }))
            }
            x => Err(format!("const? {:?}", x)),
        }
    }
    fn kint(&mut self, ty: &Ty) -> PR<u128> {
        match self.konst(ty)? {
            K::Int(v) => Ok(v),
            _ => Err("int const".into()),
        }
    }
    fn agg(&mut self, close: char) -> PR<K> {
        let mut v = vec![];
        if !self.eat(close) {
            loop {
                let t = self.ty()?;
                v.push(self.konst(&t)?);
                if !self.eat(',') {
                    break;
                }
            }
            self.expect(close)?;
        }
        Ok(K::Agg(Rc::new(v)))
    }
}

fn sx(v: u128, w: u32) -> i64 {
    let s = 128 - w;
    (((v << s) as i128) >> s) as i64
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(
            std::fs::read_to_string(path)
                .unwrap_or_else(|e| {
                    eprintln!("cannot read {}: {}", path, e);
                    std::process::exit(4)
                })
                .into_boxed_str(),
        );
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            text,
            lines,
            types: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globs: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.lines[i];
            if l.starts_with('@') {
                let (name, rest) = split_name(&l[1..]);
                let rest = rest.trim_start().strip_prefix('=').unwrap_or(rest).trim_start();
                if rest.contains(" alias ") {
                    let toks = lex(rest);
                    let tgt = toks.iter().rev().find_map(|t| {
                        if let T::G(g) = t {
                            Some(*g)
                        } else {
                            None
                        }
                    });
                    if let Some(t) = tgt {
                        m.aliases.insert(name.into(), t.into());
                    }
                } else {
                    let constant = word_in(rest, "constant");
                    let idx = m.globs.len() as u32;
                    let n: Rc<str> = name.into();
                    m.globs.push(Global { name: n.clone(), line: i, ty: RefCell::new(None), constant });
                    m.gidx.insert(n, idx);
                }
            } else if l.starts_with('%') {
                // named types: only opaque/simple ones appear in rustc output
                let (name, rest) = split_name(&l[1..]);
                if let Some(r) = rest.trim_start().strip_prefix("= type ") {
                    if r.trim() != "opaque" {
                        let name: &'static str = name;
                        let ty = {
                            let mut p = Ps { m: &m, t: lex(r), p: 0, regs: None };
                            p.ty()
                        };
                        if let Ok(t) = ty {
                            m.types.insert(name, t);
                        }
                    }
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let (name, _) = split_name(&l[at + 1..]);
                let idx = m.funcs.len() as u32;
                let n: Rc<str> = name.into();
                let st = i;
                let mut rng = None;
                if l.starts_with("define") {
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                    rng = Some((st, i));
                }
                m.funcs.push(FuncDecl { name: n.clone(), lines: rng, parsed: RefCell::new(None) });
                m.fidx.insert(n, idx);
            }
            i += 1;
        }
        m
    }
    pub fn addr_of(&self, n: &str) -> PR<u64> {
        if let Some(i) = self.fidx.get(n) {
            return Ok((FUNC_BASE + *i as u64) << 32);
        }
        if let Some(i) = self.gidx.get(n) {
            return Ok((GLOB_BASE + *i as u64) << 32);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(&a.clone());
        }
        Err(format!("unknown global @{}", n))
    }
    /// initial bytes of a global
    pub fn glob_init(&self, idx: u32) -> PR<Vec<u8>> {
        let g = &self.globs[idx as usize];
        let l = self.lines[g.line];
        let (_, rest) = split_name(&l[1..]);
        let mut p = Ps { m: self, t: lex(rest), p: 0, regs: None };
        // skip to 'constant' or 'global'
        let mut external = false;
        loop {
            match p.next()? {
                T::W("constant") | T::W("global") => break,
                T::W("external") | T::W("extern_weak") => external = true,
                _ => {}
            }
        }
        let ty = p.ty()?;
        if external {
            // weak symbols / environ etc: zero
            return Ok(vec![0; ty.size().max(8) as usize]);
        }
        let k = p.konst(&ty).map_err(|e| format!("{} in global {}", e, g.name))?;
        let mut b = vec![0u8; ty.size() as usize];
        put(&k, &ty, &mut b, 0);
        Ok(b)
    }
    pub fn func(&self, idx: u32) -> PR<Option<Rc<Func>>> {
        let d = &self.funcs[idx as usize];
        if let Some(f) = &*d.parsed.borrow() {
            return Ok(Some(f.clone()));
        }
        if d.lines.is_none() {
            return Ok(None);
        }
        let f = Rc::new(self.parse_func(idx)?);
        *d.parsed.borrow_mut() = Some(f.clone());
        Ok(Some(f))
    }
    fn parse_func(&self, idx: u32) -> PR<Func> {
        let d = &self.funcs[idx as usize];
        let (s, e) = d.lines.unwrap();
        let regs: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new());
        // SAFETY of lifetimes: regs outlives the parsers below
        let regs_ref: &RefCell<HashMap<String, u32>> = unsafe { std::mem::transmute(&regs) };
        let mut p = Ps { m: self, t: lex(self.lines[s]), p: 0, regs: Some(regs_ref) };
        // define [linkage] [attrs] retty @name(params)
        p.p = 1;
        p.skip_attrs_to_type()?;
        let ret = p.ty()?;
        p.next()?; // name
        p.expect('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(')') {
            if let Some(T::Dots) = p.peek() {
                p.p += 1;
                continue;
            }
            let t = p.ty()?;
            p.skip_param_attrs()?;
            if let Some(T::L(n)) = p.peek() {
                let n = n.to_string();
                p.p += 1;
                params.push((p.reg(&n)?, t));
            } else {
                let n = unnamed.to_string();
                params.push((p.reg(&n)?, t));
            }
            unnamed += 1;
            p.eat(',');
        }
        // join lines
        let mut stm: Vec<String> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = self.lines[i];
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                stm.push(l.to_string());
                i += 1;
                continue;
            }
            let mut full = t.to_string();
            if t.starts_with("switch ") {
                while !self.lines[i].trim_start().starts_with(']') {
                    i += 1;
                    full.push(' ');
                    full.push_str(self.lines[i]);
                }
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                i += 1;
                full.push(' ');
                full.push_str(self.lines[i]);
            } else if t.contains("= landingpad ") {
                while i + 1 < e {
                    let n = self.lines[i + 1].trim_start();
                    if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            stm.push(full);
            i += 1;
        }
        // labels first
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nblocks = 0;
        if !stm.is_empty() && stm[0].starts_with(|c: char| c == ' ') {}
        let is_label = |l: &str| -> Option<String> {
            // label lines were not trimmed: they start at column 0 in the source; detect "name:"
            let b = l.as_bytes();
            if b[0] == b'"' {
                let q = l[1..].find('"')? + 1;
                if l[q + 1..].starts_with(':') {
                    return Some(l[1..q].to_string());
                }
                return None;
            }
            let end = l.find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c)))?;
            if end > 0 && l[end..].starts_with(':') {
                Some(l[..end].to_string())
            } else {
                None
            }
        };
        let mut first = true;
        for l in &stm {
            if let Some(n) = is_label(l) {
                labels.insert(n, nblocks);
                nblocks += 1;
            } else if first {
                labels.insert(String::from("\0entry"), nblocks);
                nblocks += 1;
            }
            first = false;
        }
        let lab = |n: &str| -> PR<u32> {
            if let Some(b) = labels.get(n) {
                return Ok(*b);
            }
            // implicit entry label = number of params (unnamed)
            Ok(0)
        };
        let mut blocks: Vec<Block> = vec![];
        for l in &stm {
            if is_label(l).is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { phis: vec![], insts: vec![] });
            }
            let mut p = Ps { m: self, t: lex(l), p: 0, regs: Some(regs_ref) };
            let mut dst: Option<u32> = None;
            if let (Some(T::L(n)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) {
                let n = n.to_string();
                dst = Some(p.reg(&n)?);
                p.p = 2;
            }
            let blk = blocks.last_mut().unwrap();
            if p.is_w("phi") {
                p.p += 1;
                while !p.type_start() {
                    p.p += 1;
                }
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect('[')?;
                    let o = p.val(&t)?;
                    p.expect(',')?;
                    let b = match p.next()? {
                        T::L(n) => lab(n)?,
                        x => return Err(format!("phi {:?}", x)),
                    };
                    p.expect(']')?;
                    v.push((b, o));
                    if !p.eat(',') {
                        break;
                    }
                    if !p.is_p('[') {
                        break;
                    }
                }
                blk.phis.push((dst.unwrap(), v));
                continue;
            }
            let r = Self::inst(&mut p, dst, &lab);
            match r {
                Ok(x) => blk.insts.push(x),
                Err(e) => blk
                    .insts
                    .push(I::Unsupported(format!("{} in `{}`", e, l).into())),
            }
        }
        let nregs = regs.borrow().len() as u32;
        Ok(Func { name: d.name.clone(), idx, params, ret, nregs, blocks })
    }
    fn inst(p: &mut Ps, dst: Option<u32>, lab: &dyn Fn(&str) -> PR<u32>) -> PR<I> {
        let op = match p.next()? {
            T::W(w) => w.to_string(),
            x => return Err(format!("op {:?}", x)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let getlab = |p: &mut Ps| -> PR<u32> {
            if !p.eat_w("label") {
                return Err("label".into());
            }
            match p.next()? {
                T::L(n) => lab(n),
                x => Err(format!("label {:?}", x)),
            }
        };
        Ok(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl"
            | "lshr" | "ashr" => {
                while matches!(p.peek(), Some(T::W("nuw" | "nsw" | "exact" | "disjoint"))) {
                    p.p += 1;
                }
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let b = p.val(&t)?;
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                I::Bin(o, t, d, a, b)
            }
            "icmp" => {
                p.eat_w("samesign");
                let pr = match p.next()? {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    x => return Err(format!("pred {:?}", x)),
                };
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let b = p.val(&t)?;
                I::Icmp(pr, t, d, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" | "uitofp" | "sitofp" | "fptoui" | "fptosi" => {
                while matches!(
                    p.peek(),
                    Some(T::W("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nneg"))
                ) {
                    p.p += 1;
                }
                let mut o = op.clone();
                if op == "fcmp" {
                    match p.next()? {
                        T::W(w) => o = format!("fcmp {}", w),
                        x => return Err(format!("fcmp {:?}", x)),
                    }
                }
                let t = p.ty()?;
                let a = p.val(&t)?;
                let mut b = a.clone();
                let mut t2 = t.clone();
                if op.contains("to") {
                    if !p.eat_w("to") {
                        return Err("to".into());
                    }
                    t2 = p.ty()?;
                } else if op != "fneg" {
                    p.expect(',')?;
                    b = p.val(&t)?;
                    if op == "fcmp" {
                        t2 = Ty::Int(1);
                    }
                }
                for x in [&t, &t2] {
                    if !matches!(x, Ty::Double | Ty::Int(_)) {
                        return Err("float type".into());
                    }
                }
                I::Fp(o.into(), t, t2, d, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(p.peek(), Some(T::W("nuw" | "nsw" | "nneg"))) {
                    p.p += 1;
                }
                let t = p.ty()?;
                let a = p.val(&t)?;
                if !p.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::Bitcast,
                };
                I::Cast(o, t, t2, d, a)
            }
            "load" => {
                while matches!(p.peek(), Some(T::W("atomic" | "volatile"))) {
                    p.p += 1;
                }
                let t = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                I::Load(d, t, a)
            }
            "store" => {
                while matches!(p.peek(), Some(T::W("atomic" | "volatile"))) {
                    p.p += 1;
                }
                let t = p.ty()?;
                let v = p.val(&t)?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                I::Store(t, v, a)
            }
            "getelementptr" => {
                while matches!(p.peek(), Some(T::W("inbounds" | "nuw" | "nusw"))) {
                    p.p += 1;
                }
                let base = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                if !matches!(pt, Ty::Ptr) {
                    return Err("vector gep".into());
                }
                let b = p.val(&pt)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = base;
                let mut first = true;
                while p.eat(',') {
                    if !p.type_start() {
                        break;
                    }
                    let it = p.ty()?;
                    let v = p.val(&it)?;
                    let scale = if first { cur.size() } else if let Ty::Struct(..) = cur { 0 } else { cur.elem(0).size() };
                    match v {
                        Opd::C(k) => {
                            let k = sx(k, it.bits());
                            if first {
                                off = off.wrapping_add((k as u64).wrapping_mul(scale));
                            } else if let Ty::Struct(..) = cur {
                                off = off.wrapping_add(cur.field_off(k as usize));
                                cur = cur.elem(k as usize);
                            } else {
                                off = off.wrapping_add((k as u64).wrapping_mul(scale));
                                cur = cur.elem(0);
                            }
                        }
                        o => {
                            if !first {
                                cur = cur.elem(0);
                            }
                            terms.push((o, it.bits(), scale));
                        }
                    }
                    first = false;
                }
                I::Gep(d, b, off, terms)
            }
            "select" => {
                let ct = p.ty()?;
                let c = p.val(&ct)?;
                p.expect(',')?;
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                I::Select(d, ct, t, c, a, b)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut n = Opd::C(1);
                if p.eat(',') && p.type_start() {
                    let nt = p.ty()?;
                    n = p.val(&nt)?;
                }
                I::Alloca(d, t.size(), n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.eat_w("call");
                }
                // fast-math flags, calling conventions, return attributes
                p.skip_attrs_to_type()?;
                let rt = p.ty()?;
                if p.is_p('(') {
                    p.skip_balanced()?; // function type
                }
                let callee = match p.next()? {
                    T::G(n) => {
                        let n = p.m.aliases.get(n).map(|x| x.to_string()).unwrap_or(n.to_string());
                        match p.m.fidx.get(n.as_str()) {
                            Some(i) if p.m.funcs[*i as usize].lines.is_some() => Callee::Func(*i),
                            _ => Callee::Ext(n.as_str().into()),
                        }
                    }
                    T::L(n) => {
                        let n = n.to_string();
                        Callee::Ind(Opd::R(p.reg(&n)?))
                    }
                    T::W("asm") => {
                        while !p.is_p('(') {
                            p.p += 1;
                        }
                        Callee::Asm
                    }
                    T::W("inttoptr") | T::W("null") => Callee::Ind(Opd::C(0)),
                    x => return Err(format!("callee {:?}", x)),
                };
                p.expect('(')?;
                let mut args = vec![];
                while !p.eat(')') {
                    let t = p.ty()?;
                    if let Ty::Meta = t {
                        // metadata argument: skip
                        let mut dpt = 0;
                        loop {
                            match p.peek() {
                                Some(T::P(',')) if dpt == 0 => break,
                                Some(T::P(')')) if dpt == 0 => break,
                                Some(T::P('(')) => dpt += 1,
                                Some(T::P(')')) => dpt -= 1,
                                None => return Err("meta".into()),
                                _ => {}
                            }
                            p.p += 1;
                        }
                        args.push((t, Opd::C(0)));
                    } else {
                        p.skip_param_attrs()?;
                        let v = p.val(&t)?;
                        args.push((t, v));
                    }
                    p.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.p += 1;
                        if p.p >= p.t.len() {
                            return Err("invoke to".into());
                        }
                    }
                    p.p += 1;
                    normal = Some(getlab(p)?);
                }
                I::Call(dst, rt, callee, args, normal)
            }
            "extractvalue" => {
                let t = p.ty()?;
                let v = p.val(&t)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if let Some(T::N(_)) = p.peek() {
                        ix.push(p.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::ExtractValue(d, v, ix)
            }
            "insertvalue" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let v = p.val(&t2)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if let Some(T::N(_)) = p.peek() {
                        ix.push(p.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::InsertValue(d, t, a, v, ix)
            }
            "extractelement" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let i = p.val(&t2)?;
                I::ExtractElement(d, t, a, i)
            }
            "insertelement" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let v = p.val(&t2)?;
                p.expect(',')?;
                let t3 = p.ty()?;
                let i = p.val(&t3)?;
                I::InsertElement(d, t, a, v, i)
            }
            "shufflevector" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                p.expect(',')?;
                let t3 = p.ty()?;
                let mk = p.konst(&t3)?;
                let idx = match mk {
                    K::Agg(v) => v
                        .iter()
                        .map(|k| if let K::Int(i) = k { *i as u32 as i32 as i64 } else { 0 })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle(d, t, a, b, idx)
            }
            "freeze" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                I::Copy(d, a)
            }
            "br" => {
                if p.is_w("label") {
                    I::Br(getlab(p)?)
                } else {
                    let t = p.ty()?;
                    let c = p.val(&t)?;
                    p.expect(',')?;
                    let a = getlab(p)?;
                    p.expect(',')?;
                    let b = getlab(p)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty()?;
                let v = p.val(&t)?;
                p.expect(',')?;
                let def = getlab(p)?;
                p.expect('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let ct = p.ty()?;
                    let k = p.kint(&ct)?;
                    p.expect(',')?;
                    cs.push((k, getlab(p)?));
                }
                I::Switch(t.bits(), v, def, cs)
            }
            "ret" => {
                let t = p.ty()?;
                if let Ty::Void = t {
                    I::Ret(None)
                } else {
                    I::Ret(Some(p.val(&t)?))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next()? {
                    T::W(w) => w.to_string(),
                    x => return Err(format!("{:?}", x)),
                };
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let v = p.val(&t)?;
                I::Rmw(d, o.as_str().into(), t, a, v)
            }
            "cmpxchg" => {
                while matches!(p.peek(), Some(T::W("weak" | "volatile"))) {
                    p.p += 1;
                }
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let c = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let n = p.val(&t2)?;
                I::CmpXchg(d, t, a, c, n)
            }
            x => return Err(format!("unsupported op {}", x)),
        })
    }
}

fn put(k: &K, ty: &Ty, b: &mut [u8], off: usize) {
    match k {
        K::Int(v) => {
            let n = ty.store_size() as usize;
            for i in 0..n.min(16) {
                b[off + i] = (v >> (8 * i)) as u8;
            }
        }
        K::Agg(v) => {
            for (i, x) in v.iter().enumerate() {
                put(x, &ty.elem(i), b, off + ty.field_off(i) as usize);
            }
        }
    }
}

fn split_name(s: &'static str) -> (&'static str, &'static str) {
    if let Some(r) = s.strip_prefix('"') {
        let q = r.find('"').unwrap();
        (&r[..q], &r[q + 1..])
    } else {
        let e = s
            .find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c)))
            .unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}
fn word_in(s: &str, w: &str) -> bool {
    s.split_ascii_whitespace().take(12).any(|x| x == w)
}
