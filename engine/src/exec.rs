//! Symbolic interpreter: path-wise execution of the IR with a z3-backed path condition.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    /// symbolic size of a heap object (then `size` is its upper bound)
    pub ssize: Option<E>,
    pub ro: bool,
}

const CH: usize = 64;
/// bytes actually backed by storage in very large objects
const BIG: u64 = 1 << 28;
/// storage behind objects of symbolic size
const SBIG: u64 = 1 << 17;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: u64,
    globs: Rc<HashMap<u32, Rc<Obj>>>,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    ret_dst: Option<u32>,
    ret_to: Option<u32>, // invoke normal destination in the caller
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub w: u8,
    pub var: u32,
}

pub struct Model {
    id: u64,
    v: Vec<u128>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    pcset: Rc<HashSet<E, BuildH>>,
    known: Rc<HashMap<E, u128, BuildH>>,
    model: Rc<Model>,
    inputs: Rc<Vec<Input>>,
    outs: Rc<Vec<(u64, V)>>,
    reach: Rc<Vec<u32>>,
    /// the innermost symx_catch: depth of the stack, result register, invoke destination
    catch: Option<(usize, Option<u32>, Option<u32>)>,
    steps: u64,
    forks: u32,
    loops: u32,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u8, u128)>,
}

pub struct Trace {
    pub inputs: Vec<(String, u8, u128)>,
    pub outs: Vec<(u64, u128)>,
    pub reach: Vec<String>,
}

pub struct Cfg {
    pub max_time: f64,
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_traces: usize,
    pub max_viol: usize,
    pub verbose: bool,
    pub args: Vec<u64>,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub z: Z3,
    pub cfg: Cfg,
    ginit: HashMap<u32, Rc<Obj>>,
    stack: Vec<State>,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub violations: Vec<Violation>,
    vkeys: HashSet<String>,
    pub traces: Vec<Trace>,
    pub incomplete: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    reach_ids: Vec<String>,
    pub funcs_seen: HashMap<u32, u64>,
    pub fork_sites: HashMap<String, u64>,
    pub max_depth: usize,
    fspecial: Vec<u8>, // 0 unknown 1 normal 2 panic 
    eval_model: u64,
    model_ids: u64,
    var_ids: HashMap<(u32, u8), u32>,
    nvars: u32,
    t0: Instant,
    rng_path: u64,
}

pub enum Kill {
    Done,
    Infeasible,
    Violation,
    Incomplete(String),
}
type R<X> = Result<X, Kill>;

fn inc<X>(s: impl Into<String>) -> R<X> {
    Err(Kill::Incomplete(s.into()))
}

impl Mem {
    fn alloc(&mut self, size: u64, o: Rc<Obj>) -> u64 {
        let id = self.next;
        self.next += 1;
        let (c, i) = (id as usize / CH, id as usize % CH);
        let _ = size;
        if c >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i] = Some(o);
        id
    }
    fn free(&mut self, id: u64) {
        let (c, i) = (id as usize / CH, id as usize % CH);
        Rc::make_mut(&mut self.chunks[c])[i] = None;
    }
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        self.chunks.get(c)?.get(i)?.as_ref()
    }
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg, solver_timeout_ms: u32) -> Self {
        let nf = m.funcs.len();
        Exec {
            m,
            ar: Arena::new(),
            z: Z3::new(solver_timeout_ms),
            cfg,
            ginit: HashMap::new(),
            stack: vec![],
            paths: 0,
            killed: 0,
            forks: 0,
            instrs: 0,
            branches: 0,
            sym_branches: 0,
            checks: 0,
            checks_solver: 0,
            violations: vec![],
            vkeys: HashSet::new(),
            traces: vec![],
            incomplete: vec![],
            reach: BTreeMap::new(),
            reach_ids: vec![],
            funcs_seen: HashMap::new(),
            fork_sites: HashMap::new(),
            max_depth: 0,
            fspecial: vec![0; nf],
            eval_model: 0,
            model_ids: 1,
            var_ids: HashMap::new(),
            nvars: 0,
            t0: Instant::now(),
            rng_path: 0x9E3779B97F4A7C15,
        }
    }

    // ------------------------------------------------------------ solving
    fn eval(&mut self, st: &State, e: E) -> u128 {
        let p = st.model.id;
        if p != self.eval_model {
            self.ar.new_eval();
            self.eval_model = p;
        }
        let m = st.model.clone();
        self.ar.eval(e, &|v| m.v.get(v as usize).copied().unwrap_or(0))
    }
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        // constraints transitively sharing variables with e
        let mut vars: HashSet<u32, BuildH> = HashSet::with_hasher(BuildH);
        vars.extend(self.ar.vars_of(e).iter());
        let mut rest: Vec<E> = st.pc.clone();
        let mut out = vec![e];
        loop {
            let mut changed = false;
            let mut keep = Vec::with_capacity(rest.len());
            for c in rest {
                let vs = self.ar.vars_of(c);
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter());
                    out.push(c);
                    changed = true;
                } else {
                    keep.push(c);
                }
            }
            rest = keep;
            if !changed || rest.is_empty() {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    /// is pc && e satisfiable? returns the extended model
    fn sat(&mut self, st: &State, e: E) -> Result<Option<Rc<Model>>, ()> {
        if e == self.ar.fal {
            return Ok(None);
        }
        if e == self.ar.tru {
            return Ok(Some(st.model.clone()));
        }
        let cs = self.slice(st, e);
        let r = self.z.check(&mut self.ar, &cs);
        self.eval_model = 0;
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
            Res::Sat(m) => {
                let mut nm = st.model.v.clone();
                for (v, x) in m.iter() {
                    let v = *v as usize;
                    if nm.len() <= v {
                        nm.resize(v + 1, 0);
                    }
                    nm[v] = *x;
                }
                self.model_ids += 1;
                Ok(Some(Rc::new(Model { id: self.model_ids, v: nm })))
            }
        }
    }
    fn add(&mut self, st: &mut State, e: E) {
        if e == self.ar.tru || st.pcset.contains(&e) {
            return;
        }
        match self.ar.nodes[e as usize] {
            Node::Bin(Op::And, a, b) if self.ar.w(e) == 1 => {
                self.add(st, a);
                self.add(st, b);
                return;
            }
            Node::Not(x) => {
                if let Node::Bin(Op::Or, a, b) = self.ar.nodes[x as usize] {
                    let na = self.ar.not(a);
                    let nb = self.ar.not(b);
                    self.add(st, na);
                    self.add(st, nb);
                    return;
                }
                Rc::make_mut(&mut st.known).insert(x, 0);
            }
            Node::Bin(Op::Eq, a, b) => {
                if let Some(k) = self.ar.get_const(b) {
                    Rc::make_mut(&mut st.known).insert(a, k);
                }
            }
            _ => {}
        }
        Rc::make_mut(&mut st.known).insert(e, 1);
        let n = self.ar.not(e);
        Rc::make_mut(&mut st.known).insert(n, 0);
        st.pc.push(e);
        Rc::make_mut(&mut st.pcset).insert(e);
    }
    fn site(&self, st: &State) -> String {
        match st.frames.last() {
            Some(f) => demangle(&f.func.name),
            None => "?".into(),
        }
    }
    /// Decide a symbolic condition on this path. If both outcomes are feasible the other one is
    /// forked; the fork re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.get_const(c) {
            return Ok(k == 1);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k == 1);
        }
        self.sym_branches += 1;
        if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
            return inc("time budget exceeded inside a path");
        }
        if self.cfg.verbose {
            eprintln!("DECIDE {} {}", self.site(st), self.ar.show(c, 12));
        }
        let v = self.eval(st, c) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, other) {
            Ok(Some(m)) => {
                let mut o = st.clone();
                o.model = m;
                self.add(&mut o, other);
                o.forks += 1;
                self.forks += 1;
                let s = self.site(st);
                *self.fork_sites.entry(s).or_insert(0) += 1;
                self.stack.push(o);
            }
            Ok(None) => {}
            Err(()) => {
                let s = self.site(st);
                self.incomplete.push(format!("solver unknown at {}", s));
            }
        }
        self.add(st, mine);
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u8) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                if let Some(k) = st.known.get(e) {
                    return Ok(*k);
                }
                let k = self.eval(st, *e);
                let kc = self.ar.cst(k, w);
                let c = self.ar.bin(Op::Eq, *e, kc);
                if !self.decide(st, c)? {
                    return inc("concretize");
                }
                Ok(k)
            }
            V::A(_) => inc("concretize aggregate"),
        }
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ar.cst(*c, w as u8),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e) as u32, w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn norm(&self, e: E) -> V {
        match self.ar.get_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    fn from_k(k: &K) -> V {
        match k {
            K::Int(v) => V::C(*v),
            K::Agg(a) => V::A(Rc::new(a.iter().map(Self::from_k).collect())),
        }
    }
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(k) = st.known.get(e) {
                        return V::C(*k);
                    }
                }
                v.clone()
            }
            Opd::C(c) => V::C(*c),
            Opd::K(k) => Self::from_k(k),
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[r as usize] = v;
    }
    fn bin1(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        let m = mask(w as u8);
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let w8 = w as u8;
            return Ok(V::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::UDiv => bin_conc(Op::UDiv, w8, x, y),
                BinOp::URem => bin_conc(Op::URem, w8, x, y),
                BinOp::SDiv => bin_conc(Op::SDiv, w8, x, y),
                BinOp::SRem => bin_conc(Op::SRem, w8, x, y),
                BinOp::Shl => bin_conc(Op::Shl, w8, x, y),
                BinOp::LShr => bin_conc(Op::LShr, w8, x, y),
                BinOp::AShr => bin_conc(Op::AShr, w8, x, y),
            }));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match op {
            BinOp::Add => self.ar.add(x, y),
            BinOp::Sub => self.ar.sub(x, y),
            BinOp::Mul => self.ar.bin(Op::Mul, x, y),
            BinOp::And => self.ar.bin(Op::And, x, y),
            BinOp::Or => self.ar.bin(Op::Or, x, y),
            BinOp::Xor => self.ar.bin(Op::Xor, x, y),
            BinOp::UDiv => self.ar.bin(Op::UDiv, x, y),
            BinOp::URem => self.ar.bin(Op::URem, x, y),
            BinOp::SDiv => self.ar.bin(Op::SDiv, x, y),
            BinOp::SRem => self.ar.bin(Op::SRem, x, y),
            BinOp::Shl => self.ar.bin(Op::Shl, x, y),
            BinOp::LShr => self.ar.bin(Op::LShr, x, y),
            BinOp::AShr => self.ar.bin(Op::AShr, x, y),
        };
        Ok(self.norm(r))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v| sext_i(v, w as u8);
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
            } as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = self.ar.bin(Op::Eq, x, y);
                self.ar.not(t)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.norm(r)
    }
    fn ite_v(&mut self, c: E, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let r = (0..x.len())
                    .map(|i| self.ite_v(c, &ty.elem(i), &x[i], &y[i]))
                    .collect();
                V::A(Rc::new(r))
            }
            _ => {
                let w = ty.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(c, x, y);
                self.norm(r)
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn gobj(&mut self, st: &State, gi: u32) -> R<Rc<Obj>> {
        if let Some(o) = st.mem.globs.get(&gi) {
            return Ok(o.clone());
        }
        if let Some(o) = self.ginit.get(&gi) {
            return Ok(o.clone());
        }
        match self.m.glob_init(gi) {
            Ok(d) => {
                let o = Rc::new(Obj {
                    size: d.len() as u64,
                    data: d,
                    sym: None,
                    ssize: None,
                    ro: self.m.globs[gi as usize].constant,
                });
                self.ginit.insert(gi, o.clone());
                Ok(o)
            }
            Err(e) => inc(format!("global {}: {}", self.m.globs[gi as usize].name, e)),
        }
    }
    fn obj(&mut self, st: &State, id: u64) -> R<Option<Rc<Obj>>> {
        if id >= FUNC_BASE {
            return Ok(None);
        }
        if id >= GLOB_BASE {
            let gi = (id - GLOB_BASE) as usize;
            if gi >= self.m.globs.len() {
                return Ok(None);
            }
            return self.gobj(st, gi as u32).map(Some);
        }
        Ok(st.mem.get(id).cloned())
    }
    fn with_obj_mut<X>(&mut self, st: &mut State, id: u64, f: impl FnOnce(&mut Obj) -> X) -> R<X> {
        if id >= GLOB_BASE {
            let gi = (id - GLOB_BASE) as u32;
            let o = self.gobj(st, gi)?;
            let g = Rc::make_mut(&mut st.mem.globs);
            let slot = g.entry(gi).or_insert(o);
            return Ok(f(Rc::make_mut(slot)));
        }
        let (c, i) = (id as usize / CH, id as usize % CH);
        let ch = Rc::make_mut(&mut st.mem.chunks[c]);
        Ok(f(Rc::make_mut(ch[i].as_mut().unwrap())))
    }
    fn new_obj(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Obj { size, data: vec![0; size.min(BIG) as usize], sym: None, ssize: None, ro: false };
        st.mem.alloc(size, Rc::new(o)) << 32
    }
    /// Resolve an access of n bytes. Returns object id and offset (concrete or symbolic).
    fn resolve(&mut self, st: &mut State, p: &V, n: u64, write: bool) -> R<(u64, V)> {
        match p {
            V::C(a) => {
                let a = *a as u64;
                let (id, off) = (a >> 32, a & 0xffff_ffff);
                if n == 0 {
                    return Ok((id, V::C(off as u128)));
                }
                // fast path without cloning
                if id < GLOB_BASE {
                    if let Some(o) = st.mem.get(id) {
                        if off + n <= o.size && !(write && o.ro) && o.ssize.is_none() {
                            return Ok((id, V::C(off as u128)));
                        }
                        if let Some(sz) = o.ssize {
                            let end = self.ar.cst((off + n) as u128, 64);
                            let c = self.ar.bin(Op::Ule, end, sz);
                            let back = o.data.len() as u64;
                            if self.eval(st, c) != 1 {
                                self.violation(
                                    st,
                                    "memory",
                                    &format!("out of bounds {} of {} bytes at offset {} (symbolic size)", if write { "store" } else { "load" }, n, off),
                                );
                                return Err(Kill::Violation);
                            }
                            if !self.decide(st, c)? {
                                return inc("resolve");
                            }
                            if off + n > back {
                                return inc("access beyond the modelled part of a large object");
                            }
                            return Ok((id, V::C(off as u128)));
                        }
                    }
                }
                match self.obj(st, id)? {
                    Some(o) if off + n <= o.size && !(write && o.ro) => Ok((id, V::C(off as u128))),
                    _ => {
                        self.violation(
                            st,
                            "memory",
                            &format!("invalid {} of {} bytes at {:#x}", if write { "store" } else { "load" }, n, a),
                        );
                        Err(Kill::Violation)
                    }
                }
            }
            V::S(e) => {
                let e = *e;
                let a = self.eval(st, e) as u64;
                let id = a >> 32;
                let o = self.obj(st, id)?;
                let mut ssz = None;
                let size = match o {
                    Some(o) if o.size >= n && !(write && o.ro) => {
                        ssz = o.ssize;
                        if ssz.is_some() {
                            o.size.min(o.data.len() as u64)
                        } else {
                            o.size
                        }
                    }
                    _ => {
                        self.violation(
                            st,
                            "memory",
                            &format!("invalid {} of {} bytes at symbolic {:#x}", if write { "store" } else { "load" }, n, a),
                        );
                        return Err(Kill::Violation);
                    }
                };
                let base = self.ar.cst((id << 32) as u128, 64);
                let off = self.ar.sub(e, base);
                let lim = self.ar.cst((size - n) as u128, 64);
                let c = self.ar.bin(Op::Ule, off, lim);
                if (a & 0xffff_ffff) + n > size {
                    // the current model itself is out of bounds
                    self.violation(
                        st,
                        "memory",
                        &format!("out of bounds {} of {} bytes at {:#x} (object size {})", if write { "store" } else { "load" }, n, a, size),
                    );
                    return Err(Kill::Violation);
                }
                if !self.decide(st, c)? {
                    return inc("resolve");
                }
                if let Some(sz) = ssz {
                    let nn = self.ar.cst(n as u128, 64);
                    let end = self.ar.add(off, nn);
                    let c = self.ar.bin(Op::Ule, end, sz);
                    if self.eval(st, c) != 1 {
                        self.violation(st, "memory", "out of bounds access (symbolic size)");
                        return Err(Kill::Violation);
                    }
                    if !self.decide(st, c)? {
                        return inc("resolve");
                    }
                }
                Ok((id, self.norm(off)))
            }
            V::A(_) => inc("aggregate pointer"),
        }
    }
    /// byte i of an object: (concrete value, 0) or (_, simplified symbolic byte)
    fn byte(&mut self, o: &Obj, i: usize) -> (u8, E) {
        match &o.sym {
            Some(s) if s[i] != 0 => {
                let e = self.ar.resimplify(s[i]);
                match self.ar.get_const(e) {
                    Some(k) => (k as u8, 0),
                    None => (0, e),
                }
            }
            _ => (o.data[i], 0),
        }
    }
    fn rd_bytes(&mut self, o: &Obj, off: usize, n: usize) -> V {
        let anysym = match &o.sym {
            Some(s) => s[off..off + n].iter().any(|&x| x != 0),
            None => false,
        };
        if !anysym {
            let mut v: u128 = 0;
            for i in 0..n {
                v |= (o.data[off + i] as u128) << (8 * i);
            }
            return V::C(v);
        }
        let sy = o.sym.as_ref().unwrap();
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let s = sy[off + i];
            let mut run = 1;
            let x = if s != 0 {
                // longest run of consecutive pieces of one stored value
                if let Node::Extract(x, lo) = self.ar.nodes[s as usize] {
                    while i + run < n {
                        let t = sy[off + i + run];
                        if t == 0 {
                            break;
                        }
                        match self.ar.nodes[t as usize] {
                            Node::Extract(y, l2) if y == x && l2 as usize == lo as usize + 8 * run => run += 1,
                            _ => break,
                        }
                    }
                    self.ar.extract(x, lo, (8 * run) as u8)
                } else {
                    s
                }
            } else {
                self.ar.cst(o.data[off + i] as u128, 8)
            };
            i += run;
            acc = Some(match acc {
                None => x,
                Some(l) => self.ar.concat(x, l),
            });
        }
        let e = acc.unwrap();
        self.norm(e)
    }
    fn wr_bytes(&mut self, o: &mut Obj, off: usize, n: usize, v: &V) {
        match v {
            V::C(c) => {
                for i in 0..n {
                    o.data[off + i] = (c >> (8 * i)) as u8;
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = 0;
                    }
                }
            }
            V::S(e) => {
                let sz = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; sz]);
                let w = self.ar.w(*e);
                let full = if (w as usize) < n * 8 { self.ar.zext(*e, (n * 8) as u8) } else { *e };
                for i in 0..n {
                    // pieces are kept unsimplified so that a later load finds the value again
                    s[off + i] = if n == 1 { full } else { self.ar.extract_raw(full, (8 * i) as u8, 8) };
                }
            }
            V::A(_) => panic!("wr agg"),
        }
    }
    fn candidates(&mut self, off: E, size: u64, n: u64) -> (u64, u64, u64) {
        // (first, last, step)
        let lo = self.ar.lo[off as usize] as u64;
        let hi = (self.ar.hi[off as usize].min((size - n) as u128)) as u64;
        let step = match &self.ar.nodes[off as usize] {
            Node::Sum(t, c) => {
                let tz = t.iter().map(|x| x.1.trailing_zeros()).min().unwrap().min(12);
                let s = 1u64 << tz;
                let r = (*c as u64) & (s - 1);
                let mut f = lo;
                while f & (s - 1) != r {
                    f += 1;
                }
                return (f, hi, s);
            }
            Node::ZExt(_) | _ => 1,
        };
        (lo, hi, step)
    }
    fn load_tree(&mut self, o: &Obj, off: E, first: u64, step: u64, cnt: u64, n: usize, w: u32) -> E {
        if cnt == 1 {
            let v = self.rd_bytes(o, first as usize, n);
            let e = self.e(&v, (n * 8) as u32);
            return if w < (n * 8) as u32 { self.ar.extract(e, 0, w as u8) } else { e };
        }
        let h = cnt / 2;
        let l = self.load_tree(o, off, first, step, h, n, w);
        let r = self.load_tree(o, off, first + h * step, step, cnt - h, n, w);
        if l == r {
            return l;
        }
        let mid = self.ar.cst((first + h * step) as u128, 64);
        let c = self.ar.bin(Op::Ult, off, mid);
        self.ar.ite(c, l, r)
    }
    /// scalar load
    fn load_scalar(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        let n = ty.store_size();
        let w = ty.bits();
        if w > 128 {
            return inc("wide load");
        }
        // ite of pointers: load both sides when both are valid constants
        let (id, off) = self.resolve(st, p, n, false)?;
        let v = match off {
            V::C(off) => {
                if id < GLOB_BASE {
                    // avoid Rc clone on the hot path
                    let o = st.mem.get(id).unwrap();
                    if o.sym.is_none() {
                        let off = off as usize;
                        let mut v: u128 = 0;
                        for i in 0..n as usize {
                            v |= (o.data[off + i] as u128) << (8 * i);
                        }
                        V::C(v)
                    } else {
                        let o = o.clone();
                        self.rd_bytes(&o, off as usize, n as usize)
                    }
                } else {
                    let o = self.obj(st, id)?.unwrap();
                    self.rd_bytes(&o, off as usize, n as usize)
                }
            }
            V::S(oe) => {
                let o = self.obj(st, id)?.unwrap();
                let (f, l, s) = self.candidates(oe, o.size.min(o.data.len() as u64), n);
                let cnt = if l < f { 0 } else { (l - f) / s + 1 };
                if cnt == 0 {
                    return Err(Kill::Infeasible);
                }
                let (fb, lb) = (f as usize, (l + n) as usize);
                let uniform = o.data[fb..lb].iter().all(|x| *x == o.data[fb])
                    && o.sym.as_ref().map_or(true, |y| y[fb..lb].iter().all(|x| *x == 0));
                if uniform {
                    self.rd_bytes(&o, f as usize, n as usize)
                } else if cnt <= 4200 {
                    let e = self.load_tree(&o, oe, f, s, cnt, n as usize, (n * 8) as u32);
                    self.norm(e)
                } else {
                    let k = self.concretize(st, &V::S(oe), 64)?;
                    self.rd_bytes(&o, k as usize, n as usize)
                }
            }
            _ => unreachable!(),
        };
        // truncate iN with N not multiple of 8
        Ok(if (n * 8) as u32 > w {
            match v {
                V::C(c) => V::C(c & mask(w as u8)),
                V::S(e) => {
                    let x = self.ar.extract(e, 0, w as u8);
                    self.norm(x)
                }
                x => x,
            }
        } else {
            v
        })
    }
    fn addp(&mut self, p: &V, k: u64) -> V {
        match p {
            V::C(a) => V::C((*a as u64).wrapping_add(k) as u128),
            V::S(e) => {
                let c = self.ar.cst(k as u128, 64);
                let r = self.ar.add(*e, c);
                self.norm(r)
            }
            x => x.clone(),
        }
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                if let Ty::Vector(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return inc("vector of bits load");
                    }
                }
                let mut v = vec![];
                for i in 0..ty.count() {
                    let q = self.addp(p, ty.field_off(i));
                    v.push(self.load(st, &ty.elem(i), &q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.load_scalar(st, ty, p),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                // make the pointer concrete first so that re-execution never repeats a partial store
                let p = V::C(self.concretize(st, p, 64)?);
                if let V::A(a) = v {
                    for i in 0..ty.count() {
                        let q = self.addp(&p, ty.field_off(i));
                        self.store(st, &ty.elem(i), &a[i], &q)?;
                    }
                    Ok(())
                } else {
                    inc("store agg")
                }
            }
            _ => {
                let n = ty.store_size();
                let (id, off) = self.resolve(st, p, n, true)?;
                let off = match off {
                    V::C(c) => c,
                    V::S(oe) => {
                        let o = self.obj(st, id)?.unwrap();
                        let (f, l, s) = self.candidates(oe, o.size, n);
                        let cnt = if l < f { 0 } else { (l - f) / s + 1 };
                        if cnt > 0 && cnt <= 64 {
                            let w = (n * 8) as u32;
                            let nv = self.e(v, ty.bits());
                            let nv = self.ar.zext(nv, w as u8);
                            // overlapping candidates: compute all from the old content
                            let mut oo = (*o).clone();
                            // byte-wise update
                            let lo_b = f;
                            let hi_b = l + n;
                            for b in lo_b..hi_b {
                                let (ob, os) = self.byte(&o, b as usize);
                                let mut cur = if os != 0 { os } else { self.ar.cst(ob as u128, 8) };
                                for i in 0..n {
                                    if b < i {
                                        continue;
                                    }
                                    let k = b - i;
                                    if k < f || k > l || (k - f) % s != 0 {
                                        continue;
                                    }
                                    let kc = self.ar.cst(k as u128, 64);
                                    let c = self.ar.bin(Op::Eq, oe, kc);
                                    let nb = self.ar.extract(nv, (8 * i) as u8, 8);
                                    cur = self.ar.ite(c, nb, cur);
                                }
                                let vv = self.norm(cur);
                                self.wr_bytes(&mut oo, b as usize, 1, &vv);
                            }
                            return self.with_obj_mut(st, id, |x| *x = oo);
                        }
                        self.concretize(st, &V::S(oe), 64)?
                    }
                    _ => unreachable!(),
                };
                let off = off as usize;
                if let V::C(c) = v {
                    let c = *c;
                    let n = n as usize;
                    return self.with_obj_mut(st, id, |o| {
                        for i in 0..n {
                            o.data[off + i] = (c >> (8 * i)) as u8;
                        }
                        if let Some(s) = &mut o.sym {
                            for i in 0..n {
                                s[off + i] = 0;
                            }
                        }
                    });
                }
                // symbolic value: take the object out to satisfy the borrow checker
                let v = v.clone();
                let this: *mut Exec = self;
                self.with_obj_mut(st, id, |o| unsafe { (*this).wr_bytes(o, off, n as usize, &v) })
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        if self.sym_len_write(st, d, n, Err(s))? {
            return Ok(());
        }
        let n = self.concretize(st, n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = V::C(self.concretize(st, d, 64)?);
        let s = V::C(self.concretize(st, s, 64)?);
        let (did, doff) = self.resolve(st, &d, n, true)?;
        let (sid, soff) = self.resolve(st, &s, n, false)?;
        let (doff, soff) = match (doff, soff) {
            (V::C(a), V::C(b)) => (a as usize, b as usize),
            _ => unreachable!(),
        };
        let n = n as usize;
        let so = self.obj(st, sid)?.unwrap();
        if did == sid {
            let bytes = so.data[soff..soff + n].to_vec();
            let sy = so.sym.as_ref().map(|x| x[soff..soff + n].to_vec());
            drop(so);
            return self.with_obj_mut(st, did, |o| {
                o.data[doff..doff + n].copy_from_slice(&bytes);
                if let Some(sy) = sy {
                    o.sym.as_mut().unwrap()[doff..doff + n].copy_from_slice(&sy);
                }
            });
        }
        self.with_obj_mut(st, did, |o| {
            o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
            match &so.sym {
                Some(sy) if sy[soff..soff + n].iter().any(|&x| x != 0) => {
                    let sz = o.data.len();
                    let t = o.sym.get_or_insert_with(|| vec![0; sz]);
                    t[doff..doff + n].copy_from_slice(&sy[soff..soff + n]);
                }
                _ => {
                    if let Some(t) = &mut o.sym {
                        for x in &mut t[doff..doff + n] {
                            *x = 0;
                        }
                    }
                }
            }
        })
    }
    /// Symbolic length with many values: byte-wise conditional fill/copy. Returns true when done.
    fn sym_len_write(&mut self, st: &mut State, d: &V, n: &V, src: Result<&V, &V>) -> R<bool> {
        let ne = match n {
            V::S(e) => *e,
            _ => return Ok(false),
        };
        if st.known.get(&ne).is_some() {
            return Ok(false);
        }
        let (lo, hi) = (self.ar.lo[ne as usize], self.ar.hi[ne as usize]);
        let da = match d {
            V::C(a) => *a as u64,
            _ => return Ok(false),
        };
        if hi - lo < 64 || hi > 1 << 28 {
            return Ok(false);
        }
        let (id, off) = (da >> 32, da & 0xffff_ffff);
        let o = match self.obj(st, id)? {
            Some(o) if !o.ro => o,
            _ => return Ok(false),
        };
        // bounds: off + n <= size
        let offe = self.ar.cst(off as u128, 64);
        let end = self.ar.add(ne, offe);
        let lim = match o.ssize {
            Some(s) => s,
            None => self.ar.cst(o.size as u128, 64),
        };
        let c = self.ar.bin(Op::Ule, end, lim);
        if self.eval(st, c) != 1 {
            self.violation(st, "memory", "out of bounds block write (symbolic length)");
            return Err(Kill::Violation);
        }
        if !self.decide(st, c)? {
            return inc("sym_len_write");
        }
        let full = Some(ne) == o.ssize && off == 0;
        let top = (hi as u64).min((o.data.len() as u64).saturating_sub(off)) as usize;
        let mut new: Vec<V> = Vec::with_capacity(top);
        match src {
            Ok(b) => {
                for _ in 0..top {
                    new.push(b.clone());
                }
            }
            Err(s) => {
                let sa = match s {
                    V::C(a) => *a as u64,
                    _ => return Ok(false),
                };
                let so = match self.obj(st, sa >> 32)? {
                    Some(o) => o,
                    None => return Ok(false),
                };
                let soff = sa & 0xffff_ffff;
                let offe = self.ar.cst(soff as u128, 64);
                let end = self.ar.add(ne, offe);
                let lim = match so.ssize {
                    Some(s) => s,
                    None => self.ar.cst(so.size as u128, 64),
                };
                let c = self.ar.bin(Op::Ule, end, lim);
                if self.eval(st, c) != 1 {
                    self.violation(st, "memory", "out of bounds block read (symbolic length)");
                    return Err(Kill::Violation);
                }
                if !self.decide(st, c)? {
                    return inc("sym_len_write");
                }
                let avail = (so.data.len() as u64).saturating_sub(soff) as usize;
                for i in 0..top.min(avail) {
                    let (b, e) = self.byte(&so, soff as usize + i);
                    new.push(if e != 0 { V::S(e) } else { V::C(b as u128) });
                }
            }
        }
        let mut vals: Vec<V> = Vec::with_capacity(new.len());
        for (i, nv) in new.iter().enumerate() {
            if full || (i as u128) < lo {
                vals.push(nv.clone());
                continue;
            }
            let (b, e) = self.byte(&o, off as usize + i);
            let ov = if e != 0 { V::S(e) } else { V::C(b as u128) };
            if let (V::C(x), V::C(y)) = (&ov, nv) {
                if x == y {
                    vals.push(V::C(*x));
                    continue;
                }
            }
            let ie = self.ar.cst(i as u128, 64);
            let c = self.ar.bin(Op::Ult, ie, ne);
            let (x, y) = (self.e(nv, 8), self.e(&ov, 8));
            let r = self.ar.ite(c, x, y);
            vals.push(self.norm(r));
        }
        drop(o);
        self.with_obj_mut(st, id, |o| {
            let len = o.data.len();
            for (i, v) in vals.iter().enumerate() {
                let k = off as usize + i;
                match v {
                    V::C(c) => {
                        o.data[k] = *c as u8;
                        if let Some(t) = &mut o.sym {
                            t[k] = 0;
                        }
                    }
                    V::S(e) => {
                        let t = o.sym.get_or_insert_with(|| vec![0; len]);
                        t[k] = *e;
                    }
                    _ => {}
                }
            }
        })?;
        Ok(true)
    }
    fn memset(&mut self, st: &mut State, d: &V, b: &V, n: &V) -> R<()> {
        if self.sym_len_write(st, d, n, Ok(b))? {
            return Ok(());
        }
        let n = self.concretize(st, n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = V::C(self.concretize(st, d, 64)?);
        let (id, off) = self.resolve(st, &d, n, true)?;
        let off = if let V::C(c) = off { c as usize } else { unreachable!() };
        let n = n as usize;
        match b {
            V::C(c) => {
                let c = *c as u8;
                self.with_obj_mut(st, id, |o| {
                    for x in &mut o.data[off..off + n] {
                        *x = c;
                    }
                    if let Some(t) = &mut o.sym {
                        for x in &mut t[off..off + n] {
                            *x = 0;
                        }
                    }
                })
            }
            V::S(e) => {
                let e = *e;
                self.with_obj_mut(st, id, |o| {
                    let sz = o.data.len();
                    let t = o.sym.get_or_insert_with(|| vec![0; sz]);
                    for x in &mut t[off..off + n] {
                        *x = e;
                    }
                })
            }
            _ => inc("memset"),
        }
    }
    /// returns byte values of a concrete range
    fn bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let p = V::C(self.concretize(st, p, 64)?);
        let (id, off) = self.resolve(st, &p, n, false)?;
        let off = if let V::C(c) = off { c as usize } else { unreachable!() };
        let o = self.obj(st, id)?.unwrap();
        Ok((0..n as usize)
            .map(|i| {
                let (b, s) = self.byte(&o, off + i);
                if s != 0 {
                    match st.known.get(&s) {
                        Some(k) => V::C(*k),
                        None => V::S(s),
                    }
                } else {
                    V::C(b as u128)
                }
            })
            .collect())
    }
    fn cstr(&mut self, st: &mut State, p: &V, n: u64) -> R<String> {
        let b = self.bytes(st, p, n)?;
        Ok(b.iter()
            .map(|v| match v {
                V::C(c) => *c as u8 as char,
                _ => '?',
            })
            .collect())
    }

    // ------------------------------------------------------------ reporting
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.func.name)).collect()
    }
    fn model_inputs(&self, st: &State) -> Vec<(String, u8, u128)> {
        st.inputs
            .iter()
            .map(|i| {
                (
                    i.name.to_string(),
                    i.w,
                    st.model.v.get(i.var as usize).copied().unwrap_or(0) & mask(i.w),
                )
            })
            .collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        if self.cfg.verbose {
            eprintln!("VIOL {} {} {:?}", kind, msg, self.backtrace(st));
        }
        if self.vkeys.insert(key) {
            let v = Violation {
                kind: kind.into(),
                msg: msg.into(),
                stack: self.backtrace(st),
                inputs: self.model_inputs(st),
            };
            self.violations.push(v);
        }
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fidx.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.m.func(fi)?.ok_or("entry has no body")?;
        let mut st = State {
            frames: vec![],
            mem: Mem { chunks: vec![], next: 1, globs: Rc::new(HashMap::new()) },
            pc: vec![],
            pcset: Rc::new(HashSet::with_hasher(BuildH)),
            known: Rc::new(HashMap::with_hasher(BuildH)),
            model: Rc::new(Model { id: 1, v: vec![] }),
            inputs: Rc::new(vec![]),
            outs: Rc::new(vec![]),
            reach: Rc::new(vec![]),
            catch: None,
            steps: 0,
            forks: 0,
            loops: 0,
        };
        st.mem.chunks.push(Rc::new(vec![None; CH]));
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, (r, _)) in f.params.iter().enumerate() {
            regs[*r as usize] = V::C(self.cfg.args.get(i).copied().unwrap_or(0) as u128);
        }
        st.frames.push(Rc::new(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs,
            allocas: vec![],
            ret_dst: None,
            ret_to: None,
        }));
        self.stack.push(st);
        self.t0 = Instant::now();
        let limit = self.cfg.max_time;
        self.z.deadline_in(limit);
        while let Some(mut st) = self.stack.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.incomplete.push(format!("time budget exceeded with {} open paths", self.stack.len() + 1));
                break;
            }
            if self.paths >= self.cfg.max_paths {
                self.incomplete.push(format!("path budget exceeded with {} open paths", self.stack.len() + 1));
                break;
            }
            if self.violations.len() >= self.cfg.max_viol {
                self.incomplete.push("stopped after violations".into());
                break;
            }
            let r = self.run_path(&mut st);
            match r {
                Kill::Done => {
                    self.paths += 1;
                    self.finish(&st);
                }
                Kill::Infeasible => self.killed += 1,
                Kill::Violation => self.paths += 1,
                Kill::Incomplete(s) => {
                    self.paths += 1;
                    let bt = self.backtrace(&st);
                    if self.incomplete.len() < 50 {
                        self.incomplete.push(format!("{} @ {:?}", s, &bt[..bt.len().min(4)]));
                    }
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self, st: &State) {
        for r in st.reach.iter() {
            let n = self.reach_ids[*r as usize].clone();
            *self.reach.entry(n).or_insert(0) += 1;
        }
        // reservoir of traces
        let keep = if self.traces.len() < self.cfg.max_traces {
            Some(self.traces.len())
        } else if self.cfg.max_traces > 0 {
            self.rng_path ^= self.rng_path << 13;
            self.rng_path ^= self.rng_path >> 7;
            self.rng_path ^= self.rng_path << 17;
            let k = self.rng_path % self.paths;
            if (k as usize) < self.cfg.max_traces {
                Some(k as usize)
            } else {
                None
            }
        } else {
            None
        };
        if let Some(i) = keep {
            let outs: Vec<(u64, V)> = (*st.outs).clone();
            let mut o = vec![];
            for (t, v) in outs {
                let x = match v {
                    V::C(c) => c,
                    V::S(e) => self.eval(st, e),
                    _ => 0,
                };
                o.push((t, x));
            }
            let t = Trace {
                inputs: self.model_inputs(st),
                outs: o,
                reach: st.reach.iter().map(|r| self.reach_ids[*r as usize].clone()).collect(),
            };
            if i < self.traces.len() {
                self.traces[i] = t;
            } else {
                self.traces.push(t);
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> Kill {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(k) => return k,
            }
        }
    }
    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let (func, from) = {
            let f = st.frames.last().unwrap();
            (f.func.clone(), f.block)
        };
        let b = &func.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc_) in &b.phis {
                let mut found = None;
                for (p, o) in inc_ {
                    if *p == from {
                        found = Some(self.op(st, o));
                        break;
                    }
                }
                match found {
                    Some(v) => vals.push((*d, v)),
                    None => return inc("phi without predecessor"),
                }
            }
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.block = target;
        f.ip = 0;
        Ok(())
    }
    #[inline]
    fn advance(st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let func = st.frames.last().unwrap().func.clone();
        // run instructions of the current block until control leaves it
        loop {
            let (block, ip) = {
                let f = st.frames.last().unwrap();
                (f.block, f.ip)
            };
            self.instrs += 1;
            st.steps += 1;
            if st.steps & 0xfffff == 0 {
                if st.steps > self.cfg.max_steps {
                    self.violation(st, "hang", &format!("path exceeded {} instructions", self.cfg.max_steps));
                    return Err(Kill::Violation);
                }
                if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                    return inc("time budget exceeded inside a path");
                }
            }
            let ins = &func.blocks[block as usize].insts[ip as usize];
            match ins {
                I::Bin(op, ty, d, a, b) => {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let r = if let Ty::Vector(_, t) = ty {
                        match (&x, &y) {
                            (V::A(p), V::A(q)) => {
                                let mut o = vec![];
                                for i in 0..p.len() {
                                    o.push(self.bin1(*op, t.bits(), &p[i], &q[i])?);
                                }
                                V::A(Rc::new(o))
                            }
                            _ => return inc("vector bin"),
                        }
                    } else {
                        if ty.bits() > 128 {
                            return inc("wide int");
                        }
                        self.bin1(*op, ty.bits(), &x, &y)?
                    };
                    Self::set(st, *d, r);
                }
                I::Icmp(p, ty, d, a, b) => {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let r = if let Ty::Vector(_, t) = ty {
                        match (&x, &y) {
                            (V::A(u), V::A(v)) => {
                                let mut o = vec![];
                                for i in 0..u.len() {
                                    o.push(self.icmp1(*p, t.bits(), &u[i], &v[i]));
                                }
                                V::A(Rc::new(o))
                            }
                            _ => return inc("vector icmp"),
                        }
                    } else {
                        self.icmp1(*p, ty.bits(), &x, &y)
                    };
                    Self::set(st, *d, r);
                }
                I::Cast(op, t1, t2, d, a) => {
                    let x = self.op(st, a);
                    let r = self.cast(*op, t1, t2, &x)?;
                    Self::set(st, *d, r);
                }
                I::Fp(op, t1, t2, d, a, b) => {
                    // operands are fixed to one value per path
                    let x = self.op(st, a);
                    let y = self.op(st, b);
                    let x = self.concretize(st, &x, t1.bits() as u8)?;
                    let y = self.concretize(st, &y, t1.bits() as u8)?;
                    match float(op, t1.bits() as u8, t2.bits() as u8, x, y) {
                        Some(r) => Self::set(st, *d, V::C(r)),
                        None => return inc("float operation"),
                    }
                }
                I::Load(d, ty, p) => {
                    let p = self.op(st, p);
                    let v = self.load(st, ty, &p)?;
                    Self::set(st, *d, v);
                }
                I::Store(ty, v, p) => {
                    let p = self.op(st, p);
                    let v = self.op(st, v);
                    self.store(st, ty, &v, &p)?;
                }
                I::Gep(d, b, off, terms) => {
                    let b = self.op(st, b);
                    let mut acc = self.addp(&b, *off);
                    for (o, w, sc) in terms {
                        let v = self.op(st, o);
                        acc = match (&acc, &v) {
                            (V::C(a), V::C(i)) => {
                                let i = sext_i(*i, *w as u8) as u64;
                                V::C((*a as u64).wrapping_add(i.wrapping_mul(*sc)) as u128)
                            }
                            _ => {
                                let ie = self.e(&v, *w);
                                let ie = if *w < 64 { self.ar.sext(ie, 64) } else { ie };
                                let m = self.ar.mul_c(ie, *sc as u128);
                                let ae = self.e(&acc, 64);
                                let r = self.ar.add(ae, m);
                                self.norm(r)
                            }
                        };
                    }
                    Self::set(st, *d, acc);
                }
                I::Select(d, ct, ty, c, a, b) => {
                    let c = self.op(st, c);
                    let r = match &c {
                        V::C(k) => {
                            if *k == 1 {
                                self.op(st, a)
                            } else {
                                self.op(st, b)
                            }
                        }
                        V::S(e) => {
                            let (x, y) = (self.op(st, a), self.op(st, b));
                            self.ite_v(*e, ty, &x, &y)
                        }
                        V::A(cv) => {
                            let (x, y) = (self.op(st, a), self.op(st, b));
                            let _ = ct;
                            match (&x, &y) {
                                (V::A(p), V::A(q)) => {
                                    let mut o = vec![];
                                    for i in 0..p.len() {
                                        o.push(match &cv[i] {
                                            V::C(1) => p[i].clone(),
                                            V::C(_) => q[i].clone(),
                                            V::S(e) => self.ite_v(*e, &ty.elem(i), &p[i], &q[i]),
                                            _ => return inc("select"),
                                        });
                                    }
                                    V::A(Rc::new(o))
                                }
                                _ => return inc("vector select"),
                            }
                        }
                    };
                    Self::set(st, *d, r);
                }
                I::Alloca(d, sz, n) => {
                    let n = self.op(st, n);
                    let n = self.concretize(st, &n, 64)? as u64;
                    let p = self.new_obj(st, sz * n);
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    f.allocas.push(p >> 32);
                    f.regs[*d as usize] = V::C(p as u128);
                }
                I::ExtractValue(d, a, ix) => {
                    let mut v = self.op(st, a);
                    for i in ix {
                        v = match &v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => return inc("extractvalue"),
                        };
                    }
                    Self::set(st, *d, v);
                }
                I::InsertValue(d, _ty, a, v, ix) => {
                    let a = self.op(st, a);
                    let v = self.op(st, v);
                    fn ins(a: &V, v: V, ix: &[u32]) -> Option<V> {
                        if ix.is_empty() {
                            return Some(v);
                        }
                        if let V::A(x) = a {
                            let mut n = (**x).clone();
                            let i = ix[0] as usize;
                            n[i] = ins(&x[i], v, &ix[1..])?;
                            Some(V::A(Rc::new(n)))
                        } else {
                            None
                        }
                    }
                    match ins(&a, v, ix) {
                        Some(r) => Self::set(st, *d, r),
                        None => return inc("insertvalue"),
                    }
                }
                I::ExtractElement(d, _t, a, i) => {
                    let a = self.op(st, a);
                    let i = self.op(st, i);
                    let i = self.concretize(st, &i, 64)? as usize;
                    match &a {
                        V::A(x) if i < x.len() => {
                            let v = x[i].clone();
                            Self::set(st, *d, v)
                        }
                        _ => return inc("extractelement"),
                    }
                }
                I::InsertElement(d, _t, a, v, i) => {
                    let a = self.op(st, a);
                    let v = self.op(st, v);
                    let i = self.op(st, i);
                    let i = self.concretize(st, &i, 64)? as usize;
                    match &a {
                        V::A(x) if i < x.len() => {
                            let mut n = (**x).clone();
                            n[i] = v;
                            Self::set(st, *d, V::A(Rc::new(n)))
                        }
                        _ => return inc("insertelement"),
                    }
                }
                I::Shuffle(d, _t, a, b, mk) => {
                    let a = self.op(st, a);
                    let b = self.op(st, b);
                    match (&a, &b) {
                        (V::A(x), V::A(y)) => {
                            let o = mk
                                .iter()
                                .map(|&i| {
                                    if i < 0 {
                                        V::C(0)
                                    } else if (i as usize) < x.len() {
                                        x[i as usize].clone()
                                    } else {
                                        y[i as usize - x.len()].clone()
                                    }
                                })
                                .collect();
                            Self::set(st, *d, V::A(Rc::new(o)));
                        }
                        _ => return inc("shuffle"),
                    }
                }
                I::Copy(d, a) => {
                    let v = self.op(st, a);
                    Self::set(st, *d, v);
                }
                I::Nop => {}
                I::Br(t) => {
                    self.branches += 1;
                    return self.goto(st, *t);
                }
                I::CondBr(c, a, b) => {
                    self.branches += 1;
                    let v = match self.op(st, c) {
                        V::C(k) => k == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => return inc("br agg"),
                    };
                    return self.goto(st, if v { *a } else { *b });
                }
                I::Switch(w, v, def, cs) => {
                    self.branches += 1;
                    let t = match self.op(st, v) {
                        V::C(k) => cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def),
                        V::S(e) => {
                            let k = self.eval(st, e);
                            if let Some((_, b)) = cs.iter().find(|x| x.0 == k) {
                                let kc = self.ar.cst(k, *w as u8);
                                let c = self.ar.bin(Op::Eq, e, kc);
                                if !self.decide(st, c)? {
                                    return inc("switch");
                                }
                                *b
                            } else {
                                let mut nd = self.ar.tru;
                                for (k, _) in cs {
                                    let kc = self.ar.cst(*k, *w as u8);
                                    let q = self.ar.bin(Op::Eq, e, kc);
                                    let q = self.ar.not(q);
                                    nd = self.ar.bin(Op::And, nd, q);
                                }
                                if !self.decide(st, nd)? {
                                    return inc("switch default");
                                }
                                *def
                            }
                        }
                        _ => return inc("switch agg"),
                    };
                    return self.goto(st, t);
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| self.op(st, o));
                    let fr = st.frames.pop().unwrap();
                    for a in &fr.allocas {
                        st.mem.free(*a);
                    }
                    if st.frames.is_empty() {
                        return Err(Kill::Done);
                    }
                    if let (Some(d), Some(v)) = (fr.ret_dst, v) {
                        Self::set(st, d, v);
                    }
                    match fr.ret_to {
                        Some(b) => return self.goto(st, b),
                        None => {
                            Self::advance(st);
                            return Ok(());
                        }
                    }
                }
                I::Unreachable => {
                    self.violation(st, "unreachable", "reached an `unreachable` instruction");
                    return Err(Kill::Violation);
                }
                I::Rmw(d, op, ty, p, v) => {
                    let p = self.op(st, p);
                    let v = self.op(st, v);
                    let p = V::C(self.concretize(st, &p, 64)?);
                    let old = self.load(st, ty, &p)?;
                    let w = ty.bits();
                    let n = match &**op {
                        "add" => self.bin1(BinOp::Add, w, &old, &v)?,
                        "sub" => self.bin1(BinOp::Sub, w, &old, &v)?,
                        "and" => self.bin1(BinOp::And, w, &old, &v)?,
                        "or" => self.bin1(BinOp::Or, w, &old, &v)?,
                        "xor" => self.bin1(BinOp::Xor, w, &old, &v)?,
                        "xchg" => v,
                        x => return inc(format!("atomicrmw {}", x)),
                    };
                    self.store(st, ty, &n, &p)?;
                    Self::set(st, *d, old);
                }
                I::CmpXchg(d, ty, p, c, n) => {
                    let p = self.op(st, p);
                    let c = self.op(st, c);
                    let n = self.op(st, n);
                    let p = V::C(self.concretize(st, &p, 64)?);
                    let old = self.load(st, ty, &p)?;
                    let eq = self.icmp1(Pred::Eq, ty.bits(), &old, &c);
                    let b = match eq {
                        V::C(k) => k == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => return inc("cmpxchg"),
                    };
                    if b {
                        self.store(st, ty, &n, &p)?;
                    }
                    Self::set(st, *d, V::A(Rc::new(vec![old, V::C(b as u128)])));
                }
                I::Call(dst, rt, callee, args, normal) => {
                    let fidx = match callee {
                        Callee::Func(i) => Some(*i),
                        Callee::Ext(n) if n.starts_with("symx_") && matches!(&**n, "symx_catch" | "symx_throw" | "symx_args") => {
                            let n = n.clone();
                            return self.control(st, &n, *dst, *normal, args);
                        }
                        Callee::Ext(n) => {
                            let n = n.clone();
                            let av: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                            let r = self.external(st, &n, rt, &av, args)?;
                            if let (Some(d), Some(v)) = (dst, r) {
                                Self::set(st, *d, v);
                            }
                            None
                        }
                        Callee::Asm => {
                            if let Some(d) = dst {
                                let v = match args.first() {
                                    Some((_, o)) => self.op(st, o),
                                    None => V::C(0),
                                };
                                Self::set(st, *d, v);
                            }
                            None
                        }
                        Callee::Ind(o) => {
                            let p = self.op(st, o);
                            let p = self.concretize(st, &p, 64)? as u64;
                            let id = p >> 32;
                            if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.m.funcs.len() || p & 0xffff_ffff != 0 {
                                self.violation(st, "memory", &format!("call through invalid pointer {:#x}", p));
                                return Err(Kill::Violation);
                            }
                            let i = (id - FUNC_BASE) as u32;
                            if self.m.funcs[i as usize].lines.is_none() {
                                let n = self.m.funcs[i as usize].name.clone();
                                let av: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                                let r = self.external(st, &n, rt, &av, args)?;
                                if let (Some(d), Some(v)) = (dst, r) {
                                    Self::set(st, *d, v);
                                }
                                None
                            } else {
                                Some(i)
                            }
                        }
                    };
                    match fidx {
                        None => {
                            if let Some(b) = normal {
                                return self.goto(st, *b);
                            }
                        }
                        Some(i) => {
                            return self.call(st, i, *dst, *normal, args);
                        }
                    }
                }
                I::Unsupported(s) => return inc(format!("unsupported: {}", s)),
            }
            Self::advance(st);
        }
    }
    /// symx_catch(f, a): calls f(a); 0, or 1 if symx_throw ended it. symx_args(argc, argv, envp):
    /// makes these the arguments of the process that std::env::args() gives.
    fn control(&mut self, st: &mut State, n: &str, dst: Option<u32>, normal: Option<u32>, args: &[(Ty, Opd)]) -> R<()> {
        match n {
            "symx_catch" => {
                let f = self.op(st, &args[0].1);
                let f = self.concretize(st, &f, 64)? as u64;
                let id = f >> 32;
                if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.m.funcs.len() {
                    return inc("symx_catch");
                }
                if let Some(d) = dst {
                    Self::set(st, d, V::C(0));
                }
                st.catch = Some((st.frames.len(), dst, normal));
                self.call(st, (id - FUNC_BASE) as u32, None, normal, &args[1..])
            }
            "symx_throw" => {
                let Some((depth, dst, normal)) = st.catch.take() else {
                    return inc("symx_throw outside of symx_catch");
                };
                while st.frames.len() > depth {
                    let fr = st.frames.pop().unwrap();
                    for a in &fr.allocas {
                        st.mem.free(*a);
                    }
                }
                if let Some(d) = dst {
                    Self::set(st, d, V::C(1));
                }
                match normal {
                    Some(b) => self.goto(st, b),
                    None => {
                        Self::advance(st);
                        Ok(())
                    }
                }
            }
            _ => {
                let f = self.m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") && (f.name.contains("really_init") || f.name.contains("init_wrapper")));
                match f {
                    Some(i) => self.call(st, i as u32, dst, normal, args),
                    None => inc("the function that takes the arguments of the process"),
                }
            }
        }
    }
    fn call(&mut self, st: &mut State, i: u32, dst: Option<u32>, normal: Option<u32>, args: &[(Ty, Opd)]) -> R<()> {
        if self.fspecial[i as usize] == 0 {
            let n = self.m.funcs[i as usize].name.clone();
            self.fspecial[i as usize] = if is_panic(&n) {
                2
            } else if model_of(&n).is_some() {
                3
            } else {
                1
            };
        }
        match self.fspecial[i as usize] {
            2 => {
                let av: Vec<(Ty, V)> = args.iter().map(|(t, o)| (t.clone(), self.op(st, o))).collect();
                return self.panic(st, i, &av);
            }
            3 => {
                let n = self.m.funcs[i as usize].name.clone();
                let mname = model_of(&n).unwrap();
                let av: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                let r = self.external(st, mname, &Ty::Void, &av, args)?;
                if let (Some(d), Some(v)) = (dst, r) {
                    Self::set(st, d, v);
                }
                match normal {
                    Some(b) => return self.goto(st, b),
                    None => {
                        Self::advance(st);
                        return Ok(());
                    }
                }
            }
            _ => {}
        }
        let f = match self.m.func(i) {
            Ok(Some(f)) => f,
            Ok(None) => return inc("no body"),
            Err(e) => return inc(format!("parse {}: {}", self.m.funcs[i as usize].name, e)),
        };
        *self.funcs_seen.entry(i).or_insert(0) += 1;
        if st.frames.len() > 4000 {
            self.violation(st, "stack", "call depth exceeded 4000 frames");
            return Err(Kill::Violation);
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for ((r, _), (_, o)) in f.params.iter().zip(args.iter()) {
            regs[*r as usize] = self.op(st, o);
        }
        st.frames.push(Rc::new(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs,
            allocas: vec![],
            ret_dst: dst,
            ret_to: normal,
        }));
        if st.frames.len() > self.max_depth {
            self.max_depth = st.frames.len();
        }
        Ok(())
    }
    fn panic(&mut self, st: &mut State, i: u32, args: &[(Ty, V)]) -> R<()> {
        let mut loc = String::new();
        for (t, v) in args.iter().rev() {
            if !matches!(t, Ty::Ptr) {
                continue;
            }
            if let V::C(p) = v {
                let p = *p as u64;
                if p >> 32 >= GLOB_BASE && p >> 32 < FUNC_BASE {
                    let gi = ((p >> 32) - GLOB_BASE) as u32;
                    if let Ok(o) = self.gobj(st, gi) {
                        if o.size == 24 && p & 0xffffffff == 0 {
                            let fp = u64::from_le_bytes(o.data[0..8].try_into().unwrap());
                            let fl = u64::from_le_bytes(o.data[8..16].try_into().unwrap());
                            let ln = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                            if fl < 400 {
                                if let Ok(s) = self.cstr(&mut st.clone(), &V::C(fp as u128), fl) {
                                    loc = format!("{}:{}", s, ln);
                                }
                            }
                            break;
                        }
                    }
                }
            }
        }
        let mut msg = String::new();
        if let (Some((_, V::C(p))), Some((_, V::C(l)))) = (args.first(), args.get(1)) {
            let nm = &self.m.funcs[i as usize].name;
            if nm.contains("9panic_fmt") && l & 1 == 1 {
                msg = self.cstr(&mut st.clone(), &V::C(*p), (*l as u64) >> 1).unwrap_or_default();
            } else if nm.ends_with("9panicking5panic") {
                msg = self.cstr(&mut st.clone(), &V::C(*p), *l as u64).unwrap_or_default();
            }
        }
        let n = demangle(&self.m.funcs[i as usize].name);
        self.violation(st, "panic", &format!("{} at {} {}", n, loc, msg));
        Err(Kill::Violation)
    }
    fn cast(&mut self, op: CastOp, t1: &Ty, t2: &Ty, x: &V) -> R<V> {
        match (t1, t2) {
            (Ty::Vector(_, a), Ty::Vector(_, b)) if op != CastOp::Bitcast => {
                if let V::A(v) = x {
                    let mut o = vec![];
                    for y in v.iter() {
                        o.push(self.cast(op, a, b, y)?);
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                return inc("vector cast");
            }
            (Ty::Vector(_, a), _) if op == CastOp::Bitcast => {
                // join elements, little endian
                let v = if let V::A(v) = x { v.clone() } else { return inc("bitcast") };
                let mut elems: Vec<V> = (*v).clone();
                let mut w = a.bits();
                if let Ty::Vector(_, b) = t2 {
                    // vector to vector via bits; only through <=128 total
                    let total = w as usize * elems.len();
                    if total > 128 {
                        return inc("bitcast wide");
                    }
                    let joined = self.join(&mut elems, &mut w)?;
                    return self.split(&joined, total as u32, b.bits());
                }
                if w as usize * elems.len() > 128 {
                    return inc("bitcast wide");
                }
                return self.join(&mut elems, &mut w);
            }
            (_, Ty::Vector(_, b)) if op == CastOp::Bitcast => {
                return self.split(x, t1.bits(), b.bits());
            }
            _ => {}
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        if w1 > 128 || w2 > 128 || w1 == 0 || w2 == 0 {
            return inc("cast width");
        }
        match op {
            CastOp::Bitcast => return Ok(x.clone()),
            _ => {}
        }
        Ok(match x {
            V::C(c) => V::C(match op {
                CastOp::SExt => (sext_i(*c, w1 as u8) as u128) & mask(w2 as u8),
                _ => *c & mask(w2 as u8),
            }),
            V::S(e) => {
                let r = match op {
                    CastOp::SExt => self.ar.sext(*e, w2 as u8),
                    _ => {
                        if w2 < w1 {
                            self.ar.extract(*e, 0, w2 as u8)
                        } else {
                            self.ar.zext(*e, w2 as u8)
                        }
                    }
                };
                self.norm(r)
            }
            V::A(_) => return inc("cast agg"),
        })
    }
    fn join(&mut self, el: &mut Vec<V>, w: &mut u32) -> R<V> {
        if el.iter().all(|x| matches!(x, V::C(_))) {
            let mut r = 0u128;
            for (i, x) in el.iter().enumerate() {
                if let V::C(c) = x {
                    r |= c << (i as u32 * *w);
                }
            }
            return Ok(V::C(r));
        }
        let mut acc = self.e(&el[0], *w);
        for x in &el[1..] {
            let y = self.e(x, *w);
            acc = self.ar.concat(y, acc);
        }
        Ok(self.norm(acc))
    }
    fn split(&mut self, x: &V, total: u32, w: u32) -> R<V> {
        let n = total / w;
        let mut o = vec![];
        for i in 0..n {
            o.push(match x {
                V::C(c) => V::C((c >> (i * w)) & mask(w as u8)),
                V::S(e) => {
                    let y = self.ar.extract(*e, (i * w) as u8, w as u8);
                    self.norm(y)
                }
                _ => return inc("split"),
            });
        }
        Ok(V::A(Rc::new(o)))
    }

    fn fresh(&mut self, st: &mut State, name: &str, w: u8) -> E {
        let k = st.inputs.len() as u32;
        let nv = &mut self.nvars;
        let id = *self.var_ids.entry((k, w)).or_insert_with(|| {
            let x = *nv;
            *nv += 1;
            x
        });
        Rc::make_mut(&mut st.inputs).push(Input { name: name.into(), w, var: id });
        self.ar.var(id, w)
    }
    fn minmax(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        let c = self.icmp1(p, w, a, b);
        match c {
            V::C(1) => a.clone(),
            V::C(_) => b.clone(),
            V::S(e) => self.ite_v(e, &Ty::Int(w), a, b),
            _ => unreachable!(),
        }
    }
    fn overflow(&mut self, n: &str, w: u32, a: &V, b: &V) -> R<V> {
        let w8 = w as u8;
        let m = mask(w8);
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext_i(x, w8), sext_i(y, w8));
            let lim = 1i128 << (w - 1);
            let (r, o) = match n {
                "uadd" => {
                    let r = x.wrapping_add(y) & m;
                    (r, r < x)
                }
                "usub" => (x.wrapping_sub(y) & m, x < y),
                "umul" => {
                    if w <= 64 {
                        let p = x * y;
                        (p & m, p > m)
                    } else {
                        match x.checked_mul(y) {
                            Some(p) => (p & m, p > m),
                            None => (x.wrapping_mul(y) & m, true),
                        }
                    }
                }
                "sadd" | "ssub" | "smul" => {
                    if w > 64 {
                        return inc("wide signed overflow op");
                    }
                    let p = match n {
                        "sadd" => sx + sy,
                        "ssub" => sx - sy,
                        _ => sx * sy,
                    };
                    ((p as u128) & m, p < -lim || p >= lim)
                }
                _ => return inc("overflow op"),
            };
            return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let (r, o) = match n {
            "uadd" => {
                let r = self.ar.add(x, y);
                // no overflow by range?
                let hx = self.ar.hi[x as usize];
                let hy = self.ar.hi[y as usize];
                let o = if w < 127 && hx + hy <= m {
                    self.ar.fal
                } else {
                    // x + y overflows <=> x > m - y
                    let ny = self.ar.not(y);
                    self.ar.bin(Op::Ult, ny, x)
                };
                (r, o)
            }
            "usub" => (self.ar.sub(x, y), self.ar.bin(Op::Ult, x, y)),
            "umul" => {
                if w > 64 {
                    return inc("wide umul overflow");
                }
                let r = self.ar.bin(Op::Mul, x, y);
                let hx = self.ar.hi[x as usize];
                let hy = self.ar.hi[y as usize];
                let o = if hx * hy <= m {
                    self.ar.fal
                } else if let Some(k) = self.ar.get_const(y) {
                    let lim = self.ar.cst(if k == 0 { m } else { m / k }, w8);
                    self.ar.bin(Op::Ult, lim, x)
                } else if let Some(k) = self.ar.get_const(x) {
                    let lim = self.ar.cst(if k == 0 { m } else { m / k }, w8);
                    self.ar.bin(Op::Ult, lim, y)
                } else {
                    let xx = self.ar.zext(x, w8 * 2);
                    let yy = self.ar.zext(y, w8 * 2);
                    let p = self.ar.bin(Op::Mul, xx, yy);
                    let h = self.ar.extract(p, w8, w8);
                    let z = self.ar.cst(0, w8);
                    let q = self.ar.bin(Op::Eq, h, z);
                    self.ar.not(q)
                };
                (r, o)
            }
            "sadd" | "ssub" => {
                let xx = self.ar.sext(x, w8 + 1);
                let yy = self.ar.sext(y, w8 + 1);
                let p = if n == "sadd" { self.ar.add(xx, yy) } else { self.ar.sub(xx, yy) };
                let r = if n == "sadd" { self.ar.add(x, y) } else { self.ar.sub(x, y) };
                let b1 = self.ar.extract(p, w8, 1);
                let b0 = self.ar.extract(r, w8 - 1, 1);
                (r, self.ar.bin(Op::Xor, b1, b0))
            }
            _ => {
                if w > 64 {
                    return inc("wide smul");
                }
                let xx = self.ar.sext(x, w8 * 2);
                let yy = self.ar.sext(y, w8 * 2);
                let p = self.ar.bin(Op::Mul, xx, yy);
                let r = self.ar.extract(p, 0, w8);
                let back = self.ar.sext(r, w8 * 2);
                let q = self.ar.bin(Op::Eq, p, back);
                (r, self.ar.not(q))
            }
        };
        let (r, o) = (self.norm(r), self.norm(o));
        Ok(V::A(Rc::new(vec![r, o])))
    }
    fn map1(&mut self, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Self, u32, &V) -> R<V>) -> R<V> {
        match (ty, a) {
            (Ty::Vector(_, t), V::A(x)) => {
                let mut o = vec![];
                for y in x.iter() {
                    o.push(f(self, t.bits(), y)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => f(self, ty.bits(), a),
        }
    }
    fn ctlz(&mut self, w: u32, a: &V, trailing: bool) -> R<V> {
        Ok(match a {
            V::C(c) => V::C(if *c == 0 {
                w as u128
            } else if trailing {
                c.trailing_zeros() as u128
            } else {
                (c.leading_zeros() - (128 - w)) as u128
            }),
            V::S(e) => {
                let mut r = self.ar.cst(w as u128, w as u8);
                // lowest priority first
                for i in 0..w {
                    let bit = if trailing { w - 1 - i } else { i };
                    let b = self.ar.extract(*e, bit as u8, 1);
                    let val = if trailing { bit } else { w - 1 - bit };
                    let k = self.ar.cst(val as u128, w as u8);
                    r = self.ar.ite(b, k, r);
                }
                self.norm(r)
            }
            _ => return inc("ctlz"),
        })
    }

    /// Allocation whose size has many possible values: keep the size symbolic.
    fn sym_alloc(&mut self, st: &mut State, v: &V) -> R<Option<V>> {
        let e = match v {
            V::S(e) => *e,
            _ => return Ok(None),
        };
        if st.known.get(&e).is_some() {
            return Ok(None);
        }
        let (lo, hi) = (self.ar.lo[e as usize], self.ar.hi[e as usize]);
        if hi - lo < 64 || hi >= 1 << 32 {
            return Ok(None);
        }
        if hi > 1 << 28 {
            // the allocator refuses what the sandbox could not serve
            let k = self.ar.cst(1 << 28, 64);
            let c = self.ar.bin(Op::Ule, e, k);
            if !self.decide(st, c)? {
                return Ok(Some(V::C(0)));
            }
        }
        let cap = (hi as u64).min(1 << 28);
        let o = Obj { size: cap, data: vec![0; cap.min(SBIG) as usize], sym: None, ssize: Some(e), ro: false };
        let id = st.mem.alloc(cap, Rc::new(o));
        Ok(Some(V::C((id << 32) as u128)))
    }
    fn alloc_sz(&mut self, st: &mut State, v: &V) -> R<u64> {
        let n = self.concretize(st, v, 64)? as u64;
        Ok(n)
    }

    fn external(&mut self, st: &mut State, n: &str, rt: &Ty, a: &[V], args: &[(Ty, Opd)]) -> R<Option<V>> {
        if let Some(x) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, x, rt, a, args);
        }
        match n {
            // ---------------- harness API
            "symx_u8" | "symx_u16" | "symx_u32" | "symx_u64" => {
                let l = self.concretize(st, &a[1], 64)? as u64;
                let nm = self.cstr(st, &a[0], l)?;
                let w = n[6..].parse::<u8>().unwrap();
                let e = self.fresh(st, &nm, w);
                Ok(Some(V::S(e)))
            }
            "symx_make" => {
                let p = self.concretize(st, &a[0], 64)?;
                let len = self.concretize(st, &a[1], 64)? as u64;
                let l = self.concretize(st, &a[3], 64)? as u64;
                let nm = self.cstr(st, &a[2], l)?;
                for i in 0..len {
                    let e = self.fresh(st, &nm, 8);
                    let q = V::C(p + i as u128);
                    self.store(st, &Ty::Int(8), &V::S(e), &q)?;
                }
                Ok(None)
            }
            "symx_assume" => {
                match &a[0] {
                    V::C(1) => {}
                    V::C(_) => return Err(Kill::Infeasible),
                    V::S(e) => {
                        let e = *e;
                        let e = self.boolify(e);
                        if let Some(k) = self.ar.get_const(e) {
                            if k == 0 {
                                return Err(Kill::Infeasible);
                            }
                            return Ok(None);
                        }
                        if self.eval(st, e) != 1 {
                            match self.sat(st, e) {
                                Ok(Some(m)) => st.model = m,
                                Ok(None) => return Err(Kill::Infeasible),
                                Err(()) => return inc("solver unknown in assume"),
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return inc("assume"),
                }
                Ok(None)
            }
            "symx_check" => {
                self.checks += 1;
                let l = self.concretize(st, &a[2], 64)? as u64;
                let nm = self.cstr(st, &a[1], l)?;
                match &a[0] {
                    V::C(1) => {}
                    V::C(_) => {
                        self.violation(st, "check", &nm);
                        return Err(Kill::Violation);
                    }
                    V::S(e) => {
                        let e = self.boolify(*e);
                        if self.ar.get_const(e) == Some(1) || st.known.get(&e) == Some(&1) {
                            return Ok(None);
                        }
                        self.checks_solver += 1;
                        if self.eval(st, e) != 1 {
                            self.violation(st, "check", &nm);
                            match self.sat(st, e) {
                                Ok(Some(m)) => st.model = m,
                                Ok(None) => return Err(Kill::Violation),
                                Err(()) => return inc("solver unknown in check"),
                            }
                        } else {
                            let ne = self.ar.not(e);
                            match self.sat(st, ne) {
                                Ok(Some(m)) => {
                                    let mut o = st.clone();
                                    o.model = m;
                                    self.violation(&o, "check", &nm);
                                }
                                Ok(None) => {}
                                Err(()) => {
                                    self.incomplete.push(format!("solver unknown in check {}", nm));
                                }
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return inc("check"),
                }
                Ok(None)
            }
            "symx_reach" => {
                let l = self.concretize(st, &a[1], 64)? as u64;
                let nm = self.cstr(st, &a[0], l)?;
                let id = match self.reach_ids.iter().position(|x| *x == nm) {
                    Some(i) => i,
                    None => {
                        self.reach_ids.push(nm);
                        self.reach_ids.len() - 1
                    }
                } as u32;
                if !st.reach.contains(&id) {
                    Rc::make_mut(&mut st.reach).push(id);
                }
                Ok(None)
            }
            "symx_out" => {
                let t = self.concretize(st, &a[0], 64)? as u64;
                let v = a[1].clone();
                Rc::make_mut(&mut st.outs).push((t, v));
                Ok(None)
            }
            "symx_concretize" => {
                let k = self.concretize(st, &a[0], 64)?;
                Ok(Some(V::C(k)))
            }
            "symx_is_symbolic" => Ok(Some(V::C(matches!(a[0], V::S(_)) as u128))),
            "symx_debug" => {
                let t = match &a[0] {
                    V::C(c) => format!("{:#x}", c),
                    V::S(e) => self.ar.show(*e, 8),
                    _ => "agg".into(),
                };
                eprintln!("DEBUG {}", t);
                Ok(None)
            }
            "symx_stop" => Err(Kill::Done),
            // ---------------- libc
            "malloc" | "__rust_alloc" => {
                if let Some(p) = self.sym_alloc(st, &a[0])? {
                    return Ok(Some(p));
                }
                let s = self.alloc_sz(st, &a[0])?;
                if s > 1 << 28 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.new_obj(st, s);
                Ok(Some(V::C(p as u128)))
            }
            "calloc" => {
                for (x, y) in [(0, 1), (1, 0)] {
                    if let V::C(1) = a[x] {
                        if let Some(p) = self.sym_alloc(st, &a[y])? {
                            return Ok(Some(p));
                        }
                    }
                }
                let s = self.alloc_sz(st, &a[0])?;
                let t = self.alloc_sz(st, &a[1])?;
                if s.saturating_mul(t) > 1 << 28 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.new_obj(st, s * t);
                Ok(Some(V::C(p as u128)))
            }
            "aligned_alloc" => {
                let s = self.alloc_sz(st, &a[1])?;
                let p = self.new_obj(st, s);
                Ok(Some(V::C(p as u128)))
            }
            "posix_memalign" => {
                let s = self.alloc_sz(st, &a[2])?;
                let q = V::C(self.concretize(st, &a[0], 64)?);
                let p = self.new_obj(st, s);
                self.store(st, &Ty::Ptr, &V::C(p as u128), &q)?;
                Ok(Some(V::C(0)))
            }
            "realloc" => {
                let s = self.alloc_sz(st, &a[1])?;
                let p = self.concretize(st, &a[0], 64)? as u64;
                if s > 1 << 28 {
                    return Ok(Some(V::C(0)));
                }
                let old = match self.obj(st, p >> 32)? {
                    Some(o) if p & 0xffff_ffff == 0 => o,
                    _ => {
                        self.violation(st, "memory", "realloc of invalid pointer");
                        return Err(Kill::Violation);
                    }
                };
                let mut no = (*old).clone();
                no.size = s;
                no.ssize = None;
                no.data.resize(s as usize, 0);
                if let Some(y) = &mut no.sym {
                    y.resize(s as usize, 0);
                }
                let id = st.mem.alloc(s, Rc::new(no));
                st.mem.free(p >> 32);
                Ok(Some(V::C((id << 32) as u128)))
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                if p != 0 {
                    let id = p >> 32;
                    if id >= GLOB_BASE || st.mem.get(id).is_none() || p & 0xffff_ffff != 0 {
                        self.violation(st, "memory", "invalid free");
                        return Err(Kill::Violation);
                    }
                    st.mem.free(id);
                }
                Ok(None)
            }
            "bcmp" | "memcmp" => {
                let l = self.concretize(st, &a[2], 64)? as u64;
                let x = self.bytes(st, &a[0], l)?;
                let y = self.bytes(st, &a[1], l)?;
                if n == "bcmp" {
                    let mut acc = self.ar.tru;
                    for i in 0..l as usize {
                        match (&x[i], &y[i]) {
                            (V::C(p), V::C(q)) => {
                                if p != q {
                                    return Ok(Some(V::C(1)));
                                }
                            }
                            (p, q) => {
                                let (p, q) = (self.e(p, 8), self.e(q, 8));
                                let c = self.ar.bin(Op::Eq, p, q);
                                acc = self.ar.bin(Op::And, acc, c);
                            }
                        }
                    }
                    let n = self.ar.not(acc);
                    let r = self.ar.zext(n, 32);
                    return Ok(Some(self.norm(r)));
                }
                let mut r = self.ar.cst(0, 32);
                let neg = self.ar.cst(0xffff_ffff, 32);
                let pos = self.ar.cst(1, 32);
                for i in (0..l as usize).rev() {
                    let (p, q) = (self.e(&x[i], 8), self.e(&y[i], 8));
                    let c = self.ar.bin(Op::Eq, p, q);
                    let lt = self.ar.bin(Op::Ult, p, q);
                    let d = self.ar.ite(lt, neg, pos);
                    r = self.ar.ite(c, r, d);
                }
                Ok(Some(self.norm(r)))
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "memset" => {
                let b = match &a[1] {
                    V::C(c) => V::C(c & 0xff),
                    V::S(e) => {
                        let x = self.ar.extract(*e, 0, 8);
                        self.norm(x)
                    }
                    x => x.clone(),
                };
                self.memset(st, &a[0], &b, &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "strlen" => {
                let p = self.concretize(st, &a[0], 64)?;
                let mut i = 0;
                loop {
                    let v = self.load(st, &Ty::Int(8), &V::C(p + i))?;
                    let end = match self.icmp1(Pred::Eq, 8, &v, &V::C(0)) {
                        V::C(k) => k == 1,
                        V::S(e) => self.decide(st, e)?,
                        _ => return inc("strlen"),
                    };
                    if end {
                        break;
                    }
                    i += 1;
                }
                Ok(Some(V::C(i)))
            }
            "getrandom" => {
                // deterministic bytes
                let l = self.concretize(st, &a[1], 64)?;
                self.memset(st, &a[0], &V::C(7), &V::C(l))?;
                Ok(Some(V::C(l)))
            }
            "syscall" => {
                let k = self.concretize(st, &a[0], 64)?;
                if k == 318 {
                    let l = self.concretize(st, &a[2], 64)?;
                    self.memset(st, &a[1], &V::C(7), &V::C(l))?;
                    return Ok(Some(V::C(l)));
                }
                inc(format!("syscall {}", k))
            }
            "__cxa_thread_atexit_impl" => Ok(Some(V::C(0))),
            "abort" | "__rust_start_panic" | "_Unwind_RaiseException" => {
                self.violation(st, "panic", &format!("process abort ({})", n));
                Err(Kill::Violation)
            }
            "getenv" => Ok(Some(V::C(0))),
            "gettid" | "getpid" => Ok(Some(V::C(1))),
            "pthread_self" => Ok(Some(V::C(1))),
            "sched_yield" => Ok(Some(V::C(0))),
            "sysconf" => Ok(Some(V::C(4096))),
            "write" => {
                // diagnostics to stdout/stderr only: discard
                let fd = self.concretize(st, &a[0], 32)?;
                if fd == 1 || fd == 2 {
                    return Ok(Some(a[2].clone()));
                }
                inc("write to file descriptor")
            }
            _ => inc(format!("external function {}", n)),
        }
    }
    fn boolify(&mut self, e: E) -> E {
        let w = self.ar.w(e);
        if w == 1 {
            return e;
        }
        let z = self.ar.cst(0, w);
        let q = self.ar.bin(Op::Eq, e, z);
        self.ar.not(q)
    }
    fn intrinsic(&mut self, st: &mut State, x: &str, rt: &Ty, a: &[V], args: &[(Ty, Opd)]) -> R<Option<V>> {
        let head = x.split('.').next().unwrap();
        let w = args.first().map(|t| t.0.bits()).unwrap_or(0);
        let ty0 = args.first().map(|t| t.0.clone()).unwrap_or(Ty::Void);
        match head {
            "lifetime" | "assume" | "experimental" | "invariant" | "dbg" | "prefetch" | "donothing" | "x86"
            | "sideeffect" => Ok(if matches!(rt, Ty::Void) { None } else { Some(V::C(0)) }),
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(None)
            }
            "fptoui" | "fptosi" if matches!(ty0, Ty::Double) && matches!(rt, Ty::Int(_)) => {
                let v = self.concretize(st, &a[0], 64)?;
                match float(head, 64, rt.bits() as u8, v, v) {
                    Some(r) => Ok(Some(V::C(r))),
                    None => inc("float operation"),
                }
            }
            "memset" => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Ok(None)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match head {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if let (Ty::Vector(_, t), V::A(p0), V::A(q0)) = (&ty0, &a[0], &a[1]) {
                    let mut o = vec![];
                    for i in 0..p0.len() {
                        o.push(self.minmax(p, t.bits(), &p0[i], &q0[i]));
                    }
                    return Ok(Some(V::A(Rc::new(o))));
                }
                Ok(Some(self.minmax(p, w, &a[0], &a[1])))
            }
            "ucmp" | "scmp" => {
                let rw = rt.bits();
                let (lt, gt) = if head == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp1(lt, w, &a[0], &a[1]);
                let g = self.icmp1(gt, w, &a[0], &a[1]);
                let (l, g) = (self.e(&l, 1), self.e(&g, 1));
                let m1 = self.ar.cst(mask(rw as u8), rw as u8);
                let p1 = self.ar.cst(1, rw as u8);
                let z = self.ar.cst(0, rw as u8);
                let i = self.ar.ite(g, p1, z);
                let r = self.ar.ite(l, m1, i);
                Ok(Some(self.norm(r)))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                if x.contains("with.overflow") {
                    return Ok(Some(self.overflow(head, w, &a[0], &a[1])?));
                }
                if x.contains("sat") {
                    if head == "usub" || head == "uadd" {
                        let r = self.overflow(head, w, &a[0], &a[1])?;
                        if let V::A(v) = r {
                            let sat = V::C(if head == "usub" { 0 } else { mask(w as u8) });
                            return Ok(Some(match &v[1] {
                                V::C(1) => sat,
                                V::C(_) => v[0].clone(),
                                V::S(e) => self.ite_v(*e, &Ty::Int(w), &sat, &v[0]),
                                _ => unreachable!(),
                            }));
                        }
                    }
                }
                inc(format!("intrinsic {}", x))
            }
            "ctlz" | "cttz" => {
                let tr = head == "cttz";
                let r = self.map1(&ty0, &a[0].clone(), &mut |s, w, v| s.ctlz(w, v, tr))?;
                Ok(Some(r))
            }
            "ctpop" => {
                let r = self.map1(&ty0, &a[0].clone(), &mut |s, w, v| {
                    Ok(match v {
                        V::C(c) => V::C(c.count_ones() as u128),
                        V::S(e) => {
                            let mut acc = s.ar.cst(0, w as u8);
                            for i in 0..w {
                                let b = s.ar.extract(*e, i as u8, 1);
                                let z = s.ar.zext(b, w as u8);
                                acc = s.ar.add(acc, z);
                            }
                            s.norm(acc)
                        }
                        _ => return inc("ctpop"),
                    })
                })?;
                Ok(Some(r))
            }
            "bswap" => {
                let r = self.map1(&ty0, &a[0].clone(), &mut |s, w, v| {
                    Ok(match v {
                        V::C(c) => V::C(c.swap_bytes() >> (128 - w)),
                        V::S(e) => {
                            let n = w / 8;
                            let mut acc = s.ar.extract(*e, (w - 8) as u8, 8);
                            for i in 1..n {
                                let b = s.ar.extract(*e, (w - 8 - 8 * i) as u8, 8);
                                acc = s.ar.concat(b, acc);
                            }
                            s.norm(acc)
                        }
                        _ => return inc("bswap"),
                    })
                })?;
                Ok(Some(r))
            }
            "bitreverse" => match &a[0] {
                V::C(c) => Ok(Some(V::C(c.reverse_bits() >> (128 - w)))),
                V::S(e) => {
                    let e = *e;
                    let mut acc = self.ar.extract(e, (w - 1) as u8, 1);
                    for i in 1..w {
                        let b = self.ar.extract(e, (w - 1 - i) as u8, 1);
                        acc = self.ar.concat(b, acc);
                    }
                    Ok(Some(self.norm(acc)))
                }
                _ => inc("bitreverse"),
            },
            "fshl" | "fshr" => {
                let k = self.concretize(st, &a[2], w as u8)? % w as u128;
                let left = head == "fshl";
                if k == 0 {
                    return Ok(Some(if left { a[0].clone() } else { a[1].clone() }));
                }
                let sh = if left { k as u32 } else { w - k as u32 };
                // result = (a << sh) | (b >> (w - sh))
                let hi = self.bin1(BinOp::Shl, w, &a[0], &V::C(sh as u128))?;
                let lo = self.bin1(BinOp::LShr, w, &a[1], &V::C((w - sh) as u128))?;
                Ok(Some(self.bin1(BinOp::Or, w, &hi, &lo)?))
            }
            "abs" => {
                let neg = self.icmp1(Pred::Slt, w, &a[0], &V::C(0));
                let m = self.bin1(BinOp::Sub, w, &V::C(0), &a[0])?;
                Ok(Some(match neg {
                    V::C(1) => m,
                    V::C(_) => a[0].clone(),
                    V::S(e) => self.ite_v(e, &Ty::Int(w), &m, &a[0]),
                    _ => unreachable!(),
                }))
            }
            "is" => Ok(Some(V::C(0))), // is.constant
            "expect" | "ssa" | "launder" | "strip" => Ok(Some(a[0].clone())),
            "threadlocal" => Ok(Some(a[0].clone())),
            "objectsize" => Ok(Some(V::C(mask(rt.bits() as u8)))),
            "load" => {
                // load.relative
                let p = self.bin1(BinOp::Add, 64, &a[0], &a[1])?;
                let v = self.load(st, &Ty::Int(32), &p)?;
                let v = self.cast(CastOp::SExt, &Ty::Int(32), &Ty::Int(64), &v)?;
                Ok(Some(self.bin1(BinOp::Add, 64, &a[0], &v)?))
            }
            "trap" | "ubsantrap" => {
                self.violation(st, "panic", "llvm.trap");
                Err(Kill::Violation)
            }
            "vector" => {
                // vector.reduce.*
                let kind = x.split('.').nth(2).unwrap_or("");
                if let (Ty::Vector(_, t), V::A(v)) = (&ty0, &a[0]) {
                    let op = match kind {
                        "or" => BinOp::Or,
                        "and" => BinOp::And,
                        "xor" => BinOp::Xor,
                        "add" => BinOp::Add,
                        _ => return inc(format!("intrinsic {}", x)),
                    };
                    let mut acc = v[0].clone();
                    for y in v[1..].iter() {
                        acc = self.bin1(op, t.bits(), &acc, y)?;
                    }
                    return Ok(Some(acc));
                }
                inc(format!("intrinsic {}", x))
            }
            _ => inc(format!("intrinsic {}", x)),
        }
    }
}

pub fn is_panic(n: &str) -> bool {
    (n.contains("4core9panicking")
        || n.contains("18handle_alloc_error")
        || n.contains("17rust_begin_unwind")
        || n.contains("3std9panicking11begin_panic")
        || n.contains("3std7process5abort")
        || n == "__rust_start_panic")
        && !n.contains("vtable")
}
/// functions of the standard library replaced by an engine model of the same meaning
pub fn model_of(n: &str) -> Option<&'static str> {
    match n {
        "memcmp" => Some("memcmp"),
        "bcmp" => Some("bcmp"),
        "memcpy" => Some("memcpy"),
        "memmove" => Some("memmove"),
        "memset" => Some("memset"),
        "strlen" => Some("strlen"),
        _ => None,
    }
}

/// compact demangling of v0 symbols: the identifiers in order
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        // disambiguator s<base62>_
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() && k > 0 {
                out.push(&n[j..j + k]);
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

/// Operations on f64 (as bits) and integers of the given widths
fn float(op: &str, w1: u8, w2: u8, x: u128, y: u128) -> Option<u128> {
    let f = f64::from_bits(x as u64);
    let g = f64::from_bits(y as u64);
    let r = |v: f64| Some(v.to_bits() as u128);
    match op {
        "fadd" => r(f + g),
        "fsub" => r(f - g),
        "fmul" => r(f * g),
        "fdiv" => r(f / g),
        "frem" => r(f % g),
        "fneg" => r(-f),
        "uitofp" => r(x as f64),
        "sitofp" => r(sext_i(x, w1) as f64),
        "fptoui" | "fptoui.sat" => {
            let v = f as u128;
            Some(if v > mask(w2) { mask(w2) } else { v })
        }
        "fptosi" | "fptosi.sat" => {
            let max = (mask(w2) >> 1) as i128;
            Some((f as i128).clamp(-max - 1, max) as u128 & mask(w2))
        }
        _ => {
            let p = op.strip_prefix("fcmp ")?;
            let un = f.is_nan() || g.is_nan();
            let v = match p {
                "false" => false,
                "true" => true,
                "ord" => !un,
                "uno" => un,
                _ => {
                    let v = match &p[1..] {
                        "eq" => f == g,
                        "ne" => !un && f != g,
                        "lt" => f < g,
                        "le" => f <= g,
                        "gt" => f > g,
                        "ge" => f >= g,
                        _ => return None,
                    };
                    v || un && p.starts_with('u')
                }
            };
            Some(v as u128)
        }
    }
}
