//! z3 (C API) back end with constraint caching.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_interrupt(c: Ctx);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {:?}", e, m);
    std::process::exit(4);
}

pub type Asg = Rc<HashMap<u32, u128, BuildH>>;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    asts: Vec<Ast>,
    vars: HashMap<u32, (Ast, u8)>,
    solver_logic: *mut c_void,
    params: *mut c_void,
    cache: HashMap<Box<[E]>, Res>,
    recent: Vec<Rc<Vec<(u32, u128)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    watch: std::sync::Arc<(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicU64)>,
    start: std::time::Instant,
}

impl Z3 {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, s.as_ptr());
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            let watch = std::sync::Arc::new((std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(u64::MAX)));
            let start = std::time::Instant::now();
            {
                let (w, c) = (watch.clone(), c as usize);
                std::thread::spawn(move || loop {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    use std::sync::atomic::Ordering::SeqCst;
                    let began = w.0.load(SeqCst);
                    let now = start.elapsed().as_millis() as u64;
                    if began != 0 && (now > began + timeout_ms as u64 + 1000 || now > w.1.load(SeqCst).max(began + 1000)) {
                        Z3_interrupt(c as Ctx);
                    }
                });
            }
            Z3 {
                c,
                watch,
                start,
                asts: vec![],
                vars: HashMap::new(),
                solver_logic: logic,
                params: p,
                cache: HashMap::new(),
                recent: vec![],
                queries: 0,
                cache_hits: 0,
                model_hits: 0,
                unsat: 0,
                sat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    /// no query runs on beyond this
    pub fn deadline_in(&mut self, secs: f64) {
        self.watch.1.store(self.start.elapsed().as_millis() as u64 + (secs * 1000.0) as u64, std::sync::atomic::Ordering::SeqCst);
    }
    unsafe fn num(&self, v: u128, w: u8) -> Ast {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    /// width-1 expressions become Bool, all others bit-vectors
    unsafe fn tr(&mut self, ar: &Arena, e: E) -> Ast {
        if self.asts.len() < ar.nodes.len() {
            self.asts.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let mut stack = vec![e];
        let c = self.c;
        while let Some(&x) = stack.last() {
            if !self.asts[x as usize].is_null() {
                stack.pop();
                continue;
            }
            let ch = ar.children(x);
            let mut ready = true;
            for y in &ch {
                if self.asts[*y as usize].is_null() {
                    stack.push(*y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = ar.w(x);
            let g = |s: &Self, y: E| s.asts[y as usize];
            // as bit-vector
            let bv = |s: &Self, y: E| -> Ast {
                if ar.w(y) == 1 {
                    let a = g(s, y);
                    let r = Z3_mk_ite(c, a, s.num(1, 1), s.num(0, 1));
                    Z3_inc_ref(c, r);
                    r
                } else {
                    g(s, y)
                }
            };
            let a: Ast = match &ar.nodes[x as usize] {
                Node::Const(v) => {
                    if w == 1 {
                        if *v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(*v, w)
                    }
                }
                Node::Var(id) => {
                    let s = Z3_mk_bv_sort(c, w as c_uint);
                    let a = Z3_mk_const(c, Z3_mk_int_symbol(c, *id as c_int), s);
                    Z3_inc_ref(c, a);
                    self.vars.insert(*id, (a, w));
                    if w == 1 {
                        Z3_mk_eq(c, a, self.num(1, 1))
                    } else {
                        a
                    }
                }
                Node::Sum(t, k) => {
                    let m = mask(w);
                    let mut acc: Ast = std::ptr::null_mut();
                    // positive terms first
                    for pass in 0..2 {
                        for (y, kk) in t.iter() {
                            let neg = *kk > m / 2 + 1;
                            if neg != (pass == 1) {
                                continue;
                            }
                            let mag = if neg { (m - kk) + 1 } else { *kk };
                            let yv = g(self, *y);
                            let term = if mag == 1 {
                                yv
                            } else {
                                Z3_mk_bvmul(c, self.num(mag, w), yv)
                            };
                            Z3_inc_ref(c, term);
                            acc = if acc.is_null() {
                                if neg {
                                    Z3_mk_bvsub(c, self.num(0, w), term)
                                } else {
                                    term
                                }
                            } else if neg {
                                Z3_mk_bvsub(c, acc, term)
                            } else {
                                Z3_mk_bvadd(c, acc, term)
                            };
                            Z3_inc_ref(c, acc);
                        }
                    }
                    if *k != 0 {
                        acc = Z3_mk_bvadd(c, acc, self.num(*k, w));
                    }
                    acc
                }
                Node::Bin(op, a, b) => {
                    let (p, q) = (g(self, *a), g(self, *b));
                    let wa = ar.w(*a);
                    if wa == 1 && !matches!(op, Op::Concat) {
                        match op {
                            Op::And | Op::Mul => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                            Op::Xor => Z3_mk_xor(c, p, q),
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Ult => Z3_mk_and(c, 2, [Z3_mk_not(c, p), q].as_ptr()),
                            Op::Ule => Z3_mk_or(c, 2, [Z3_mk_not(c, p), q].as_ptr()),
                            Op::Slt => Z3_mk_and(c, 2, [p, Z3_mk_not(c, q)].as_ptr()),
                            Op::Sle => Z3_mk_or(c, 2, [p, Z3_mk_not(c, q)].as_ptr()),
                            Op::UDiv | Op::SDiv => p,
                            Op::URem | Op::SRem => Z3_mk_false(c),
                            Op::Shl | Op::LShr => Z3_mk_and(c, 2, [p, Z3_mk_not(c, q)].as_ptr()),
                            Op::AShr => p,
                            Op::Concat => unreachable!(),
                        }
                    } else {
                        match op {
                            Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q),
                            Op::Concat => {
                                let (p, q) = (bv(self, *a), bv(self, *b));
                                Z3_mk_concat(c, p, q)
                            }
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Ult => Z3_mk_bvult(c, p, q),
                            Op::Ule => Z3_mk_bvule(c, p, q),
                            Op::Slt => Z3_mk_bvslt(c, p, q),
                            Op::Sle => Z3_mk_bvsle(c, p, q),
                        }
                    }
                }
                Node::Not(a) => {
                    if w == 1 {
                        Z3_mk_not(c, g(self, *a))
                    } else {
                        Z3_mk_bvnot(c, g(self, *a))
                    }
                }
                Node::Extract(a, lo) => {
                    let r = Z3_mk_extract(
                        c,
                        (*lo as u32) + w as u32 - 1,
                        *lo as c_uint,
                        g(self, *a),
                    );
                    if w == 1 {
                        Z3_inc_ref(c, r);
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
                Node::ZExt(a) => Z3_mk_zero_ext(c, (w - ar.w(*a)) as c_uint, bv(self, *a)),
                Node::SExt(a) => Z3_mk_sign_ext(c, (w - ar.w(*a)) as c_uint, bv(self, *a)),
                Node::Ite(k, a, b) => {
                    Z3_mk_ite(c, g(self, *k), g(self, *a), g(self, *b))
                }
            };
            Z3_inc_ref(c, a);
            self.asts[x as usize] = a;
            stack.pop();
        }
        self.asts[e as usize]
    }

    /// `cs` must be sorted and deduplicated
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Res {
        if cs.iter().any(|&e| e == ar.fal) {
            return Res::Unsat;
        }
        if let Some(r) = self.cache.get(cs) {
            self.cache_hits += 1;
            return r.clone();
        }
        // try recent models (partial: only variables they define, others 0)
        for i in (0..self.recent.len()).rev().take(6) {
            let m = self.recent[i].clone();
            ar.new_eval();
            let f = |v: u32| match m.binary_search_by_key(&v, |x| x.0) {
                Ok(i) => m[i].1,
                Err(_) => 0,
            };
            if cs.iter().rev().all(|&e| ar.eval(e, &f) == 1) {
                self.model_hits += 1;
                // restrict/extend the model to the variables of the query
                let mut vs: Vec<u32> = vec![];
                for &e in cs {
                    vs.extend_from_slice(&ar.vars_of(e));
                }
                vs.sort_unstable();
                vs.dedup();
                let out: Vec<(u32, u128)> = vs.iter().map(|&v| (v, f(v))).collect();
                let r = Res::Sat(Rc::new(out));
                self.cache.insert(cs.into(), r.clone());
                return r;
            }
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let c = self.c;
            let s = Z3_mk_solver_for_logic(c, self.solver_logic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for &e in cs {
                let a = self.tr(ar, e);
                Z3_solver_assert(c, s, a);
            }
            // z3's own timeout does not cover preprocessing
            self.watch.0.store(self.start.elapsed().as_millis() as u64 + 1, std::sync::atomic::Ordering::SeqCst);
            let k = Z3_solver_check(c, s);
            self.watch.0.store(0, std::sync::atomic::Ordering::SeqCst);
            let r = if k == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vs: Vec<u32> = vec![];
                for &e in cs {
                    vs.extend_from_slice(&ar.vars_of(e));
                }
                vs.sort_unstable();
                vs.dedup();
                let mut out = vec![];
                for v in vs {
                    let mut o: Ast = std::ptr::null_mut();
                    let (va, _) = self.vars[&v];
                    Z3_model_eval(c, m, va, true, &mut o);
                    Z3_inc_ref(c, o);
                    let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap();
                    out.push((v, st.parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(c, m);
                // never trust a model that our own evaluator rejects
                ar.new_eval();
                let f = |v: u32| match out.binary_search_by_key(&v, |x| x.0) {
                    Ok(i) => out[i].1,
                    Err(_) => 0,
                };
                for &e in cs {
                    if ar.eval(e, &f) != 1 {
                        eprintln!("INTERNAL: z3 model disagrees with evaluator");
                        std::process::exit(4);
                    }
                }
                Res::Sat(Rc::new(out))
            } else if k == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.recent.push(m.clone());
                if self.recent.len() > 64 {
                    self.recent.drain(0..32);
                }
            }
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.cache.insert(cs.into(), r.clone());
        r
    }
}
