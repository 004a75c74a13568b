//! Hash-consed bit-vector expressions (width 1..=128) with construction-time
//! simplification, unsigned ranges and concrete evaluation.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat, // a high, b low
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    /// sum of coef*expr + constant, all mod 2^w; terms sorted by E; at least one term
    Sum(Box<[(E, u128)]>, u128),
    Bin(Op, E, E),
    Not(E),
    Extract(E, u8), // lo; width gives size
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u8>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub depth: Vec<u32>,
    map: HashMap<(Node, u8), E, BuildH>,
    // evaluation memo
    stamp: Vec<u64>,
    val: Vec<u128>,
    cur_stamp: u64,
    // variable sets
    vars: Vec<Option<std::rc::Rc<[u32]>>>,
    small: Vec<E>,
    pub tru: E,
    pub fal: E,
}

#[derive(Clone, Default)]
pub struct BuildH;
pub struct FxH(u64);
impl std::hash::BuildHasher for BuildH {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_i(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn bin_conc(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext_i(a, w), sext_i(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext_i(a, w), sext_i(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext_i(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((x >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext_i(a, w) < sext_i(b, w)) as u128,
        Op::Sle => (sext_i(a, w) <= sext_i(b, w)) as u128,
        Op::Concat => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            width: vec![],
            lo: vec![],
            hi: vec![],
            depth: vec![],
            map: HashMap::with_hasher(BuildH),
            stamp: vec![],
            val: vec![],
            cur_stamp: 1,
            vars: vec![],
            small: vec![],
            tru: 0,
            fal: 0,
        };
        a.fal = a.cst(0, 1);
        a.tru = a.cst(1, 1);
        a
    }
    pub fn w(&self, e: E) -> u8 {
        self.width[e as usize]
    }
    pub fn get_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize] {
            Some(c)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node, w: u8) -> E {
        if let Some(&e) = self.map.get(&(n.clone(), w)) {
            return e;
        }
        let (lo, hi) = self.range_of(&n, w);
        let id = self.nodes.len() as E;
        if lo == hi && !matches!(n, Node::Const(_)) {
            let c = self.cst(lo, w);
            self.map.insert((n, w), c);
            return c;
        }
        let d = |x: E| self.depth[x as usize];
        let depth = 1 + match &n {
            Node::Const(_) | Node::Var(_) => 0,
            Node::Sum(t, _) => t.iter().map(|x| d(x.0)).max().unwrap_or(0),
            Node::Bin(_, a, b) => d(*a).max(d(*b)),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => d(*a),
            Node::Ite(c, a, b) => d(*a).max(d(*b)).max(d(*c)),
        };
        self.nodes.push(n.clone());
        self.width.push(w);
        self.lo.push(lo);
        self.hi.push(hi);
        self.depth.push(depth);
        self.stamp.push(0);
        self.val.push(0);
        self.vars.push(None);
        self.map.insert((n, w), id);
        id
    }
    fn range_of(&self, n: &Node, w: u8) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        match n {
            Node::Const(c) => (*c, *c),
            Node::Var(_) => full,
            Node::Sum(t, c) => {
                if w > 64 {
                    return full;
                }
                let sg = |v: u128| sext_i(v, w);
                let mut lo: i128 = sg(*c);
                let mut hi: i128 = sg(*c);
                for (e, k) in t.iter() {
                    let k = sg(*k);
                    let (a, b) = r(*e);
                    if k.unsigned_abs() >= 1 << 40 {
                        return full;
                    }
                    let (x, y) = (a as i128 * k, b as i128 * k);
                    lo += x.min(y);
                    hi += x.max(y);
                }
                if lo >= 0 && hi <= m as i128 {
                    (lo as u128, hi as u128)
                } else if lo >= -(m as i128 + 1) && hi < 0 {
                    ((lo + m as i128 + 1) as u128, (hi + m as i128 + 1) as u128)
                } else if lo > m as i128 && hi <= 2 * m as i128 + 1 {
                    ((lo - m as i128 - 1) as u128, (hi - m as i128 - 1) as u128)
                } else {
                    full
                }
            }
            Node::Bin(op, a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                match op {
                    Op::Mul => {
                        if w <= 64 && ah * bh <= m {
                            (al * bl, ah * bh)
                        } else {
                            full
                        }
                    }
                    Op::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    Op::URem => {
                        if bl > 0 {
                            if ah < bl {
                                (al, ah)
                            } else {
                                (0, (bh - 1).min(ah))
                            }
                        } else {
                            full
                        }
                    }
                    Op::And => (0, ah.min(bh)),
                    Op::Or => {
                        let x = ah | bh;
                        let bits = 128 - x.leading_zeros();
                        (al.max(bl), mask(bits as u8))
                    }
                    Op::Xor => {
                        let x = ah | bh;
                        let bits = 128 - x.leading_zeros();
                        (0, mask(bits as u8))
                    }
                    Op::LShr => {
                        if bl >= w as u128 {
                            (0, 0)
                        } else {
                            (
                                if bh >= w as u128 { 0 } else { al >> bh },
                                ah >> bl,
                            )
                        }
                    }
                    Op::Shl => full,
                    Op::Concat => {
                        let wb = self.w(*b);
                        ((al << wb) | bl, (ah << wb) | bh)
                    }
                    Op::Eq => {
                        if ah < bl || bh < al {
                            (0, 0)
                        } else if al == ah && bl == bh {
                            (1, 1)
                        } else {
                            full
                        }
                    }
                    Op::Ult => {
                        if ah < bl {
                            (1, 1)
                        } else if al >= bh {
                            (0, 0)
                        } else {
                            full
                        }
                    }
                    Op::Ule => {
                        if ah <= bl {
                            (1, 1)
                        } else if al > bh {
                            (0, 0)
                        } else {
                            full
                        }
                    }
                    Op::Slt | Op::Sle => {
                        let wa = self.w(*a);
                        let h = 1u128 << (wa - 1);
                        // both ranges inside one sign half
                        let cv = |l: u128, hh: u128| -> Option<(i128, i128)> {
                            if hh < h || l >= h {
                                Some((sext_i(l, wa), sext_i(hh, wa)))
                            } else {
                                None
                            }
                        };
                        if let (Some((al, ah)), Some((bl, bh))) = (cv(al, ah), cv(bl, bh)) {
                            let strict = *op == Op::Slt;
                            if (strict && ah < bl) || (!strict && ah <= bl) {
                                (1, 1)
                            } else if (strict && al >= bh) || (!strict && al > bh) {
                                (0, 0)
                            } else {
                                full
                            }
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
            Node::Not(a) => {
                let (l, h) = r(*a);
                (m - h, m - l)
            }
            Node::Extract(a, lo) => {
                let (l, h) = r(*a);
                if (h >> lo) <= m && *lo == 0 {
                    (l, h)
                } else if (h >> lo) <= m {
                    (l >> lo, h >> lo)
                } else {
                    full
                }
            }
            Node::ZExt(a) => r(*a),
            Node::SExt(a) => {
                let (l, h) = r(*a);
                let wa = self.w(*a);
                if h < (1u128 << (wa - 1)) {
                    (l, h)
                } else if l >= (1u128 << (wa - 1)) {
                    let ext = m & !mask(wa);
                    (l | ext, h | ext)
                } else {
                    full
                }
            }
            Node::Ite(_, a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                (al.min(bl), ah.max(bh))
            }
        }
    }
    pub fn cst(&mut self, v: u128, w: u8) -> E {
        let v = v & mask(w);
        self.intern(Node::Const(v), w)
    }
    pub fn var(&mut self, id: u32, w: u8) -> E {
        self.intern(Node::Var(id), w)
    }

    // ---- linear arithmetic ----
    fn lin_add(&self, e: E, k: u128, w: u8, acc: &mut Vec<(E, u128)>, c: &mut u128) {
        let m = mask(w);
        match &self.nodes[e as usize] {
            Node::Const(v) => *c = c.wrapping_add(v.wrapping_mul(k)) & m,
            Node::Sum(t, c0) => {
                *c = c.wrapping_add(c0.wrapping_mul(k)) & m;
                for (x, kx) in t.iter() {
                    acc.push((*x, kx.wrapping_mul(k) & m));
                }
            }
            Node::Not(a) if w > 1 => {
                // ~a = -a - 1
                let a = *a;
                *c = c.wrapping_sub(k) & m;
                self.lin_add(a, k.wrapping_neg() & m, w, acc, c);
            }
            _ => acc.push((e, k & m)),
        }
    }
    fn lin_build(&mut self, mut acc: Vec<(E, u128)>, c: u128, w: u8) -> E {
        let m = mask(w);
        acc.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(E, u128)> = Vec::with_capacity(acc.len());
        for (e, k) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == e {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            out.push((e, k));
        }
        out.retain(|x| x.1 != 0);
        if out.is_empty() {
            return self.cst(c, w);
        }
        if out.len() == 1 && out[0].1 == 1 && c == 0 {
            return out[0].0;
        }
        self.intern(Node::Sum(out.into_boxed_slice(), c & m), w)
    }
    /// number of low bits in which no term contributes
    fn sum_shift(&self, t: &[(E, u128)]) -> u8 {
        t.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(0) as u8
    }
    fn lin_build_flat(&mut self, t: Vec<(E, u128)>, c: u128, w: u8) -> E {
        let mut acc = vec![];
        let mut cc = c & mask(w);
        for (e, k) in t {
            self.lin_add(e, k & mask(w), w, &mut acc, &mut cc);
        }
        self.lin_build(acc, cc, w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.bin(Op::Xor, a, b);
        }
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            return self.cst(x.wrapping_add(y), w);
        }
        // push constant additions into ite of constants is handled in ite-aware compare
        let mut acc = vec![];
        let mut c = 0;
        self.lin_add(a, 1, w, &mut acc, &mut c);
        self.lin_add(b, 1, w, &mut acc, &mut c);
        self.lin_build(acc, c, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.bin(Op::Xor, a, b);
        }
        let mut acc = vec![];
        let mut c = 0;
        self.lin_add(a, 1, w, &mut acc, &mut c);
        self.lin_add(b, mask(w), w, &mut acc, &mut c);
        self.lin_build(acc, c, w)
    }
    pub fn mul_c(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let mut acc = vec![];
        let mut c = 0;
        self.lin_add(a, k & mask(w), w, &mut acc, &mut c);
        self.lin_build(acc, c, w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.nodes[a as usize] {
            Node::Const(c) => return self.cst(!c, w),
            Node::Not(x) => return x,
            _ => {}
        }
        if w == 1 {
            match self.nodes[a as usize] {
                Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                _ => {}
            }
        }
        self.intern(Node::Not(a), w)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            return self.cst((x << wb) | y, w);
        }
        if self.get_const(a) == Some(0) {
            return self.zext(b, w);
        }
        if self.get_const(b) == Some(0) && w > 1 {
            let z = self.zext(a, w);
            return self.mul_c(z, 1u128 << wb);
        }
        // zext on the high side: move zero out
        if let Node::ZExt(x) = self.nodes[a as usize] {
            let inner = self.concat(x, b);
            return self.zext(inner, w);
        }
        // adjacent extracts
        let split = |s: &Self, e: E| -> Option<(E, u8, u8)> {
            match s.nodes[e as usize] {
                Node::Extract(x, lo) => Some((x, lo, s.w(e))),
                Node::Const(_) => None,
                _ => None,
            }
        };
        if let Some((x, lo, _)) = split(self, a) {
            if let Some((y, lo2, w2)) = split(self, b) {
                if x == y && lo2 + w2 == lo {
                    return self.extract(x, lo2, w);
                }
            }
            // b may be the whole low part of x : b == extract? (x trunc) handled above since trunc is Extract lo 0
            // b = concat(b1, b0): join a with b1
            if let Node::Bin(Op::Concat, b1, b0) = self.nodes[b as usize] {
                if let Some((y, lo2, w2)) = split(self, b1) {
                    if x == y && lo2 + w2 == lo {
                        let j = self.extract(x, lo2, wa + w2);
                        return self.concat(j, b0);
                    }
                }
            }
        }
        // const,const joins
        if let Some(ca) = self.get_const(a) {
            if let Node::Bin(Op::Concat, b1, b0) = self.nodes[b as usize] {
                if let Some(cb) = self.get_const(b1) {
                    let w1 = self.w(b1);
                    let j = self.cst((ca << w1) | cb, wa + w1);
                    return self.concat(j, b0);
                }
            }
        }
        // right-assoc
        if let Node::Bin(Op::Concat, a1, a0) = self.nodes[a as usize] {
            let r = self.concat(a0, b);
            return self.concat(a1, r);
        }
        // distribute over ite of constants with the same cond
        if let (Node::Ite(c1, x1, y1), Node::Ite(c2, x2, y2)) =
            (self.nodes[a as usize].clone(), self.nodes[b as usize].clone())
        {
            if c1 == c2 {
                let x = self.concat(x1, x2);
                let y = self.concat(y1, y2);
                return self.ite(c1, x, y);
            }
        }
        self.intern(Node::Bin(Op::Concat, a, b), w)
    }
    /// an Extract node as it stands (stored bytes of a value in memory)
    pub fn extract_raw(&mut self, a: E, lo: u8, w: u8) -> E {
        self.intern(Node::Extract(a, lo), w)
    }
    pub fn resimplify(&mut self, e: E) -> E {
        if let Node::Extract(x, lo) = self.nodes[e as usize] {
            let w = self.w(e);
            return self.extract(x, lo, w);
        }
        e
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if lo == 0 && w == wa {
            return a;
        }
        match self.nodes[a as usize].clone() {
            Node::Const(c) => self.cst(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, l2 + lo, w),
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.cst(0, w)
                } else if lo + w <= wx {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, wx - lo);
                    self.zext(y, w)
                }
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo < wx {
                    let y = self.extract(x, lo, wx - lo);
                    self.sext(y, w)
                } else {
                    let s = self.extract(x, wx - 1, 1);
                    self.sext(s, w)
                }
            }
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(h, 0, lo + w - wl);
                    self.concat(y, x)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            Node::Not(x) => {
                let x = self.extract(x, lo, w);
                self.not(x)
            }
            Node::Ite(c, x, y)
                if self.cheap(x) || self.cheap(y) =>
            {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.ite(c, x, y)
            }
            Node::Sum(t, c) if lo == 0 => {
                let mut acc = vec![];
                let mut cc = c & mask(w);
                for (e, k) in t.iter() {
                    let x = self.extract(*e, 0, w);
                    self.lin_add(x, *k & mask(w), w, &mut acc, &mut cc);
                }
                if w == 1 {
                    // avoid Sum at width 1
                    let mut r = self.cst(c & 1, 1);
                    for (e, k) in t.iter() {
                        if k & 1 == 1 {
                            let x = self.extract(*e, 0, 1);
                            r = self.bin(Op::Xor, r, x);
                        }
                    }
                    return r;
                }
                self.lin_build(acc, cc, w)
            }
            Node::Sum(t, c) if self.sum_shift(&t) > 0 => {
                let s = self.sum_shift(&t);
                if lo >= s {
                    let t2: Vec<(E, u128)> = t.iter().map(|x| (x.0, x.1 >> s)).collect();
                    let y = self.lin_build_flat(t2, c >> s, wa);
                    self.extract(y, lo - s, w)
                } else if lo + w <= s {
                    self.cst(c >> lo, w)
                } else {
                    let low = self.cst(c >> lo, s - lo);
                    let high = self.extract(a, s, lo + w - s);
                    if self.get_const(low) == Some(0) {
                        // would recurse through concat(x,0) -> sum; build directly
                        let z = self.zext(high, w);
                        self.mul_c(z, 1u128 << (s - lo))
                    } else {
                        self.concat(high, low)
                    }
                }
            }
            _ => {
                // high bits known zero by range
                if lo > 0 && (self.hi[a as usize] >> lo) == 0 {
                    return self.cst(0, w);
                }
                self.intern(Node::Extract(a, lo), w)
            }
        }
    }
    fn cheap(&self, e: E) -> bool {
        matches!(
            self.nodes[e as usize],
            Node::Const(_) | Node::Ite(..) | Node::ZExt(_) | Node::Bin(Op::Concat, ..) | Node::Var(_)
        )
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        match self.nodes[a as usize].clone() {
            Node::Const(c) => return self.cst(c, w),
            Node::ZExt(x) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.get_const(x).is_some() && self.get_const(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                return self.ite(c, x, y);
            }
            // zext(trunc(x)) where x fits
            Node::Extract(x, 0) => {
                if self.hi[x as usize] <= mask(wa) {
                    let wx = self.w(x);
                    if wx == w {
                        return x;
                    } else if wx < w {
                        return self.zext(x, w);
                    } else {
                        return self.extract(x, 0, w);
                    }
                }
            }
            // zext of a non-wrapping positive sum: distribute
            Node::Sum(t, c) if wa <= 64 => {
                let m = mask(wa);
                let mut hi: u128 = c;
                let mut ok = c <= (m >> 1);
                let mut lo_neg = false;
                for (e, k) in t.iter() {
                    if *k > 1 << 32 {
                        ok = false;
                        break;
                    }
                    hi = hi.saturating_add(self.hi[*e as usize].saturating_mul(*k));
                }
                if !ok && t.len() == 1 && t[0].1 == 1 && sext_i(c, wa) < 0 {
                    // x - k with x >= k
                    let k = (-(sext_i(c, wa))) as u128;
                    if self.lo[t[0].0 as usize] >= k {
                        lo_neg = true;
                    }
                }
                if ok && hi <= m {
                    let mut acc = vec![];
                    let mut cc = c;
                    for (e, k) in t.iter() {
                        let x = self.zext(*e, w);
                        self.lin_add(x, *k, w, &mut acc, &mut cc);
                    }
                    return self.lin_build(acc, cc, w);
                }
                if lo_neg {
                    let x = self.zext(t[0].0, w);
                    let k = (-(sext_i(c, wa))) as u128;
                    let kc = self.cst(k, w);
                    return self.sub(x, kc);
                }
            }
            _ => {}
        }
        self.intern(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if let Some(c) = self.get_const(a) {
            return self.cst(sext_i(c, wa) as u128, w);
        }
        if self.hi[a as usize] < (1u128 << (wa - 1)) {
            return self.zext(a, w);
        }
        if wa == 1 {
            let x = self.cst(mask(w), w);
            let y = self.cst(0, w);
            return self.ite(a, x, y);
        }
        if let Node::Ite(c, x, y) = self.nodes[a as usize] {
            if self.get_const(x).is_some() && self.get_const(y).is_some() {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                return self.ite(c, x, y);
            }
        }
        self.intern(Node::SExt(a), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.get_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Node::Not(x) = self.nodes[c as usize] {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.get_const(a), self.get_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.nodes[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.nodes[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if let Node::Ite(d, x, y) = self.nodes[b as usize] {
            if x == a {
                let cd = self.bin(Op::Or, c, d);
                return self.ite(cd, a, y);
            }
        }
        if let Node::Ite(d, x, y) = self.nodes[a as usize] {
            if y == b {
                let cd = self.bin(Op::And, c, d);
                return self.ite(cd, x, b);
            }
        }
        // common zext: only for equal inner width
        if let (Node::ZExt(x), Node::ZExt(y)) =
            (&self.nodes[a as usize], &self.nodes[b as usize])
        {
            let (x, y) = (*x, *y);
            if self.w(x) == self.w(y) {
                let i = self.ite(c, x, y);
                return self.zext(i, w);
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }

    /// decompose into pieces (low first): (expr or const-zero, width)
    fn pieces(&self, e: E, out: &mut Vec<(E, u8, u8)>, lo: u8, w: u8) {
        // appends slices (expr, lo, width) covering bits [lo, lo+w) of e; expr E::MAX means zero
        match self.nodes[e as usize] {
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo < wx {
                    let n = w.min(wx - lo);
                    self.pieces(x, out, lo, n);
                    if w > n {
                        out.push((E::MAX, 0, w - n));
                    }
                } else {
                    out.push((E::MAX, 0, w));
                }
            }
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.w(l);
                if lo < wl {
                    let n = w.min(wl - lo);
                    self.pieces(l, out, lo, n);
                    if w > n {
                        self.pieces(h, out, 0, w - n);
                    }
                } else {
                    self.pieces(h, out, lo - wl, w);
                }
            }
            Node::Sum(ref t, 0) if t.len() == 1 && t[0].1.is_power_of_two() => {
                let s = t[0].1.trailing_zeros() as u8;
                let x = t[0].0;
                if lo >= s {
                    self.pieces(x, out, lo - s, w);
                } else {
                    let n = w.min(s - lo);
                    out.push((E::MAX, 0, n));
                    if w > n {
                        self.pieces(x, out, 0, w - n);
                    }
                }
            }
            Node::Const(c) => {
                // split constant in zero/non-zero runs, coarse: bytes granularity skipped; only all-zero
                let v = (c >> lo) & mask(w);
                if v == 0 {
                    out.push((E::MAX, 0, w));
                } else {
                    let tz = v.trailing_zeros() as u8;
                    let used = (128 - v.leading_zeros()) as u8;
                    if tz > 0 {
                        out.push((E::MAX, 0, tz));
                    }
                    out.push((e, lo + tz, used - tz));
                    if used < w {
                        out.push((E::MAX, 0, w - used));
                    }
                }
            }
            _ => out.push((e, lo, w)),
        }
    }
    fn try_disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let shape = |s: &Self, e: E| {
            matches!(
                s.nodes[e as usize],
                Node::ZExt(_) | Node::Bin(Op::Concat, ..) | Node::Const(_) | Node::Sum(_, 0)
            )
        };
        if !(shape(self, a) && shape(self, b)) {
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa, 0, w);
        self.pieces(b, &mut pb, 0, w);
        let (mut i, mut j) = (0, 0);
        let (mut oa, mut ob) = (0u8, 0u8);
        let mut out: Vec<(E, u8, u8)> = vec![];
        while i < pa.len() && j < pb.len() {
            let (ea, la, wa) = pa[i];
            let (eb, lb, wb) = pb[j];
            let n = (wa - oa).min(wb - ob);
            if ea == E::MAX {
                if eb == E::MAX {
                    out.push((E::MAX, 0, n));
                } else {
                    out.push((eb, lb + ob, n));
                }
            } else if eb == E::MAX {
                out.push((ea, la + oa, n));
            } else {
                return None;
            }
            oa += n;
            ob += n;
            if oa == wa {
                i += 1;
                oa = 0;
            }
            if ob == wb {
                j += 1;
                ob = 0;
            }
        }
        let mut acc: Option<E> = None;
        for (e, l, n) in out {
            let p = if e == E::MAX {
                self.cst(0, n)
            } else {
                self.extract(e, l, n)
            };
            acc = Some(match acc {
                None => p,
                Some(x) => self.concat(p, x),
            });
        }
        acc
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if op == Op::Concat {
            return self.concat(a, b);
        }
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let ca = self.get_const(a);
        let cb = self.get_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(bin_conc(op, w, x, y), rw);
        }
        // commutative: constant to the right
        match op {
            Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin2(op, b, a, rw);
                }
            }
            _ => {}
        }
        self.bin2(op, a, b, rw)
    }
    fn is_complement(&self, a: E, b: E) -> bool {
        match self.nodes[a as usize] {
            Node::Not(x) if x == b => return true,
            Node::Bin(Op::Ult, x, y) => {
                if let Node::Bin(Op::Ule, p, q) = self.nodes[b as usize] {
                    return p == y && q == x;
                }
            }
            Node::Bin(Op::Ule, x, y) => {
                if let Node::Bin(Op::Ult, p, q) = self.nodes[b as usize] {
                    return p == y && q == x;
                }
            }
            _ => {}
        }
        matches!(self.nodes[b as usize], Node::Not(x) if x == a)
    }
    fn bin2(&mut self, op: Op, a: E, b: E, rw: u8) -> E {
        let w = self.w(a);
        let m = mask(w);
        let ca = self.get_const(a);
        let cb = self.get_const(b);
        match op {
            Op::Mul => {
                if let Some(k) = cb {
                    return self.mul_c(a, k);
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as u8;
                        let x = self.extract(a, s, w - s);
                        return self.zext(x, w);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.cst(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as u8;
                        let x = self.extract(a, 0, s);
                        return self.zext(x, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if (kk & (kk.wrapping_add(1))) == 0 && w > 1 {
                        let n = (128 - kk.leading_zeros()) as u8;
                        let x = self.extract(a, tz as u8, n);
                        let y = if tz > 0 {
                            let z = self.cst(0, tz as u8);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(y, w);
                    }
                    // mask covers the whole range
                }
                if w == 1 && self.is_complement(a, b) {
                    return self.fal;
                }
                if let Node::Bin(Op::And, x, y) = self.nodes[a as usize] {
                    if x == b || y == b {
                        return a;
                    }
                }
                if let Node::Bin(Op::And, x, y) = self.nodes[b as usize] {
                    if x == a || y == a {
                        return b;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && self.is_complement(a, b) {
                    return self.tru;
                }
                if w > 1 {
                    if let Some(r) = self.try_disjoint_or(a, b) {
                        return r;
                    }
                }
                if let Node::Bin(Op::Or, x, y) = self.nodes[a as usize] {
                    if x == b || y == b {
                        return a;
                    }
                    // reassociate constant part: (x | c) | y etc. try to join pieces
                    if w > 1 {
                        if let Some(r) = self.try_disjoint_or(y, b) {
                            return self.bin(Op::Or, x, r);
                        }
                        if let Some(r) = self.try_disjoint_or(x, b) {
                            return self.bin(Op::Or, y, r);
                        }
                    }
                }
                if let Node::Bin(Op::Or, x, y) = self.nodes[b as usize] {
                    if x == a || y == a {
                        return b;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if let Node::Bin(Op::Xor, x, y) = self.nodes[a as usize] {
                        if let Some(k2) = self.get_const(y) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Op::Xor, x, c);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                        if self.get_const(x).is_some() && self.get_const(y).is_some() {
                            let x = self.bin(Op::Xor, x, b);
                            let y = self.bin(Op::Xor, y, b);
                            return self.ite(c, x, y);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    return self.mul_c(a, 1u128 << k);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let x = self.extract(a, k as u8, w - k as u8);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u8;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => return self.eq2(a, b),
            Op::Ult => {
                if a == b {
                    return self.fal;
                }
                if cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    // 0 < b  <=> b != 0
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                if cb == Some(m) {
                    let e = self.bin(Op::Eq, a, b);
                    return self.not(e);
                }
                if let Some(r) = self.cmp_simpl(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.tru;
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(k) = cb {
                    if k == m {
                        return self.tru;
                    }
                    // a <= k  <=> a < k+1
                    let k1 = self.cst(k + 1, w);
                    return self.bin(Op::Ult, a, k1);
                }
                if let Some(k) = ca {
                    if k == 0 {
                        return self.tru;
                    }
                    let k1 = self.cst(k - 1, w);
                    return self.bin(Op::Ult, k1, b);
                }
                if let Some(r) = self.cmp_simpl(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Slt { self.fal } else { self.tru };
                }
                // both non-negative => unsigned
                let h = 1u128 << (w - 1);
                if self.hi[a as usize] < h && self.hi[b as usize] < h {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let (Node::SExt(x), Node::SExt(y)) =
                    (&self.nodes[a as usize], &self.nodes[b as usize])
                {
                    let (x, y) = (*x, *y);
                    if self.w(x) == self.w(y) {
                        return self.bin(op, x, y);
                    }
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.intern(Node::Bin(op, a, b), rw)
    }
    fn cmp_ite(&mut self, op: Op, a: E, b: E) -> Option<E> {
        // distribute a comparison with a constant over ite trees with const leaves
        if self.get_const(b).is_some() {
            if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                if self.get_const(x).is_some() || self.get_const(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        } else if self.get_const(a).is_some() {
            if let Node::Ite(c, x, y) = self.nodes[b as usize] {
                if self.get_const(x).is_some() || self.get_const(y).is_some() {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    /// e = zext(x >> k) with the whole upper part of x kept
    fn hi_part(&self, e: E) -> Option<(E, u8)> {
        if let Node::ZExt(y) = self.nodes[e as usize] {
            if let Node::Extract(x, k) = self.nodes[y as usize] {
                if k > 0 && k + self.w(y) == self.w(x) {
                    return Some((x, k));
                }
            }
        }
        None
    }
    fn cmp_simpl(&mut self, op: Op, a: E, b: E) -> Option<E> {
        // unsigned comparisons of zero extensions
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        match (&na, &nb) {
            (Node::ZExt(x), Node::ZExt(y)) => {
                let (x, y) = (*x, *y);
                let (wx, wy) = (self.w(x), self.w(y));
                let mw = wx.max(wy);
                let x = self.zext(x, mw);
                let y = self.zext(y, mw);
                return Some(self.bin(op, x, y));
            }
            (Node::ZExt(x), Node::Const(k)) => {
                let wx = self.w(*x);
                if *k <= mask(wx) {
                    let k = self.cst(*k, wx);
                    return Some(self.bin(op, *x, k));
                } else {
                    return Some(self.tru);
                }
            }
            (Node::Const(k), Node::ZExt(y)) => {
                let wy = self.w(*y);
                if *k <= mask(wy) {
                    let k = self.cst(*k, wy);
                    return Some(self.bin(op, k, *y));
                } else {
                    return Some(self.fal);
                }
            }
            _ => {}
        }
        if let Some(r) = self.cmp_ite(op, a, b) {
            return Some(r);
        }
        // x - 1 <u 2^w - 2   <=>   x is neither 0 nor all ones
        if let (Node::Sum(t, c), Node::Const(k)) = (&na, &nb) {
            let w = self.w(a);
            let m = mask(w);
            if op == Op::Ult && t.len() == 1 && t[0].1 == 1 && *c == m && *k == m - 1 && w > 1 {
                let x = t[0].0;
                let z = self.cst(0, w);
                let f = self.cst(m, w);
                let p = self.bin(Op::Eq, x, z);
                let q = self.bin(Op::Eq, x, f);
                let (p, q) = (self.not(p), self.not(q));
                return Some(self.bin(Op::And, p, q));
            }
        }
        // x + c1 <op> const where no wrap
        if let (Node::Sum(t, c), Node::Const(k)) = (&na, &nb) {
            if *c != 0 && self.sum_nowrap(t, *c, self.w(a)) {
                if op == Op::Ult {
                    if k <= c {
                        return Some(self.fal);
                    }
                    let w = self.w(a);
                    let base = self.lin_build(t.to_vec(), 0, w);
                    let k2 = self.cst(k - c, w);
                    return Some(self.bin(Op::Ult, base, k2));
                }
            }
        }
        if let (Node::Const(k), Node::Sum(t, c)) = (&na, &nb) {
            if *c != 0 && self.sum_nowrap(t, *c, self.w(a)) && op == Op::Ult {
                let w = self.w(a);
                if k < c {
                    return Some(self.tru);
                }
                let base = self.lin_build(t.to_vec(), 0, w);
                let k2 = self.cst(k - c, w);
                return Some(self.bin(Op::Ult, k2, base));
            }
        }
        // sums sharing terms, both non wrapping
        if let (Node::Sum(..), _) | (_, Node::Sum(..)) = (&na, &nb) {
            let w = self.w(a);
            let get = |s: &Self, e: E| -> Option<(Vec<(E, u128)>, u128)> {
                match &s.nodes[e as usize] {
                    Node::Sum(t, c) => {
                        if s.sum_nowrap(t, *c, w) {
                            Some((t.to_vec(), *c))
                        } else {
                            None
                        }
                    }
                    Node::Const(_) => None,
                    _ => Some((vec![(e, 1)], 0)),
                }
            };
            if let (Some((mut ta, cA)), Some((mut tb, cB))) = (get(self, a), get(self, b)) {
                let mut changed = false;
                let mn = cA.min(cB);
                let (cA, cB) = (cA - mn, cB - mn);
                if mn > 0 {
                    changed = true;
                }
                for x in ta.iter_mut() {
                    for y in tb.iter_mut() {
                        if x.0 == y.0 {
                            let k = x.1.min(y.1);
                            if k > 0 {
                                x.1 -= k;
                                y.1 -= k;
                                changed = true;
                            }
                        }
                    }
                }
                // zext(x) against 2^k * zext(x >> k): what remains is the low part of x
                for side in 0..2 {
                    let (p, q) = if side == 0 { (&mut ta, &mut tb) } else { (&mut tb, &mut ta) };
                    for i in 0..p.len() {
                        for j in 0..q.len() {
                            if p[i].1 == 0 || q[j].1 == 0 {
                                continue;
                            }
                            let (x, k) = match self.hi_part(q[j].0) {
                                Some(v) => v,
                                None => continue,
                            };
                            let base = match self.nodes[p[i].0 as usize] {
                                Node::ZExt(y) if y == x => true,
                                _ => p[i].0 == x,
                            };
                            if base && p[i].1 < 1 << 60 && q[j].1 >= p[i].1 << k {
                                q[j].1 -= p[i].1 << k;
                                let low = self.extract(x, 0, k);
                                let low = self.zext(low, w);
                                p[i].0 = low;
                                changed = true;
                            }
                        }
                    }
                }
                if changed {
                    ta.retain(|x| x.1 > 0);
                    tb.retain(|x| x.1 > 0);
                    let x = self.lin_build(ta, cA, w);
                    let y = self.lin_build(tb, cB, w);
                    return Some(self.bin(op, x, y));
                }
            }
        }
        None
    }
    fn sum_nowrap(&self, t: &[(E, u128)], c: u128, w: u8) -> bool {
        let m = mask(w);
        let mut hi = c;
        for (e, k) in t {
            if *k > 1 << 40 || w > 64 {
                return false;
            }
            hi += self.hi[*e as usize] * *k;
            if hi > m {
                return false;
            }
        }
        true
    }
    fn eq2(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru;
        }
        let w = self.w(a);
        if w == 1 {
            match self.get_const(b) {
                Some(1) => return a,
                Some(0) => return self.not(a),
                _ => {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
            }
        }
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        if let Node::Const(k) = nb {
            match na {
                Node::ZExt(x) => {
                    let wx = self.w(x);
                    if k > mask(wx) {
                        return self.fal;
                    }
                    let kk = self.cst(k, wx);
                    return self.bin(Op::Eq, x, kk);
                }
                Node::SExt(x) => {
                    let wx = self.w(x);
                    let kk = k & mask(wx);
                    if (sext_i(kk, wx) as u128) & mask(w) != k {
                        return self.fal;
                    }
                    let kk = self.cst(kk, wx);
                    return self.bin(Op::Eq, x, kk);
                }
                Node::Not(x) => {
                    let kk = self.cst(!k, w);
                    return self.bin(Op::Eq, x, kk);
                }
                Node::Bin(Op::Concat, h, l) => {
                    let wl = self.w(l);
                    let kl = self.cst(k, wl);
                    let kh = self.cst(k >> wl, w - wl);
                    let x = self.bin(Op::Eq, l, kl);
                    if x == self.fal {
                        return x;
                    }
                    let y = self.bin(Op::Eq, h, kh);
                    return self.bin(Op::And, x, y);
                }
                Node::Sum(t, c) => {
                    if c != 0 || (t.len() == 1 && t[0].1 == mask(w)) {
                        if t.len() == 1 && t[0].1 == mask(w) {
                            // -x + c == k  => x == c-k
                            let kk = self.cst(c.wrapping_sub(k), w);
                            return self.bin(Op::Eq, t[0].0, kk);
                        }
                        let base = self.lin_build(t.to_vec(), 0, w);
                        let kk = self.cst(k.wrapping_sub(c), w);
                        return self.bin(Op::Eq, base, kk);
                    }
                    let sh = self.sum_shift(&t);
                    if sh > 0 {
                        if k & mask(sh) != 0 {
                            return self.fal;
                        }
                        let t2: Vec<(E, u128)> = t.iter().map(|x| (x.0, x.1 >> sh)).collect();
                        let y = self.lin_build_flat(t2, 0, w);
                        let y = self.extract(y, 0, w - sh);
                        let kk = self.cst(k >> sh, w - sh);
                        return self.bin(Op::Eq, y, kk);
                    }
                    if t.len() == 1 && t[0].1 & 1 == 1 {
                        // odd multiplier invertible
                        let mut inv: u128 = 1;
                        for _ in 0..7 {
                            inv = inv.wrapping_mul(2u128.wrapping_sub(t[0].1.wrapping_mul(inv)));
                        }
                        let kk = self.cst(k.wrapping_mul(inv), w);
                        return self.bin(Op::Eq, t[0].0, kk);
                    }
                    if t.len() == 2 && k == 0 {
                        // x - y == 0
                        if t[0].1 == 1 && t[1].1 == mask(w) || t[0].1 == mask(w) && t[1].1 == 1 {
                            return self.bin(Op::Eq, t[0].0, t[1].0);
                        }
                    }
                }
                Node::Ite(c, x, y) => {
                    let (cx, cy) = (self.get_const(x), self.get_const(y));
                    if cx.is_some() || cy.is_some() {
                        let p = self.bin(Op::Eq, x, b);
                        let q = self.bin(Op::Eq, y, b);
                        return self.ite(c, p, q);
                    }
                }
                Node::Bin(Op::Xor, x, y) => {
                    if let Some(k2) = self.get_const(y) {
                        let kk = self.cst(k ^ k2, w);
                        return self.bin(Op::Eq, x, kk);
                    }
                    if k == 0 {
                        return self.bin(Op::Eq, x, y);
                    }
                }
                Node::Bin(Op::Or, x, y) => {
                    if k == 0 {
                        let p = self.bin(Op::Eq, x, b);
                        let q = self.bin(Op::Eq, y, b);
                        return self.bin(Op::And, p, q);
                    }
                }
                _ => {}
            }
        } else {
            match (&na, &nb) {
                (Node::ZExt(x), Node::ZExt(y)) => {
                    let (x, y) = (*x, *y);
                    let mw = self.w(x).max(self.w(y));
                    let x = self.zext(x, mw);
                    let y = self.zext(y, mw);
                    return self.bin(Op::Eq, x, y);
                }
                (Node::Sum(..), _) | (_, Node::Sum(..)) => {
                    // canonicalise by moving everything to one side when terms cancel
                    let mut acc = vec![];
                    let mut c = 0;
                    self.lin_add(a, 1, w, &mut acc, &mut c);
                    let na_ = acc.len();
                    self.lin_add(b, mask(w), w, &mut acc, &mut c);
                    let total = acc.len();
                    let _ = na_;
                    let d = self.lin_build(acc, c, w);
                    let nd = match &self.nodes[d as usize] {
                        Node::Sum(t, _) => t.len(),
                        Node::Const(_) => 0,
                        _ => 1,
                    };
                    if nd < total {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, d, z);
                    }
                }
                (Node::Bin(Op::Concat, h1, l1), Node::Bin(Op::Concat, h2, l2)) => {
                    let (h1, l1, h2, l2) = (*h1, *l1, *h2, *l2);
                    if self.w(l1) == self.w(l2) {
                        let x = self.bin(Op::Eq, l1, l2);
                        if x == self.fal {
                            return x;
                        }
                        let y = self.bin(Op::Eq, h1, h2);
                        return self.bin(Op::And, x, y);
                    }
                }
                (Node::Ite(c, x, y), _) if *x == b || *y == b => {
                    let (c, x, y) = (*c, *x, *y);
                    let p = self.bin(Op::Eq, x, b);
                    let q = self.bin(Op::Eq, y, b);
                    return self.ite(c, p, q);
                }
                (_, Node::Ite(c, x, y)) if *x == a || *y == a => {
                    let (c, x, y) = (*c, *x, *y);
                    let p = self.bin(Op::Eq, x, a);
                    let q = self.bin(Op::Eq, y, a);
                    return self.ite(c, p, q);
                }
                _ => {}
            }
        }
        let (x, y) = if self.get_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node::Bin(Op::Eq, x, y), 1)
    }

    // ---- variables ----
    pub fn vars_of(&mut self, e: E) -> std::rc::Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vars[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let ch = self.children(x);
            let mut ready = true;
            for &c in &ch {
                if self.vars[c as usize].is_none() {
                    stack.push(c);
                    ready = false;
                }
            }
            if ready {
                let mut v: Vec<u32> = vec![];
                if let Node::Var(id) = self.nodes[x as usize] {
                    v.push(id);
                }
                for &c in &ch {
                    v.extend_from_slice(self.vars[c as usize].as_ref().unwrap());
                }
                v.sort_unstable();
                v.dedup();
                // share with a child when equal
                let mut rc: Option<std::rc::Rc<[u32]>> = None;
                for &c in &ch {
                    let cv = self.vars[c as usize].as_ref().unwrap();
                    if cv[..] == v[..] {
                        rc = Some(cv.clone());
                        break;
                    }
                }
                self.vars[x as usize] = Some(rc.unwrap_or_else(|| v.into()));
                stack.pop();
            }
        }
        self.vars[e as usize].clone().unwrap()
    }
    pub fn children(&self, e: E) -> Vec<E> {
        match &self.nodes[e as usize] {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Sum(t, _) => t.iter().map(|x| x.0).collect(),
            Node::Bin(_, a, b) => vec![*a, *b],
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => vec![*a],
            Node::Ite(c, a, b) => vec![*c, *a, *b],
        }
    }

    // ---- evaluation ----
    pub fn new_eval(&mut self) {
        self.cur_stamp += 1;
    }
    pub fn eval(&mut self, e: E, model: &dyn Fn(u32) -> u128) -> u128 {
        if let Node::Const(c) = self.nodes[e as usize] {
            return c;
        }
        if self.stamp[e as usize] == self.cur_stamp {
            return self.val[e as usize];
        }
        let mut stack = std::mem::take(&mut self.small);
        stack.clear();
        stack.push(e);
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.cur_stamp {
                stack.pop();
                continue;
            }
            let w = self.width[xi];
            macro_rules! need {
                ($c:expr) => {{
                    let c = $c;
                    if let Node::Const(k) = self.nodes[c as usize] {
                        Some(k)
                    } else if self.stamp[c as usize] == self.cur_stamp {
                        Some(self.val[c as usize])
                    } else {
                        stack.push(c);
                        None
                    }
                }};
            }
            let v = match &self.nodes[xi] {
                Node::Const(c) => Some(*c),
                Node::Var(id) => Some(model(*id) & mask(w)),
                Node::Sum(t, c) => {
                    let mut acc = *c;
                    let mut ok = true;
                    for (e, k) in t.iter() {
                        match need!(*e) {
                            Some(v) => acc = acc.wrapping_add(v.wrapping_mul(*k)),
                            None => ok = false,
                        }
                    }
                    if ok {
                        Some(acc & mask(w))
                    } else {
                        None
                    }
                }
                Node::Bin(op, a, b) => {
                    let (op, a, b) = (*op, *a, *b);
                    let x = need!(a);
                    let y = need!(b);
                    match (x, y) {
                        (Some(x), Some(y)) => Some(if op == Op::Concat {
                            (x << self.width[b as usize]) | y
                        } else {
                            bin_conc(op, self.width[a as usize], x, y)
                        }),
                        _ => None,
                    }
                }
                Node::Not(a) => {
                    let a = *a;
                    need!(a).map(|v| !v & mask(w))
                }
                Node::Extract(a, lo) => {
                    let (a, lo) = (*a, *lo);
                    need!(a).map(|v| (v >> lo) & mask(w))
                }
                Node::ZExt(a) => {
                    let a = *a;
                    need!(a)
                }
                Node::SExt(a) => {
                    let a = *a;
                    need!(a).map(|v| (sext_i(v, self.width[a as usize]) as u128) & mask(w))
                }
                Node::Ite(c, a, b) => {
                    let (c, a, b) = (*c, *a, *b);
                    match need!(c) {
                        None => None,
                        Some(1) => need!(a),
                        Some(_) => need!(b),
                    }
                }
            };
            if let Some(v) = v {
                self.val[xi] = v;
                self.stamp[xi] = self.cur_stamp;
                stack.pop();
            }
        }
        self.small = stack;
        self.val[e as usize]
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match &self.nodes[e as usize] {
            Node::Const(c) => format!("{:#x}:{}", c, self.w(e)),
            Node::Var(v) => format!("v{}", v),
            Node::Sum(t, c) => {
                let mut s = format!("(+ {:#x}", c);
                for (x, k) in t.iter() {
                    s += &format!(" {:#x}*{}", k, self.show(*x, d));
                }
                s + ")"
            }
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d), self.show(*b, d)),
            Node::Not(a) => format!("(not {})", self.show(*a, d)),
            Node::Extract(a, l) => {
                format!("{}[{}+{}]", self.show(*a, d), l, self.w(e))
            }
            Node::ZExt(a) => format!("zx{}({})", self.w(e), self.show(*a, d)),
            Node::SExt(a) => format!("sx{}({})", self.w(e), self.show(*a, d)),
            Node::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.show(*c, d),
                self.show(*a, d),
                self.show(*b, d)
            ),
        }
    }
}
