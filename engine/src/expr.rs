//! Hash-consed bit-vector expression pool with a local simplifier, a concrete
//! evaluator and exact truth tables for expressions over one small variable.
use std::collections::HashMap;
use std::rc::Rc;

pub type ExprId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt, Select,
    FAdd, FSub, FMul, FDiv, FRem, FLt, FLe, FEq, FIsNan,
    SiToFp, UiToFp, FpToSi, FpToUi, FExt, FTrunc, FSqrt, FRound,
    Uf,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Table {
    pub vals: Vec<u64>, // value for index 0..n
    pub ew: u16,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    ix: HashMap<Node, ExprId>,
    pub consts: Vec<u128>,
    cix: HashMap<u128, u32>,
    pub supp: Vec<u32>,
    pub sets: Vec<Rc<[u32]>>,
    set_ix: HashMap<Rc<[u32]>, u32>,
    union_memo: HashMap<(u32, u32), u32>,
    pub vars: Vec<(String, u16)>,
    pub tables: Vec<Table>,
    table_ix: HashMap<(Vec<u64>, u16), u32>,
    pub ufs: Vec<(String, Vec<ExprId>)>,
    uf_ix: HashMap<(String, Vec<ExprId>), u32>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    tt: HashMap<ExprId, [u64; 4]>,
    vt: HashMap<ExprId, Rc<Vec<u64>>>,
    stack: Vec<u32>,
    pub depth: Vec<u32>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fbin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}
fn tof(w: u16, a: u128) -> f64 {
    if w == 32 {
        f32::from_bits(a as u32) as f64
    } else {
        f64::from_bits(a as u64)
    }
}

fn int_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            ix: HashMap::new(),
            consts: vec![],
            cix: HashMap::new(),
            supp: vec![],
            sets: vec![],
            set_ix: HashMap::new(),
            union_memo: HashMap::new(),
            vars: vec![],
            tables: vec![],
            table_ix: HashMap::new(),
            ufs: vec![],
            uf_ix: HashMap::new(),
            memo: vec![],
            gen: 0,
            tt: HashMap::new(),
            vt: HashMap::new(),
            stack: vec![],
            depth: vec![],
        };
        let e: Rc<[u32]> = Rc::from(Vec::<u32>::new());
        p.sets.push(e.clone());
        p.set_ix.insert(e, 0);
        // id 0 is reserved as "no expression"
        p.cst(1, 0);
        p
    }
    fn set(&mut self, v: Vec<u32>) -> u32 {
        let rc: Rc<[u32]> = Rc::from(v);
        if let Some(&s) = self.set_ix.get(&rc) {
            return s;
        }
        self.sets.push(rc.clone());
        self.set_ix.insert(rc, self.sets.len() as u32 - 1);
        self.sets.len() as u32 - 1
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.union_memo.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.set(v);
        self.union_memo.insert(k, r);
        r
    }
    fn mk(&mut self, n: Node) -> ExprId {
        if let Some(&i) = self.ix.get(&n) {
            return i;
        }
        let (s, d) = match n.op {
            Op::Const => (0, 0),
            Op::Var => (self.set(vec![n.a]), 0),
            Op::Extract | Op::ZExt | Op::SExt | Op::Select | Op::FIsNan | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FExt | Op::FTrunc | Op::FSqrt | Op::FRound => {
                (self.supp[n.a as usize], self.depth[n.a as usize])
            }
            Op::Ite => {
                let s = self.union(self.supp[n.a as usize], self.supp[n.b as usize]);
                let d = self.depth[n.a as usize].max(self.depth[n.b as usize]).max(self.depth[n.c as usize]);
                (self.union(s, self.supp[n.c as usize]), d)
            }
            Op::Uf => {
                let args = self.ufs[n.a as usize].1.clone();
                let mut s = 0;
                let mut d = 0;
                for a in args {
                    s = self.union(s, self.supp[a as usize]);
                    d = d.max(self.depth[a as usize]);
                }
                (s, d)
            }
            _ => (self.union(self.supp[n.a as usize], self.supp[n.b as usize]), self.depth[n.a as usize].max(self.depth[n.b as usize])),
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.supp.push(s);
        self.depth.push(d + 1);
        self.ix.insert(n, id);
        id
    }
    pub fn cst(&mut self, w: u16, v: u128) -> ExprId {
        let v = v & mask(w);
        let c = match self.cix.get(&v) {
            Some(&c) => c,
            None => {
                self.consts.push(v);
                let c = self.consts.len() as u32 - 1;
                self.cix.insert(v, c);
                c
            }
        };
        self.mk(Node { op: Op::Const, w, a: c, b: 0, c: 0 })
    }
    pub fn var(&mut self, name: &str, w: u16) -> ExprId {
        let v = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        self.mk(Node { op: Op::Var, w, a: v, b: 0, c: 0 })
    }
    pub fn var_at(&mut self, v: u32, w: u16) -> ExprId {
        self.mk(Node { op: Op::Var, w, a: v, b: 0, c: 0 })
    }
    #[inline]
    pub fn w(&self, e: ExprId) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: ExprId) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn not(&mut self, e: ExprId) -> ExprId {
        let n = self.nodes[e as usize];
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                return self.cst(1, 1 - v);
            }
            Op::Xor => {
                if self.as_const(n.b) == Some(1) {
                    return n.a;
                }
            }
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.cst(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a: e, b: one, c: 0 })
    }
    pub fn is_not(&self, e: ExprId) -> Option<ExprId> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Xor && n.w == 1 && self.as_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn and(&mut self, a: ExprId, b: ExprId) -> ExprId {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: ExprId, b: ExprId) -> ExprId {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: ExprId, b: ExprId) -> ExprId {
        self.bin(Op::Eq, a, b)
    }
    pub fn bin(&mut self, op: Op, mut a: ExprId, mut b: ExprId) -> ExprId {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = int_bin(op, w, x, y);
            return self.cst(rw, r);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if na.op == Op::Add {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.cst(w, c.wrapping_add(c2));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite {
                        if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                            let x = self.bin(Op::Add, na.b, b);
                            let y = self.bin(Op::Add, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.cst(w, c.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                // (x + c) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.cst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(c) = cb {
                    if c != 0 && c.is_power_of_two() {
                        if op == Op::UDiv {
                            let k = self.cst(w, c.trailing_zeros() as u128);
                            return self.bin(Op::LShr, a, k);
                        } else {
                            let k = self.cst(w, c - 1);
                            return self.bin(Op::And, a, k);
                        }
                    }
                    if c != 0 {
                        // narrow when the dividend is a zero extension
                        if na.op == Op::ZExt {
                            let iw = self.w(na.a);
                            if c <= mask(iw) {
                                let k = self.cst(iw, c);
                                let r = self.bin(op, na.a, k);
                                return self.zext(r, w);
                            } else if op == Op::UDiv {
                                return self.cst(w, 0);
                            } else {
                                return a;
                            }
                        }
                    }
                }
                if op == Op::UDiv && cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.cst(w, c & c2);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.cst(iw, c & mask(iw));
                        let r = self.bin(Op::And, na.a, k);
                        return self.zext(r, w);
                    }
                    // low mask -> zext(extract)
                    if w > 1 && (c & (c + 1)) == 0 {
                        let k = (c + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(Op::And, na.b, b);
                        let y = self.bin(Op::And, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.cst(1, 0);
                    }
                    // a & (a|x)
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::And, na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.cst(1, 1);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(r, w);
                }
                // or of disjoint concat pieces: (zext x) | (zext y << k)
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 && c == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.cst(w, c ^ c2);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
                if w == 1 {
                    // pull negations out
                    if let Some(x) = self.is_not(a) {
                        let r = self.bin(Op::Xor, x, b);
                        return self.not(r);
                    }
                    if let Some(x) = self.is_not(b) {
                        let r = self.bin(Op::Xor, a, x);
                        return self.not(r);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Xor, na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    // concat(extract(a,0,w-c), 0)
                    let lo = self.extract(a, 0, w - c as u16);
                    let z = self.cst(c as u16, 0);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let hi = self.extract(a, c as u16, w - c as u16);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c as u16).min(w - 1);
                    let hi = self.extract(a, c, w - c);
                    return self.sext(hi, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if let Some(c) = cb {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(c) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if c > mask(iw) {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, c);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = sext(c & mask(iw), iw) as u128 & m;
                            if t != c {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, c);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.cst(w - lw, c >> lw);
                            let kl = self.cst(lw, c);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if self.as_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(c2) = self.as_const(na.b) {
                                let k = self.cst(w, c.wrapping_sub(c2));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(c2) = self.as_const(na.b) {
                                let k = self.cst(w, c ^ c2);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Sub => {
                            if c == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let mw = wa.max(wb);
                        let x = self.zext(na.a, mw);
                        let y = self.zext(nb.a, mw);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(m) {
                    return self.cst(1, 0);
                }
                if w == 1 {
                    // a<b <=> !a & b
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b, w) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.cst(1, 1);
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(c) = cb {
                    // a <= c  ==> a < c+1 (canonical form)
                    let k = self.cst(w, c + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(c) = ca {
                    // c <= b ==> c-1 < b ; keep as !(b < c)
                    let k = self.cst(w, c);
                    if let Some(r) = self.cmp_narrow(op, a, b, w) {
                        return r;
                    }
                    let _ = k;
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::Or, x, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b, w) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst(1, (op == Op::Sle) as u128);
                }
                // zero-extended operands are non-negative
                let pos = |p: &Pool, n: &Node, c: Option<u128>| -> bool {
                    (n.op == Op::ZExt && p.w(n.a) < w) || c.map_or(false, |c| c >> (w - 1) == 0)
                };
                if pos(self, &na, ca) && pos(self, &nb, cb) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::ZExt && self.w(na.a) < w && cb.map_or(false, |c| c >> (w - 1) == 1) {
                    return self.cst(1, 0);
                }
                if nb.op == Op::ZExt && self.w(nb.a) < w && ca.map_or(false, |c| c >> (w - 1) == 1) {
                    return self.cst(1, 1);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if na.op == Op::SExt {
                    if let Some(c) = cb {
                        let iw = self.w(na.a);
                        let sc = sext(c, w);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if sc >= lo && sc <= hi {
                            let k = self.cst(iw, c);
                            return self.bin(op, na.a, k);
                        }
                        return self.cst(1, (sc > hi) as u128);
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(c) = ca {
                        let iw = self.w(nb.a);
                        let sc = sext(c, w);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if sc >= lo && sc <= hi {
                            let k = self.cst(iw, c);
                            return self.bin(op, k, nb.a);
                        }
                        return self.cst(1, (sc < lo) as u128);
                    }
                }
                // ite with constant arms against a constant
                if let (Op::Ite, Some(_)) = (na.op, cb) {
                    if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let (Op::Ite, Some(_)) = (nb.op, ca) {
                    if self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0 })
    }
    fn or_concat(&mut self, a: ExprId, b: ExprId, w: u16) -> Option<ExprId> {
        // a = zext(x) with w(x)=k ; b = concat(hi, 0_k')  with k' >= k
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::ZExt {
            let k = self.w(na.a);
            let (hi, lw) = match nb.op {
                Op::Concat if self.as_const(nb.b) == Some(0) => (nb.a, self.w(nb.b)),
                Op::ZExt => {
                    let ni = self.nodes[nb.a as usize];
                    if ni.op == Op::Concat && self.as_const(ni.b) == Some(0) {
                        (self.zext(ni.a, w - self.w(ni.b)), self.w(ni.b))
                    } else {
                        return None;
                    }
                }
                _ => return None,
            };
            if lw >= k {
                let lo = self.zext(na.a, lw);
                return Some(self.concat(hi, lo));
            }
        }
        None
    }
    fn cmp_narrow(&mut self, op: Op, a: ExprId, b: ExprId, w: u16) -> Option<ExprId> {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let mw = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, mw);
            let y = self.zext(nb.a, mw);
            return Some(self.bin(op, x, y));
        }
        if na.op == Op::ZExt {
            if let Some(c) = cb {
                let iw = self.w(na.a);
                if c > mask(iw) {
                    return Some(self.cst(1, 1));
                }
                let k = self.cst(iw, c);
                return Some(self.bin(op, na.a, k));
            }
        }
        if nb.op == Op::ZExt {
            if let Some(c) = ca {
                let iw = self.w(nb.a);
                if c > mask(iw) {
                    return Some(self.cst(1, 0));
                }
                let k = self.cst(iw, c);
                return Some(self.bin(op, k, nb.a));
            }
        }
        let _ = w;
        if na.op == Op::Ite && cb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && ca.is_some() && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    pub fn ite(&mut self, c: ExprId, a: ExprId, b: ExprId) -> ExprId {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if let Some(n) = self.is_not(c) {
            return self.ite(n, b, a);
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if w == 1 {
            let (ka, kb) = (self.as_const(a), self.as_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    pub fn zext(&mut self, e: ExprId, w: u16) -> ExprId {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        debug_assert!(ew < w);
        if let Some(c) = self.as_const(e) {
            return self.cst(w, c);
        }
        let n = self.nodes[e as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w, a: e, b: 0, c: 0 })
    }
    pub fn sext(&mut self, e: ExprId, w: u16) -> ExprId {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(c) = self.as_const(e) {
            return self.cst(w, sext(c, ew) as u128);
        }
        let n = self.nodes[e as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0 })
    }
    pub fn extract(&mut self, e: ExprId, lo: u16, w: u16) -> ExprId {
        let ew = self.w(e);
        if lo == 0 && w == ew {
            return e;
        }
        debug_assert!(lo + w <= ew);
        if let Some(c) = self.as_const(e) {
            return self.cst(w, c >> lo);
        }
        let n = self.nodes[e as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let hi = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(hi, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::Ite => {
                let (cb, cc) = (self.as_const(n.b).is_some(), self.as_const(n.c).is_some());
                if cb || cc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if self.depth[e as usize] < 10 || self.as_const(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 && (self.depth[e as usize] < 10 || self.as_const(n.b).is_some()) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Select => {
                let t = &self.tables[n.b as usize];
                let vals: Vec<u64> = t.vals.iter().map(|v| (v >> lo) & mask(w) as u64).collect();
                return self.select(n.a, vals, w);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: e, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, hi: ExprId, lo: ExprId) -> ExprId {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst(w, (x << lw) | y);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let nh = self.nodes[hi as usize];
        let nl = self.nodes[lo as usize];
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
            return self.extract(nh.a, nl.b as u16, w);
        }
        // extract(x, k..) ++ x[0..k] where low piece is x itself cut
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // concat(concat(a,b),c) -> concat(a, concat(b,c)) when b,c merge
        if nh.op == Op::Concat {
            let nb = self.nodes[nh.b as usize];
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.b == nl.b + lw as u32 {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
            if self.as_const(nh.b).is_some() && self.as_const(lo).is_some() {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 })
    }
    /// table lookup: vals[idx]; idx is assumed in range
    pub fn select(&mut self, idx: ExprId, vals: Vec<u64>, ew: u16) -> ExprId {
        if let Some(c) = self.as_const(idx) {
            let v = vals.get(c as usize).copied().unwrap_or(0);
            return self.cst(ew, v as u128);
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return self.cst(ew, vals[0] as u128);
        }
        let k = (vals, ew);
        let t = match self.table_ix.get(&k) {
            Some(&t) => t,
            None => {
                let t = self.tables.len() as u32;
                self.tables.push(Table { vals: k.0.clone(), ew });
                self.table_ix.insert(k, t);
                t
            }
        };
        self.mk(Node { op: Op::Select, w: ew, a: idx, b: t, c: 0 })
    }
    pub fn fbin(&mut self, op: Op, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        let rw = match op {
            Op::FLt | Op::FLe | Op::FEq => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = match op {
                Op::FLt => (tof(w, x) < tof(w, y)) as u128,
                Op::FLe => (tof(w, x) <= tof(w, y)) as u128,
                Op::FEq => (tof(w, x) == tof(w, y)) as u128,
                _ => fbin(op, w, x, y),
            };
            return self.cst(rw, r);
        }
        self.mk(Node { op, w: rw, a, b, c: 0 })
    }
    pub fn fun(&mut self, op: Op, a: ExprId, w: u16, c: u32) -> ExprId {
        if let Some(x) = self.as_const(a) {
            let r = self.eval_fun(op, self.w(a), x, w, c);
            return self.cst(w, r);
        }
        self.mk(Node { op, w, a, b: 0, c })
    }
    pub fn uf(&mut self, name: &str, args: Vec<ExprId>, w: u16) -> ExprId {
        let k = (name.to_string(), args);
        let i = match self.uf_ix.get(&k) {
            Some(&i) => i,
            None => {
                self.ufs.push(k.clone());
                self.uf_ix.insert(k, self.ufs.len() as u32 - 1);
                self.ufs.len() as u32 - 1
            }
        };
        self.mk(Node { op: Op::Uf, w, a: i, b: 0, c: 0 })
    }
    fn eval_fun(&self, op: Op, aw: u16, x: u128, w: u16, c: u32) -> u128 {
        let of = |f: f64| -> u128 {
            if w == 32 {
                (f as f32).to_bits() as u128
            } else {
                f.to_bits() as u128
            }
        };
        match op {
            Op::FIsNan => tof(aw, x).is_nan() as u128,
            Op::SiToFp => {
                if w == 32 {
                    (sext(x, aw) as f32).to_bits() as u128
                } else {
                    (sext(x, aw) as f64).to_bits() as u128
                }
            }
            Op::UiToFp => {
                if w == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    (x as f64).to_bits() as u128
                }
            }
            Op::FpToSi => {
                let f = tof(aw, x);
                let lim = if w >= 127 { f64::MAX } else { (1u128 << (w - 1)) as f64 };
                let r: i128 = if f.is_nan() {
                    0
                } else if f >= lim {
                    (mask(w) >> 1) as i128
                } else if f < -lim {
                    -(1i128 << (w - 1))
                } else {
                    f as i128
                };
                r as u128 & mask(w)
            }
            Op::FpToUi => {
                let f = tof(aw, x);
                let r: u128 = if f.is_nan() || f <= 0.0 {
                    0
                } else {
                    let u = f as u128;
                    u.min(mask(w))
                };
                r & mask(w)
            }
            Op::FExt | Op::FTrunc => of(tof(aw, x)),
            Op::FSqrt => of(tof(aw, x).sqrt()),
            Op::FRound => {
                let f = tof(aw, x);
                of(match c {
                    0 => f.floor(),
                    1 => f.ceil(),
                    2 => f.trunc(),
                    3 => f.round(),
                    _ => f.round_ties_even(),
                })
            }
            _ => unreachable!(),
        }
    }

    /// concrete evaluation under an assignment of the variables (None: contains an
    /// uninterpreted function)
    pub fn eval(&mut self, e: ExprId, model: &[u64]) -> Option<u128> {
        if let Some(c) = self.as_const(e) {
            return Some(c);
        }
        self.gen += 1;
        let gen = self.gen;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        let mut st = std::mem::take(&mut self.stack);
        st.clear();
        st.push(e);
        let mut ok = true;
        while let Some(&x) = st.last() {
            if self.memo[x as usize].0 == gen {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            macro_rules! need {
                ($c:expr) => {{
                    let c = $c;
                    if self.memo[c as usize].0 == gen {
                        self.memo[c as usize].1
                    } else if let Some(k) = self.as_const(c) {
                        k
                    } else {
                        st.push(c);
                        continue;
                    }
                }};
            }
            let v: u128 = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => model.get(n.a as usize).copied().unwrap_or(0) as u128,
                Op::Ite => {
                    let c = need!(n.a);
                    if c == 1 {
                        need!(n.b)
                    } else {
                        need!(n.c)
                    }
                }
                Op::Concat => {
                    let h = need!(n.a);
                    let l = need!(n.b);
                    (h << self.w(n.b)) | l
                }
                Op::Extract => (need!(n.a) >> n.b) & mask(n.w),
                Op::ZExt => need!(n.a),
                Op::SExt => {
                    let a = need!(n.a);
                    sext(a, self.w(n.a)) as u128 & mask(n.w)
                }
                Op::Select => {
                    let i = need!(n.a);
                    self.tables[n.b as usize].vals.get(i as usize).copied().unwrap_or(0) as u128
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    fbin(n.op, n.w, a, b)
                }
                Op::FLt | Op::FLe | Op::FEq => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    let w = self.w(n.a);
                    let (a, b) = (tof(w, a), tof(w, b));
                    (match n.op {
                        Op::FLt => a < b,
                        Op::FLe => a <= b,
                        _ => a == b,
                    }) as u128
                }
                Op::FIsNan | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FExt | Op::FTrunc | Op::FSqrt | Op::FRound => {
                    let a = need!(n.a);
                    self.eval_fun(n.op, self.w(n.a), a, n.w, n.c)
                }
                Op::Uf => {
                    ok = false;
                    break;
                }
                _ => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    int_bin(n.op, self.w(n.a), a, b)
                }
            };
            self.memo[x as usize] = (gen, v);
            st.pop();
        }
        self.stack = st;
        if ok {
            Some(self.memo[e as usize].1)
        } else {
            None
        }
    }
    /// the single variable an expression depends on, if it has at most 8 bits
    pub fn small_var(&self, e: ExprId) -> Option<u32> {
        let s = &self.sets[self.supp[e as usize] as usize];
        if s.len() == 1 && self.vars[s[0] as usize].1 <= 8 {
            Some(s[0])
        } else {
            None
        }
    }
    pub fn support(&self, e: ExprId) -> Rc<[u32]> {
        self.sets[self.supp[e as usize] as usize].clone()
    }
    /// truth table of a width-1 expression over one small variable
    pub fn truth(&mut self, e: ExprId, v: u32) -> Option<[u64; 4]> {
        if let Some(t) = self.tt.get(&e) {
            return Some(*t);
        }
        let vals = self.values(e, v)?;
        let mut t = [0u64; 4];
        for (i, x) in vals.iter().enumerate() {
            if *x == 1 {
                t[i >> 6] |= 1 << (i & 63);
            }
        }
        self.tt.insert(e, t);
        Some(t)
    }
    pub fn values(&mut self, e: ExprId, v: u32) -> Option<Rc<Vec<u64>>> {
        if let Some(t) = self.vt.get(&e) {
            return Some(t.clone());
        }
        let n = self.nodes[e as usize];
        let vw = self.vars[v as usize].1;
        // compose from children when they are tabulated (cheap for deep chains)
        let mut model = vec![0u64; v as usize + 1];
        let mut out = Vec::with_capacity(1 << vw);
        if n.w > 64 {
            return None;
        }
        for x in 0..(1u64 << vw) {
            model[v as usize] = x;
            out.push(self.eval(e, &model)? as u64);
        }
        let rc = Rc::new(out);
        self.vt.insert(e, rc.clone());
        Some(rc)
    }
    pub fn show(&self, e: ExprId, d: u32) -> String {
        let n = self.nodes[e as usize];
        if d == 0 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => format!("{}", self.vars[n.a as usize].0),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::Select => format!("tbl{}[{}]", n.b, self.show(n.a, d - 1)),
            Op::Uf => format!("uf:{}", self.ufs[n.a as usize].0),
            _ if n.a != 0 && n.b != 0 => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
            _ => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
        }
    }
}
