//! Interval analysis of expressions under a path's byte domains: cheap, sound
//! over-approximation used to discharge overflow checks of digit arithmetic.
use crate::exec::*;
use crate::expr::*;
use std::collections::HashMap;

/// unsigned interval; signed interval
#[derive(Clone, Copy, Debug)]
pub struct Rg {
    pub u: (u128, u128),
    pub s: (i128, i128),
}

fn top(w: u16) -> Rg {
    let h = 1i128 << (w - 1);
    Rg { u: (0, mask(w)), s: (-h, h - 1) }
}
fn from_u(w: u16, lo: u128, hi: u128) -> Rg {
    let h = 1u128 << (w - 1);
    let s = if hi < h {
        (lo as i128, hi as i128)
    } else if lo >= h {
        (sext(lo, w), sext(hi, w))
    } else {
        top(w).s
    };
    Rg { u: (lo, hi), s }
}
fn from_s(w: u16, lo: i128, hi: i128) -> Rg {
    let u = if lo >= 0 {
        (lo as u128, hi as u128)
    } else if hi < 0 {
        (lo as u128 & mask(w), hi as u128 & mask(w))
    } else {
        (0, mask(w))
    };
    Rg { u, s: (lo, hi) }
}

impl Engine {
    pub fn ivl(&mut self, st: &State, e: ExprId, memo: &mut HashMap<ExprId, Rg>) -> Rg {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = self.ivl1(st, e, memo);
        memo.insert(e, r);
        r
    }
    fn ivl1(&mut self, st: &State, e: ExprId, memo: &mut HashMap<ExprId, Rg>) -> Rg {
        let n = self.pool.nodes[e as usize];
        let w = n.w;
        if w > 64 {
            return Rg { u: (0, mask(w)), s: (i128::MIN, i128::MAX) };
        }
        if let Some(c) = self.pool.as_const(e) {
            return from_u(w, c, c);
        }
        if let Some(v) = self.pool.small_var(e) {
            if let Some(vals) = self.pool.values(e, v) {
                let d = &st.doms[v as usize];
                let (mut lo, mut hi, mut any) = (u64::MAX, 0u64, false);
                let (mut sl, mut sh) = (i128::MAX, i128::MIN);
                for x in 0..vals.len() {
                    if d.bits[x >> 6] >> (x & 63) & 1 == 1 {
                        any = true;
                        lo = lo.min(vals[x]);
                        hi = hi.max(vals[x]);
                        let s = sext(vals[x] as u128, w);
                        sl = sl.min(s);
                        sh = sh.max(s);
                    }
                }
                if any {
                    return Rg { u: (lo as u128, hi as u128), s: (sl, sh) };
                }
                return top(w);
            }
        }
        if self.pool.depth[e as usize] > 400 {
            return top(w);
        }
        let h = 1i128 << (w - 1);
        match n.op {
            Op::ZExt => {
                let iw = self.pool.w(n.a);
                if iw > 64 {
                    return top(w);
                }
                let r = self.ivl(st, n.a, memo);
                from_u(w, r.u.0, r.u.1)
            }
            Op::SExt => {
                let r = self.ivl(st, n.a, memo);
                from_s(w, r.s.0, r.s.1)
            }
            Op::Add | Op::Sub | Op::Mul => {
                let (x, y) = (self.ivl(st, n.a, memo), self.ivl(st, n.b, memo));
                let mut r = top(w);
                let s = match n.op {
                    Op::Add => (x.s.0 + y.s.0, x.s.1 + y.s.1),
                    Op::Sub => (x.s.0 - y.s.1, x.s.1 - y.s.0),
                    _ => {
                        let c = [x.s.0.checked_mul(y.s.0), x.s.0.checked_mul(y.s.1), x.s.1.checked_mul(y.s.0), x.s.1.checked_mul(y.s.1)];
                        if c.iter().any(|q| q.is_none()) {
                            return r;
                        }
                        let c: Vec<i128> = c.iter().map(|q| q.unwrap()).collect();
                        (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                    }
                };
                if s.0 >= -h && s.1 < h {
                    r = from_s(w, s.0, s.1);
                }
                let m = mask(w);
                let u = match n.op {
                    Op::Add => (x.u.0.checked_add(y.u.0), x.u.1.checked_add(y.u.1)),
                    Op::Sub => (x.u.0.checked_sub(y.u.1), x.u.1.checked_sub(y.u.0)),
                    _ => (x.u.0.checked_mul(y.u.0), x.u.1.checked_mul(y.u.1)),
                };
                if let (Some(a), Some(b)) = u {
                    if b <= m && (b - a) < r.u.1 - r.u.0 {
                        let q = from_u(w, a, b);
                        r.u = q.u;
                        if r.s == top(w).s {
                            r.s = q.s;
                        }
                    }
                }
                r
            }
            Op::Extract if n.b == 0 && self.pool.w(n.a) <= 64 => {
                let x = self.ivl(st, n.a, memo);
                let mut r = top(w);
                if x.u.1 <= mask(w) {
                    r = from_u(w, x.u.0, x.u.1);
                }
                if x.s.0 >= -h && x.s.1 < h {
                    r = from_s(w, x.s.0, x.s.1);
                }
                r
            }
            Op::And => {
                let (x, y) = (self.ivl(st, n.a, memo), self.ivl(st, n.b, memo));
                from_u(w, 0, x.u.1.min(y.u.1))
            }
            Op::LShr => match self.pool.as_const(n.b) {
                Some(c) if c < w as u128 => {
                    let x = self.ivl(st, n.a, memo);
                    from_u(w, x.u.0 >> c, x.u.1 >> c)
                }
                _ => top(w),
            },
            Op::Shl => match self.pool.as_const(n.b) {
                Some(c) if c < w as u128 => {
                    let x = self.ivl(st, n.a, memo);
                    if x.u.1 << c <= mask(w) {
                        from_u(w, x.u.0 << c, x.u.1 << c)
                    } else if x.s.0 << c >= -h && x.s.1 << c < h && x.s.1 < 1 << (63 - c) as u32 && x.s.0 > -(1 << (63 - c) as u32) {
                        from_s(w, x.s.0 << c, x.s.1 << c)
                    } else {
                        top(w)
                    }
                }
                _ => top(w),
            },
            Op::UDiv => match self.pool.as_const(n.b) {
                Some(c) if c > 0 => {
                    let x = self.ivl(st, n.a, memo);
                    from_u(w, x.u.0 / c, x.u.1 / c)
                }
                _ => top(w),
            },
            Op::URem => match self.pool.as_const(n.b) {
                Some(c) if c > 0 => {
                    let x = self.ivl(st, n.a, memo);
                    if x.u.1 < c { x } else { from_u(w, 0, c - 1) }
                }
                _ => top(w),
            },
            Op::Ite => {
                let (x, y) = (self.ivl(st, n.b, memo), self.ivl(st, n.c, memo));
                Rg { u: (x.u.0.min(y.u.0), x.u.1.max(y.u.1)), s: (x.s.0.min(y.s.0), x.s.1.max(y.s.1)) }
            }
            _ => top(w),
        }
    }
    /// true when the operation cannot overflow under the path's domains
    pub fn no_overflow(&mut self, st: &State, op: crate::ir::BinOp, signed: bool, x: ExprId, y: ExprId, w: u16) -> bool {
        use crate::ir::BinOp;
        if w > 64 {
            return false;
        }
        let mut memo = HashMap::new();
        let (a, b) = (self.ivl(st, x, &mut memo), self.ivl(st, y, &mut memo));
        if signed {
            let h = 1i128 << (w - 1);
            let s = match op {
                BinOp::Add => (a.s.0 + b.s.0, a.s.1 + b.s.1),
                BinOp::Sub => (a.s.0 - b.s.1, a.s.1 - b.s.0),
                _ => {
                    let c = [a.s.0.checked_mul(b.s.0), a.s.0.checked_mul(b.s.1), a.s.1.checked_mul(b.s.0), a.s.1.checked_mul(b.s.1)];
                    if c.iter().any(|q| q.is_none()) {
                        return false;
                    }
                    let c: Vec<i128> = c.iter().map(|q| q.unwrap()).collect();
                    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                }
            };
            s.0 >= -h && s.1 < h
        } else {
            match op {
                BinOp::Add => a.u.1.checked_add(b.u.1).map_or(false, |q| q <= mask(w)),
                BinOp::Sub => a.u.0 >= b.u.1,
                _ => a.u.1.checked_mul(b.u.1).map_or(false, |q| q <= mask(w)),
            }
        }
    }
    /// Some(b) when the intervals decide the comparison
    pub fn range_decides(&mut self, st: &State, c: ExprId) -> Option<bool> {
        if let Some(x) = self.pool.is_not(c) {
            return self.range_decides(st, x).map(|b| !b);
        }
        let n = self.pool.nodes[c as usize];
        if !matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) || self.pool.w(n.a) > 64 {
            return None;
        }
        let mut memo = HashMap::new();
        let (a, b) = (self.ivl(st, n.a, &mut memo), self.ivl(st, n.b, &mut memo));
        match n.op {
            Op::Eq if a.u.1 < b.u.0 || b.u.1 < a.u.0 || a.s.1 < b.s.0 || b.s.1 < a.s.0 => Some(false),
            Op::Ult if a.u.1 < b.u.0 => Some(true),
            Op::Ult if a.u.0 >= b.u.1 => Some(false),
            Op::Ule if a.u.1 <= b.u.0 => Some(true),
            Op::Ule if a.u.0 > b.u.1 => Some(false),
            Op::Slt if a.s.1 < b.s.0 => Some(true),
            Op::Slt if a.s.0 >= b.s.1 => Some(false),
            Op::Sle if a.s.1 <= b.s.0 => Some(true),
            Op::Sle if a.s.0 > b.s.1 => Some(false),
            _ => None,
        }
    }
}
