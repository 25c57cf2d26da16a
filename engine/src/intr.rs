//! LLVM intrinsics, allocation, the C environment model and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Res;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Intr {
    Nop,
    Memcpy, Memset,
    Minmax(Pred), Abs,
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr,
    Overflow(BinOp, bool), Sat(BinOp, bool), Cmp3(bool),
    Ident, Zero, Trap,
    FUn(&'static str), FBin(&'static str), FSat(bool),
    Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, CRealloc,
    Bcmp, Memcmp, Strlen,
    PanicFn, AllocFail, Abort, Exit,
    SvBytes, SvWord(u16), SvChoose, SvAssume, SvAssert, SvReach, SvNote, SvIsSym, SvConc,
    SvOpaque, SvThread, SvStdout, SvExpectPanic,
}

impl Intr {
    pub fn from_name(n: &str) -> Option<Intr> {
        use Intr::*;
        if let Some(s) = n.strip_prefix("llvm.") {
            let h = |p: &str| s.starts_with(p);
            return Some(match s {
                _ if h("lifetime") || h("assume") || h("experimental.noalias") || h("dbg") || h("x86.sse2.pause") || h("x86.avx.vzeroupper") || h("prefetch") || h("donothing") || h("invariant") => Nop,
                _ if h("memcpy") || h("memmove") => Memcpy,
                _ if h("memset") => Memset,
                _ if h("umax") => Minmax(Pred::Ugt),
                _ if h("umin") => Minmax(Pred::Ult),
                _ if h("smax") => Minmax(Pred::Sgt),
                _ if h("smin") => Minmax(Pred::Slt),
                _ if h("abs.") => Abs,
                _ if h("ctpop") => Ctpop,
                _ if h("ctlz") => Ctlz,
                _ if h("cttz") => Cttz,
                _ if h("bswap") => Bswap,
                _ if h("bitreverse") => Bitrev,
                _ if h("fshl") => Fshl,
                _ if h("fshr") => Fshr,
                _ if h("sadd.with") => Overflow(BinOp::Add, true),
                _ if h("uadd.with") => Overflow(BinOp::Add, false),
                _ if h("ssub.with") => Overflow(BinOp::Sub, true),
                _ if h("usub.with") => Overflow(BinOp::Sub, false),
                _ if h("smul.with") => Overflow(BinOp::Mul, true),
                _ if h("umul.with") => Overflow(BinOp::Mul, false),
                _ if h("sadd.sat") => Sat(BinOp::Add, true),
                _ if h("uadd.sat") => Sat(BinOp::Add, false),
                _ if h("ssub.sat") => Sat(BinOp::Sub, true),
                _ if h("usub.sat") => Sat(BinOp::Sub, false),
                _ if h("ucmp") => Cmp3(false),
                _ if h("scmp") => Cmp3(true),
                _ if h("threadlocal.address") || h("ptrmask") && false || h("launder") || h("strip.inv") || h("expect") || h("arithmetic.fence") => Ident,
                _ if h("is.constant") || h("objectsize") => Zero,
                _ if h("trap") || h("debugtrap") || h("ubsantrap") => Trap,
                _ if h("fabs") => FUn("fabs"),
                _ if h("floor") => FUn("floor"),
                _ if h("ceil") => FUn("ceil"),
                _ if h("trunc.") => FUn("trunc"),
                _ if h("round.") => FUn("round"),
                _ if h("roundeven") || h("rint") || h("nearbyint") => FUn("rint"),
                _ if h("sqrt") => FUn("sqrt"),
                _ if h("sin.") => FUn("sin"),
                _ if h("cos.") => FUn("cos"),
                _ if h("tan.") => FUn("tan"),
                _ if h("exp.") => FUn("exp"),
                _ if h("exp2") => FUn("exp2"),
                _ if h("log.") => FUn("log"),
                _ if h("log2") => FUn("log2"),
                _ if h("log10") => FUn("log10"),
                _ if h("pow.") => FBin("pow"),
                _ if h("copysign") => FBin("copysign"),
                _ if h("minnum") || h("minimumnum") => FBin("fmin"),
                _ if h("maxnum") || h("maximumnum") => FBin("fmax"),
                _ if h("fptosi.sat") => FSat(true),
                _ if h("fptoui.sat") => FSat(false),
                _ => return None,
            });
        }
        Some(match n {
            "malloc" => Malloc,
            "calloc" => Calloc,
            "realloc" => CRealloc,
            "free" => Dealloc,
            "bcmp" => Bcmp,
            "memcmp" => Memcmp,
            "strlen" => Strlen,
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "abort" => Abort,
            "exit" | "_exit" => Exit,
            "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" | "cbrt" | "log1p" | "expm1" | "exp" | "log" | "log2" | "log10" => {
                FUn(Box::leak(n.to_string().into_boxed_str()))
            }
            "pow" | "atan2" | "hypot" | "fmod" => FBin(Box::leak(n.to_string().into_boxed_str())),
            "sv_bytes" => SvBytes,
            "sv_u8" => SvWord(8),
            "sv_u16" => SvWord(16),
            "sv_u32" => SvWord(32),
            "sv_u64" => SvWord(64),
            "sv_bool" => SvWord(1),
            "sv_choose" => SvChoose,
            "sv_assume" => SvAssume,
            "sv_assert" => SvAssert,
            "sv_reach" => SvReach,
            "sv_note" => SvNote,
            "sv_is_sym" => SvIsSym,
            "sv_conc" => SvConc,
            "sv_opaque" => SvOpaque,
            "sv_thread" => SvThread,
            "sv_stdout" => SvStdout,
            _ if n.starts_with("_R") || n.starts_with("__rust") || n.starts_with("__r") => {
                if n.ends_with("___rust_alloc") || n == "__rust_alloc" || n.ends_with("_5alloc8___rust_alloc") {
                    Alloc
                } else if n.ends_with("___rust_alloc_zeroed") {
                    AllocZ
                } else if n.ends_with("___rust_dealloc") {
                    Dealloc
                } else if n.ends_with("___rust_realloc") {
                    Realloc
                } else if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") || n.contains("no_alloc_shim_is_unstable") {
                    Nop
                } else if n.contains("4core9panicking") || n.ends_with("17rust_begin_unwind") || n.contains("4core6option13unwrap_failed") || n.contains("4core6option13expect_failed") || n.contains("4core6result13unwrap_failed") || n.contains("4core4cell") && n.contains("panic_already") {
                    PanicFn
                } else if n.contains("5alloc5alloc18handle_alloc_error") || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow") || n.ends_with("20rust_alloc_error_handler") {
                    AllocFail
                } else {
                    return None;
                }
            }
            _ => return None,
        })
    }
}

fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(Outcome::Incomplete(s.into())))
}
fn pair(a: Val, b: Val) -> Val {
    Val::A(Rc::new(vec![a, b]))
}

impl Engine {
    fn ci(&self, v: &Val) -> Option<u64> {
        match v {
            Val::I(x) => Some(*x),
            _ => None,
        }
    }
    fn str_arg(&mut self, st: &State, p: &Val, n: &Val) -> R<String> {
        let a = self.conc(st, p)?;
        let n = self.conc(st, n)?;
        Ok(String::from_utf8_lossy(&self.read_conc(st, a, n)?).to_string())
    }
    fn lanes(&self, ty: TyId) -> Option<(u64, u16)> {
        match self.m.tys[ty as usize] {
            Ty::Vector(n, e) => Some((n, self.m.scalar_width(e))),
            _ => None,
        }
    }
    pub fn intrinsic(&mut self, st: &mut State, i: Intr, a: &[Val], tys: &[TyId], ret: TyId) -> R<Val> {
        use Intr::*;
        // lane-wise vector intrinsics
        if let Some((n, _)) = tys.first().and_then(|t| self.lanes(*t)) {
            if !matches!(i, Nop | Memcpy | Memset) {
                let (rt, et) = match (self.m.tys[ret as usize].clone(), self.m.tys[tys[0] as usize].clone()) {
                    (Ty::Vector(_, r), Ty::Vector(_, e)) => (r, e),
                    _ => return inc("vector intrinsic"),
                };
                let mut out = vec![];
                for k in 0..n as usize {
                    let aa: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(x) => x[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let tt: Vec<TyId> = tys.iter().map(|t| if self.lanes(*t).is_some() { et } else { *t }).collect();
                    out.push(self.intrinsic(st, i.clone(), &aa, &tt, rt)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let w = tys.first().map_or(0, |t| self.m.scalar_width(*t));
        let rw = self.m.scalar_width(ret);
        match i {
            Nop => Ok(Val::I(0)),
            Zero => Ok(Val::I(0)),
            Ident => Ok(a[0].clone()),
            Trap => Err(Stop::End(Outcome::Panic("trap".into()))),
            Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.copy(st, d, s, n)?;
                Ok(a[0].clone())
            }
            Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                self.check_range(st, d, n, "memset")?;
                let off = (d & 0xffff_ffff) as usize;
                let v = match &a[1] {
                    Val::I(x) => Val::I(x & 0xff),
                    Val::E(e) => {
                        let e = self.pool.extract(*e, 0, 8);
                        self.val(e)
                    }
                    _ => panic!(),
                };
                let o = self.obj_mut(st, (d >> ADDR_SHIFT) as u32).unwrap();
                match v {
                    Val::I(x) => {
                        for b in &mut o.data[off..off + n as usize] {
                            *b = x as u8;
                        }
                        o.clear_sym(off, n as usize);
                    }
                    Val::E(e) => {
                        let s = o.sym_mut();
                        for k in 0..n as usize {
                            s[off + k] = (e as u64) << 8;
                        }
                    }
                    _ => panic!(),
                }
                Ok(a[0].clone())
            }
            Minmax(p) => {
                let c = self.icmp(p, &a[0], &a[1], w);
                match c {
                    Val::I(1) => Ok(a[0].clone()),
                    Val::I(_) => Ok(a[1].clone()),
                    Val::E(c) => {
                        let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                        let r = self.pool.ite(c, x, y);
                        Ok(self.val(r))
                    }
                    _ => panic!(),
                }
            }
            Abs => {
                let c = self.icmp(Pred::Slt, &a[0], &Val::I(0), w);
                let n = self.binop(BinOp::Sub, &Val::I(0), &a[0], w);
                let (c, x, y) = (self.ex(&c, 1), self.ex(&n, w), self.ex(&a[0], w));
                let r = self.pool.ite(c, x, y);
                Ok(self.val(r))
            }
            Ctpop => {
                let e = self.ex(&a[0], w);
                if let Some(c) = self.pool.as_const(e) {
                    return Ok(Val::I(c.count_ones() as u64));
                }
                let mut r = self.pool.cst(w, 0);
                for k in 0..w {
                    let b = self.pool.extract(e, k, 1);
                    let z = self.pool.zext(b, w);
                    r = self.pool.bin(Op::Add, r, z);
                }
                Ok(self.val(r))
            }
            Ctlz | Cttz => {
                let e = self.ex(&a[0], w);
                if let Some(c) = self.pool.as_const(e) {
                    let r = if c == 0 {
                        w as u32
                    } else if matches!(i, Cttz) {
                        c.trailing_zeros()
                    } else {
                        c.leading_zeros() - (128 - w as u32)
                    };
                    let r = self.pool.cst(w, r as u128);
                    return Ok(self.val(r));
                }
                let mut r = self.pool.cst(w, w as u128);
                for k in 0..w {
                    // later iterations take precedence
                    let bit = if matches!(i, Cttz) { w - 1 - k } else { k };
                    let b = self.pool.extract(e, bit, 1);
                    let v = if matches!(i, Cttz) { bit } else { w - 1 - bit };
                    let c = self.pool.cst(w, v as u128);
                    r = self.pool.ite(b, c, r);
                }
                Ok(self.val(r))
            }
            Bswap => {
                let e = self.ex(&a[0], w);
                let mut r = self.pool.extract(e, 0, 8);
                for k in 1..w / 8 {
                    let b = self.pool.extract(e, k * 8, 8);
                    r = self.pool.concat(r, b);
                }
                Ok(self.val(r))
            }
            Bitrev => {
                let e = self.ex(&a[0], w);
                let mut r = self.pool.extract(e, 0, 1);
                for k in 1..w {
                    let b = self.pool.extract(e, k, 1);
                    r = self.pool.concat(r, b);
                }
                Ok(self.val(r))
            }
            Fshl | Fshr => {
                // 128-bit concatenation only for w <= 64
                let (x, y, s) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
                let wc = self.pool.cst(w, w as u128);
                let s = self.pool.bin(Op::URem, s, wc);
                if w > 64 {
                    return inc("fsh width");
                }
                let cat = self.pool.concat(x, y);
                let s2 = self.pool.zext(s, 2 * w);
                let r = if matches!(i, Fshl) {
                    let t = self.pool.bin(Op::Shl, cat, s2);
                    self.pool.extract(t, w, w)
                } else {
                    let t = self.pool.bin(Op::LShr, cat, s2);
                    self.pool.extract(t, 0, w)
                };
                Ok(self.val(r))
            }
            Overflow(op, signed) => {
                if let (Some(x), Some(y)) = (self.ci(&a[0]), self.ci(&a[1])) {
                    if w <= 64 {
                        let (r, of);
                        if signed {
                            let (x, y) = (sext64(x, w) as i128, sext64(y, w) as i128);
                            let z = match op {
                                BinOp::Add => x + y,
                                BinOp::Sub => x - y,
                                _ => x * y,
                            };
                            r = z as u128 & mask(w);
                            of = sext(r, w) != z;
                        } else {
                            let (x, y) = (x as i128, y as i128);
                            let z = match op {
                                BinOp::Add => x + y,
                                BinOp::Sub => x - y,
                                _ => ((x as u128) * (y as u128)) as i128,
                            };
                            r = z as u128 & mask(w);
                            of = r as i128 != z;
                        }
                        return Ok(pair(Val::I(r as u64), Val::I(of as u64)));
                    }
                }
                if w > 64 {
                    return inc("overflow width");
                }
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let r = self.binop(op, &a[0], &a[1], w);
                let re = self.ex(&r, w);
                if self.no_overflow(st, op, signed, x, y, w) {
                    return Ok(pair(r, Val::I(0)));
                }
                let of = match (op, signed) {
                    (BinOp::Add, false) => self.pool.bin(Op::Ult, re, x),
                    (BinOp::Sub, false) => self.pool.bin(Op::Ult, x, y),
                    _ => {
                        // widen
                        let ww = if matches!(op, BinOp::Mul) { 2 * w } else { w + 1 };
                        let (xe, ye, rr) = if signed {
                            (self.pool.sext(x, ww), self.pool.sext(y, ww), self.pool.sext(re, ww))
                        } else {
                            (self.pool.zext(x, ww), self.pool.zext(y, ww), self.pool.zext(re, ww))
                        };
                        let o = match op {
                            BinOp::Add => Op::Add,
                            BinOp::Sub => Op::Sub,
                            _ => Op::Mul,
                        };
                        let full = self.pool.bin(o, xe, ye);
                        let eq = self.pool.eq(full, rr);
                        self.pool.not(eq)
                    }
                };
                let of = self.val(of);
                Ok(pair(r, of))
            }
            Sat(op, signed) => {
                let p = self.intrinsic(st, Overflow(op, signed), a, tys, ret)?;
                let (r, of) = match p {
                    Val::A(v) => (v[0].clone(), v[1].clone()),
                    _ => panic!(),
                };
                let (re, oe) = (self.ex(&r, w), self.ex(&of, 1));
                let lim = if !signed {
                    self.pool.cst(w, if op == BinOp::Add { mask(w) } else { 0 })
                } else {
                    let x = self.ex(&a[0], w);
                    let s = self.pool.extract(x, w - 1, 1);
                    let mn = self.pool.cst(w, 1u128 << (w - 1));
                    let mx = self.pool.cst(w, mask(w) >> 1);
                    self.pool.ite(s, mn, mx)
                };
                let r = self.pool.ite(oe, lim, re);
                Ok(self.val(r))
            }
            Cmp3(signed) => {
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, &a[0], &a[1], w);
                let eq = self.icmp(Pred::Eq, &a[0], &a[1], w);
                let (lt, eq) = (self.ex(&lt, 1), self.ex(&eq, 1));
                let (m1, z, o) = (self.pool.cst(rw, mask(rw)), self.pool.cst(rw, 0), self.pool.cst(rw, 1));
                let r = self.pool.ite(eq, z, o);
                let r = self.pool.ite(lt, m1, r);
                Ok(self.val(r))
            }
            FSat(signed) => {
                let e = self.ex(&a[0], w);
                let r = self.pool.fun(if signed { Op::FpToSi } else { Op::FpToUi }, e, rw, 0);
                Ok(self.val(r))
            }
            FUn(name) => {
                let e = self.ex(&a[0], w);
                let r = match name {
                    "fabs" => {
                        let m = self.pool.cst(w, mask(w) >> 1);
                        self.pool.bin(Op::And, e, m)
                    }
                    "floor" => self.pool.fun(Op::FRound, e, w, 0),
                    "ceil" => self.pool.fun(Op::FRound, e, w, 1),
                    "trunc" => self.pool.fun(Op::FRound, e, w, 2),
                    "round" => self.pool.fun(Op::FRound, e, w, 3),
                    "rint" => self.pool.fun(Op::FRound, e, w, 4),
                    "sqrt" => self.pool.fun(Op::FSqrt, e, w, 0),
                    _ => match (self.pool.as_const(e), w) {
                        (Some(x), 64) => {
                            let f = f64::from_bits(x as u64);
                            let r = match name {
                                "sin" => f.sin(),
                                "cos" => f.cos(),
                                "tan" => f.tan(),
                                "asin" => f.asin(),
                                "acos" => f.acos(),
                                "atan" => f.atan(),
                                "sinh" => f.sinh(),
                                "cosh" => f.cosh(),
                                "tanh" => f.tanh(),
                                "asinh" => f.asinh(),
                                "acosh" => f.acosh(),
                                "atanh" => f.atanh(),
                                "cbrt" => f.cbrt(),
                                "log1p" => f.ln_1p(),
                                "expm1" => f.exp_m1(),
                                "exp" => f.exp(),
                                "exp2" => f.exp2(),
                                "log" => f.ln(),
                                "log2" => f.log2(),
                                "log10" => f.log10(),
                                _ => return inc(format!("float function {}", name)),
                            };
                            self.pool.cst(64, r.to_bits() as u128)
                        }
                        _ => self.pool.uf(name, vec![e], w),
                    },
                };
                Ok(self.val(r))
            }
            FBin(name) => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                if name == "copysign" {
                    let m = self.pool.cst(w, mask(w) >> 1);
                    let s = self.pool.cst(w, 1u128 << (w - 1));
                    let p = self.pool.bin(Op::And, x, m);
                    let q = self.pool.bin(Op::And, y, s);
                    let r = self.pool.bin(Op::Or, p, q);
                    return Ok(self.val(r));
                }
                let r = match (self.pool.as_const(x), self.pool.as_const(y), w) {
                    (Some(p), Some(q), 64) => {
                        let (p, q) = (f64::from_bits(p as u64), f64::from_bits(q as u64));
                        let r = match name {
                            "pow" => p.powf(q),
                            "atan2" => p.atan2(q),
                            "hypot" => p.hypot(q),
                            "fmod" => p % q,
                            "fmin" => p.min(q),
                            "fmax" => p.max(q),
                            _ => return inc(name),
                        };
                        self.pool.cst(64, r.to_bits() as u128)
                    }
                    _ => self.pool.uf(name, vec![x, y], w),
                };
                Ok(self.val(r))
            }
            Alloc | AllocZ | Malloc => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 30 {
                    return Ok(Val::I(0));
                }
                let p = self.alloc(st, n);
                Ok(Val::I(p))
            }
            Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                let p = self.alloc(st, n * m);
                Ok(Val::I(p))
            }
            Dealloc => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    let id = (p >> ADDR_SHIFT) as u32;
                    if id < HEAP_BASE || id >= STACK_BASE || st.heap.get(id).is_none() || p & 0xffff_ffff != 0 {
                        return Err(Stop::End(Outcome::Fail(format!("memory error: free of {:#x}", p))));
                    }
                    st.heap.remove(id);
                }
                Ok(Val::I(0))
            }
            Realloc | CRealloc => {
                // __rust_realloc(ptr, old, align, new) / realloc(ptr, new)
                let n = self.conc(st, if matches!(i, Realloc) { &a[3] } else { &a[1] })?;
                let p = self.conc(st, &a[0])?;
                if n > 1 << 30 {
                    return Ok(Val::I(0));
                }
                if p == 0 {
                    let q = self.alloc(st, n);
                    return Ok(Val::I(q));
                }
                let id = (p >> ADDR_SHIFT) as u32;
                let old = match st.heap.get(id) {
                    Some(o) if p & 0xffff_ffff == 0 => o.clone(),
                    _ => return Err(Stop::End(Outcome::Fail("memory error: realloc of a bad pointer".into()))),
                };
                let mut o: Obj = (*old).clone();
                o.data.resize(n as usize, 0);
                if let Some(s) = &mut o.sym {
                    s.resize(n as usize, 0);
                }
                st.heap.remove(id);
                let q = self.alloc(st, 0);
                st.heap.put((q >> ADDR_SHIFT) as u32, o);
                Ok(Val::I(q))
            }
            Bcmp | Memcmp => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if matches!(i, Bcmp) {
                    let mut r = self.pool.cst(1, 1);
                    for (s, t) in x.iter().zip(&y) {
                        let e = self.pool.eq(*s, *t);
                        r = self.pool.and(r, e);
                        if self.pool.as_const(r) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.pool.not(r);
                    let r = self.pool.zext(ne, 32);
                    return Ok(self.val(r));
                }
                let z = self.pool.cst(32, 0);
                let mut r = z;
                let (neg, pos) = (self.pool.cst(32, 0xffff_ffff), self.pool.cst(32, 1));
                for (s, t) in x.iter().zip(&y).rev() {
                    let eq = self.pool.eq(*s, *t);
                    let lt = self.pool.bin(Op::Ult, *s, *t);
                    let d = self.pool.ite(lt, neg, pos);
                    r = self.pool.ite(eq, r, d);
                }
                Ok(self.val(r))
            }
            Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_c(st, p + n, 8)?;
                    match b {
                        Val::I(0) => return Ok(Val::I(n)),
                        Val::I(_) => {}
                        v => {
                            let c = self.icmp(Pred::Eq, &v, &Val::I(0), 8);
                            let c = self.ex(&c, 1);
                            if self.decide(st, c)? {
                                return Ok(Val::I(n));
                            }
                        }
                    }
                    n += 1;
                }
            }
            PanicFn => {
                // the source location is the last pointer argument when there is one
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let Val::I(p) = v {
                        if let Some(s) = self.location(st, *p) {
                            loc = s;
                            break;
                        }
                    }
                }
                Err(Stop::End(Outcome::Panic(format!("panic at {}", loc))))
            }
            AllocFail => Err(Stop::End(Outcome::Panic("allocation failure / capacity overflow".into()))),
            Abort => Err(Stop::End(Outcome::Panic("abort".into()))),
            Exit => {
                let c = self.conc(st, &a[0])?;
                Err(Stop::End(Outcome::Exit(c as i32 as i64)))
            }
            SvBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let name = self.str_arg(st, &a[2], &a[3])?;
                if n > 0 {
                    self.check_range(st, p, n, "sv_bytes")?;
                }
                let mut es = vec![];
                for k in 0..n {
                    let e = self.new_var(st, &format!("{}[{}]", name, k), 8);
                    self.store_c(st, p + k, &Val::E(e), 8)?;
                    es.push(e);
                }
                Rc::make_mut(&mut st.inputs).push((name, InVal::Bytes(es)));
                Ok(Val::I(0))
            }
            SvWord(bits) => {
                let name = self.str_arg(st, &a[0], &a[1])?;
                let e = self.new_var(st, &name, bits);
                Rc::make_mut(&mut st.inputs).push((name, InVal::Word(e, bits)));
                let r = if rw > bits { self.pool.zext(e, rw) } else { e };
                Ok(self.val(r))
            }
            SvChoose => {
                let n = self.conc(st, &a[0])?;
                let name = self.str_arg(st, &a[1], &a[2])?;
                let v = match st.pending_choice.take() {
                    Some(v) => v,
                    None => {
                        if n == 0 {
                            return Err(Stop::End(Outcome::Assumed));
                        }
                        return Err(Stop::Fork((0..n).map(Alt::Choice).collect()));
                    }
                };
                Rc::make_mut(&mut st.inputs).push((name, InVal::Choice(v)));
                Ok(Val::I(v))
            }
            SvAssume => {
                let c = match &a[0] {
                    Val::I(x) => {
                        if x & 1 == 1 {
                            return Ok(Val::I(0));
                        }
                        return Err(Stop::End(Outcome::Assumed));
                    }
                    Val::E(e) => {
                        let w = self.pool.w(*e);
                        let z = self.pool.cst(w, 0);
                        let q = self.pool.eq(*e, z);
                        self.pool.not(q)
                    }
                    _ => panic!(),
                };
                // not a fork: only the satisfying side continues
                match self.decide(st, c) {
                    Ok(true) => Ok(Val::I(0)),
                    Ok(false) => Err(Stop::End(Outcome::Assumed)),
                    Err(Stop::Fork(mut alts)) => {
                        alts.truncate(1);
                        Err(Stop::Fork(alts))
                    }
                    Err(s) => Err(s),
                }
            }
            SvAssert => {
                let msg = self.str_arg(st, &a[1], &a[2])?;
                self.stats.asserts += 1;
                let c = match &a[0] {
                    Val::I(x) => {
                        if x & 1 == 1 {
                            self.stats.asserts_const += 1;
                            return Ok(Val::I(0));
                        }
                        return Err(Stop::End(Outcome::Fail(msg)));
                    }
                    Val::E(e) => {
                        let w = self.pool.w(*e);
                        let z = self.pool.cst(w, 0);
                        let q = self.pool.eq(*e, z);
                        self.pool.not(q)
                    }
                    _ => panic!(),
                };
                if let Some(k) = self.pool.as_const(c) {
                    if k == 1 {
                        self.stats.asserts_const += 1;
                        return Ok(Val::I(0));
                    }
                    return Err(Stop::End(Outcome::Fail(msg)));
                }
                // the verdict is always the solver's: is pc ∧ ¬assertion satisfiable?
                self.stats.asserts_smt += 1;
                let neg = self.pool.not(c);
                let (r, m) = self.sat_with(st, neg, true);
                match r {
                    Res::Unsat => {
                        Ok(Val::I(0))
                    }
                    Res::Sat => {
                        // report the failing side, go on with the passing one
                        let (r2, m2) = self.sat_with(st, c, true);
                        if r2 == Res::Sat {
                            return Err(Stop::Fork(vec![Alt::C(neg, m), Alt::C(c, m2)]));
                        }
                        st.model = m.unwrap();
                        st.pc.push(neg);
                        Err(Stop::End(Outcome::Fail(msg)))
                    }
                    Res::Unknown => inc(format!("solver: unknown (assertion {})", msg)),
                }
            }
            SvReach => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                *self.reached.entry(msg).or_insert(0) += 1;
                Ok(Val::I(0))
            }
            SvNote => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                if self.trace {
                    eprintln!("NOTE {}", msg);
                }
                Rc::make_mut(&mut st.notes).push(msg);
                Ok(Val::I(0))
            }
            SvIsSym => Ok(Val::I(1)),
            SvOpaque => {
                st.opaque = self.conc(st, &a[0])? & 1 == 1;
                Ok(Val::I(0))
            }
            SvThread => {
                // a new thread starts with fresh thread-local data, its end brings back its creator's
                if self.conc(st, &a[0])? & 1 == 1 {
                    let mut saved = vec![];
                    for i in 0..self.m.tls.len() {
                        let id = self.m.tls[i];
                        if st.globals.get(id).is_some() {
                            if let Some(o) = st.globals.slot(id).take() {
                                saved.push((id, o));
                            }
                        }
                    }
                    st.tls.push(Rc::new(saved));
                } else {
                    for i in 0..self.m.tls.len() {
                        let id = self.m.tls[i];
                        if st.globals.get(id).is_some() {
                            *st.globals.slot(id) = None;
                        }
                    }
                    if let Some(saved) = st.tls.pop() {
                        for (id, o) in saved.iter() {
                            *st.globals.slot(*id) = Some(o.clone());
                        }
                    }
                }
                Ok(Val::I(0))
            }
            SvConc => {
                let v = self.conc(st, &a[0])?;
                Ok(Val::I(v))
            }
            SvStdout | SvExpectPanic => Ok(Val::I(0)),
        }
    }
    fn location(&mut self, st: &State, p: u64) -> Option<String> {
        let id = (p >> ADDR_SHIFT) as u32;
        let len = self.obj(st, id)?.data.len();
        let off = (p & 0xffff_ffff) as usize;
        if off + 24 > len {
            return None;
        }
        let f = match self.load_c(st, p, 64) {
            Ok(Val::I(x)) => x,
            _ => return None,
        };
        let n = match self.load_c(st, p + 8, 64) {
            Ok(Val::I(x)) => x,
            _ => return None,
        };
        if n > 300 || n < 3 {
            return None;
        }
        let (l, c) = match (self.load_c(st, p + 16, 32), self.load_c(st, p + 20, 32)) {
            (Ok(Val::I(l)), Ok(Val::I(c))) => (l, c),
            _ => return None,
        };
        let b = self.read_conc(st, f, n).ok()?;
        let s = String::from_utf8(b).ok()?;
        if !s.contains(".rs") {
            return None;
        }
        Some(format!("{}:{}:{}", s, l, c))
    }

    pub fn external(&mut self, st: &mut State, name: &str, a: &[Val], _tys: &[TyId], ret: TyId) -> R<Val> {
        let rw = self.m.scalar_width(ret);
        let m1 = if rw >= 64 { !0u64 } else if rw == 0 { 0 } else { (1u64 << rw) - 1 };
        match name {
            "write" => {
                let n = self.conc(st, &a[2])?;
                let fd = self.conc(st, &a[0])?;
                let p = self.conc(st, &a[1])?;
                if fd == 1 || fd == 2 {
                    if self.trace {
                        let b = self.read_conc(st, p, n)?;
                        eprint!("{}", String::from_utf8_lossy(&b));
                    }
                }
                Ok(Val::I(n))
            }
            "writev" => {
                let k = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[1])?;
                let mut tot = 0;
                for i in 0..k {
                    let v = self.load_c(st, p + i * 16 + 8, 64)?;
                    let b = self.load_c(st, p + i * 16, 64)?;
                    let n = self.conc(st, &v)?;
                    if self.trace {
                        let b = self.conc(st, &b)?;
                        let b = self.read_conc(st, b, n)?;
                        eprint!("{}", String::from_utf8_lossy(&b));
                    }
                    tot += n;
                }
                Ok(Val::I(tot))
            }
            "posix_memalign" => {
                let n = self.conc(st, &a[2])?;
                let out = self.conc(st, &a[0])?;
                let p = self.alloc(st, n);
                self.store_c(st, out, &Val::I(p), 64)?;
                Ok(Val::I(0))
            }
            "__errno_location" => {
                // one word per path, allocated at first use under a fixed heap id
                let id = HEAP_BASE;
                if st.heap.get(id).is_none() {
                    st.heap.put(id, Obj::new(4));
                }
                Ok(Val::I((id as u64) << ADDR_SHIFT))
            }
            "getenv" => Ok(Val::I(0)),
            "isatty" => Ok(Val::I(0)),
            "ioctl" | "poll" | "tcgetattr" | "tcsetattr" | "open64" | "stat64" | "lstat64" | "statx" | "readlink" | "realpath" | "open" => {
                // nothing is there: ENOENT / ENOTTY
                let id = HEAP_BASE;
                if st.heap.get(id).is_none() {
                    st.heap.put(id, Obj::new(4));
                }
                let code = if name == "ioctl" || name.starts_with("tc") { 25 } else { 2 };
                self.store_c(st, (id as u64) << ADDR_SHIFT, &Val::I(code), 32)?;
                Ok(Val::I(if name == "realpath" { 0 } else { m1 }))
            }
            "syscall" => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    // getrandom
                    let n = self.conc(st, &a[2])?;
                    return Ok(Val::I(n));
                }
                Ok(Val::I(m1))
            }
            "getrandom" => {
                let n = self.conc(st, &a[1])?;
                Ok(Val::I(n))
            }
            "getpid" | "gettid" => Ok(Val::I(4242)),
            "getuid" | "sigemptyset" | "sigaddset" | "sigaction" | "signal" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock"
            | "pthread_mutex_unlock" | "pthread_atfork" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_join" | "pthread_detach" | "pthread_setname_np" | "dlsym" | "sched_yield" | "fflush" => Ok(Val::I(0)),
            "pthread_key_create" => {
                let p = self.conc(st, &a[0])?;
                self.store_c(st, p, &Val::I(7), 32)?;
                Ok(Val::I(0))
            }
            "sysconf" => Ok(Val::I(1024)),
            "clock_gettime" => {
                let p = self.conc(st, &a[1])?;
                self.store_c(st, p, &Val::I(1_700_000_000), 64)?;
                self.store_c(st, p + 8, &Val::I(0), 64)?;
                Ok(Val::I(0))
            }
            _ => inc(format!("external call {} from {}", name, self.where_(st))),
        }
    }
}
