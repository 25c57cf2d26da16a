//! Textual LLVM IR reader.  The module is indexed once; function bodies and
//! global initialisers are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::{ExprId, Pool};

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(ExprId),
    A(Rc<Vec<Val>>),
}

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    X86Fp80,
    Array(u64, TyId),
    Vector(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Metadata,
    Opaque,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opnd(pub u32); // high bit: constant index
const CBIT: u32 = 0x8000_0000;
impl Opnd {
    pub fn reg(r: u32) -> Opnd {
        Opnd(r)
    }
    pub fn cst(c: u32) -> Opnd {
        Opnd(c | CBIT)
    }
    #[inline]
    pub fn is_const(self) -> bool {
        self.0 & CBIT != 0
    }
    #[inline]
    pub fn idx(self) -> usize {
        (self.0 & !CBIT) as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastK { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee {
    Global(u32),
    Indirect(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, dst: u32, a: Opnd, b: Opnd, w: u16 },
    Icmp { p: Pred, dst: u32, a: Opnd, b: Opnd, w: u16 },
    Fcmp { p: FPred, dst: u32, a: Opnd, b: Opnd, w: u16 },
    Cast { k: CastK, dst: u32, a: Opnd, from: u16, to: u16 },
    Select { dst: u32, c: Opnd, a: Opnd, b: Opnd, w: u16 }, // w=0: aggregate
    VBin { op: BinOp, dst: u32, a: Opnd, b: Opnd, w: u16 },
    VIcmp { p: Pred, dst: u32, a: Opnd, b: Opnd, w: u16 },
    VCast { k: CastK, dst: u32, a: Opnd, from: TyId, to: TyId },
    VSelect { dst: u32, c: Opnd, a: Opnd, b: Opnd, w: u16, vc: bool },
    FNeg { dst: u32, a: Opnd, w: u16 },
    Copy { dst: u32, a: Opnd },
    Load { dst: u32, p: Opnd, ty: TyId, w: u16 }, // w>0 scalar width
    Store { p: Opnd, v: Opnd, ty: TyId, w: u16 },
    Gep { dst: u32, base: Opnd, off: i64, idx: Box<[(Opnd, u16, i64)]> },
    Alloca { dst: u32, size: u64, n: Option<Opnd> },
    Call { dst: u32, callee: Callee, args: Box<[Opnd]>, ret: TyId, normal: u32, argtys: Box<[TyId]> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { a: Opnd, w: u16, cases: Box<[(u64, u32)]>, def: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue { dst: u32, a: Opnd, path: Box<[u32]> },
    InsertValue { dst: u32, a: Opnd, v: Opnd, path: Box<[u32]> },
    ExtractElement { dst: u32, a: Opnd, i: Opnd },
    InsertElement { dst: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, mask: Box<[i64]> },
    Rmw { op: RmwOp, dst: u32, p: Opnd, v: Opnd, w: u16 },
    CmpXchg { dst: u32, p: Opnd, c: Opnd, n: Opnd, w: u16 },
    Fence,
    Bad(Box<str>),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub gid: u32,
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub consts: Vec<Val>,
    pub blocks: Vec<Block>,
    pub frame_bytes: u64,
}

#[derive(Clone, Debug)]
pub enum GKind {
    Func { body: Option<(usize, usize)>, header: usize }, // text offsets
    Var { ty_off: usize, constant: bool, external: bool },
    Alias { off: usize },
}
pub struct Global {
    pub name: Rc<str>,
    pub kind: GKind,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub globals: Vec<Global>,
    /// object ids of the thread-local globals
    pub tls: Vec<u32>,
    pub by_name: HashMap<Rc<str>, u32>,
    pub tys: Vec<Ty>,
    pub ty_ix: HashMap<Ty, TyId>,
    pub ty_size: Vec<(u64, u64)>, // (alloc size, align)
    pub named: HashMap<String, usize>, // text offset of body
    pub named_done: HashMap<String, TyId>,
}

pub const ADDR_SHIFT: u32 = 32;
pub fn gaddr(g: u32) -> u64 {
    ((g as u64) + 1) << ADDR_SHIFT
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.ty_ix.get(&t) {
            return i;
        }
        let s = self.compute_size(&t);
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.ty_size.push(s);
        self.ty_ix.insert(t, i);
        i
    }
    fn compute_size(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Float => (4, 4),
            Ty::X86Fp80 => (16, 16),
            Ty::Array(n, e) => {
                let (s, a) = self.ty_size[*e as usize];
                (s * n, a)
            }
            Ty::Vector(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64 * n,
                    _ => self.ty_size[*e as usize].0 * 8 * n,
                };
                let b = (bits + 7) / 8;
                let p = b.next_power_of_two().max(1);
                (p, p)
            }
            Ty::Struct(es, packed) => {
                let mut off = 0;
                let mut al = 1;
                for e in es {
                    let (s, a) = self.ty_size[*e as usize];
                    if !packed {
                        off = (off + a - 1) / a * a;
                        al = al.max(a);
                    }
                    off += s;
                }
                if !packed {
                    off = (off + al - 1) / al * al;
                }
                (off, al)
            }
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.ty_size[t as usize].0
    }
    pub fn scalar_width(&self, t: TyId) -> u16 {
        match self.tys[t as usize] {
            Ty::Int(w) => w as u16,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.size(*e) * i, *e),
            Ty::Struct(es, packed) => {
                let mut off = 0;
                for (k, e) in es.iter().enumerate() {
                    let (s, a) = self.ty_size[*e as usize];
                    if !packed {
                        off = (off + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (off, *e);
                    }
                    off += s;
                }
                panic!("field_off")
            }
            t => panic!("field_off on {:?}", t),
        }
    }

    pub fn load(text: Vec<u8>) -> Module {
        let mut m = Module {
            text: Rc::new(text),
            globals: vec![],
            tls: vec![],
            by_name: HashMap::new(),
            tys: vec![],
            ty_ix: HashMap::new(),
            ty_size: vec![],
            named: HashMap::new(),
            named_done: HashMap::new(),
        };
        let text = m.text.clone();
        let n = text.len();
        let mut i = 0;
        let eol = |mut j: usize| {
            while j < n && text[j] != b'\n' {
                j += 1
            }
            j
        };
        while i < n {
            let e = eol(i);
            let line = &text[i..e];
            if line.starts_with(b"@") {
                let mut p = P::new(&text, i + 1);
                let name = p.name();
                p.ws();
                p.expect(b'=');
                // attributes until global/constant/alias
                let (mut external, mut tls) = (false, false);
                loop {
                    p.ws();
                    let w = p.word();
                    match w.as_str() {
                        "global" | "constant" => {
                            m.add(name, GKind::Var { ty_off: p.i, constant: w == "constant", external });
                            if tls {
                                m.tls.push(m.globals.len() as u32);
                            }
                            break;
                        }
                        "alias" => {
                            m.add(name, GKind::Alias { off: p.i });
                            break;
                        }
                        "thread_local" => tls = true,
                        "external" | "extern_weak" => external = true,
                        "" => panic!("bad global line {}", String::from_utf8_lossy(line)),
                        _ => p.opt_parens(),
                    }
                }
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                // find the @ that precedes '(' : attributes before the name never contain '@'
                let mut p = P::new(&text, i + at + 1);
                let name = p.name();
                if line.starts_with(b"define") {
                    // body until a line that is exactly "}"
                    let mut j = e + 1;
                    let bstart = j;
                    loop {
                        let f = eol(j);
                        if f - j == 1 && text[j] == b'}' {
                            break;
                        }
                        j = f + 1;
                    }
                    m.add(name, GKind::Func { body: Some((bstart, j)), header: p.i });
                    i = j + 2;
                    continue;
                } else {
                    m.add(name, GKind::Func { body: None, header: p.i });
                }
            } else if line.starts_with(b"%") {
                let mut p = P::new(&text, i + 1);
                let name = p.name();
                p.ws();
                p.expect(b'=');
                p.ws();
                let w = p.word();
                assert_eq!(w, "type");
                m.named.insert(name, p.i);
            }
            i = e + 1;
        }
        m
    }
    fn add(&mut self, name: String, kind: GKind) {
        let rc: Rc<str> = name.into();
        let id = self.globals.len() as u32;
        self.by_name.insert(rc.clone(), id);
        self.globals.push(Global { name: rc, kind });
    }
    pub fn add_extern(&mut self, name: &str) -> u32 {
        if let Some(&g) = self.by_name.get(name) {
            return g;
        }
        self.add(name.to_string(), GKind::Func { body: None, header: 0 });
        self.globals.len() as u32 - 1
    }

    /// initial bytes of a global variable
    pub fn global_init(&mut self, g: u32, pool: &mut Pool) -> (Vec<u8>, bool) {
        let (off, constant, external) = match self.globals[g as usize].kind {
            GKind::Var { ty_off, constant, external } => (ty_off, constant, external),
            _ => panic!("global_init"),
        };
        let text = self.text.clone();
        let mut p = P::new(&text, off);
        let t = p.ty(self);
        let sz = self.size(t);
        let mut out = vec![0u8; sz as usize];
        if !external {
            p.const_into(self, pool, t, &mut out);
        }
        (out, constant)
    }
    pub fn resolve_alias(&mut self, g: u32) -> u32 {
        if let GKind::Alias { off } = self.globals[g as usize].kind {
            let text = self.text.clone();
            let mut p = P::new(&text, off);
            p.ty(self);
            p.ws();
            p.expect(b',');
            let t = p.ty(self);
            let _ = t;
            p.ws();
            if p.peek() == b'@' {
                p.i += 1;
                let n = p.name();
                let k = self.by_name[n.as_str()];
                return self.resolve_alias(k);
            }
            panic!("alias target");
        }
        g
    }

    pub fn parse_func(&mut self, g: u32, pool: &mut Pool) -> Func {
        let (body, header) = match self.globals[g as usize].kind {
            GKind::Func { body: Some(b), header } => (b, header),
            _ => panic!("no body"),
        };
        let text = self.text.clone();
        let mut fp = FP {
            regs: HashMap::new(),
            blocks: HashMap::new(),
            consts: vec![],
            cmap: HashMap::new(),
            nregs: 0,
            blist: vec![],
        };
        let mut p = P::new(&text, header);
        p.ws();
        p.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        loop {
            p.ws();
            if p.peek() == b')' {
                break;
            }
            if p.starts("...") {
                p.i += 3;
                continue;
            }
            let _t = p.ty(self);
            p.skip_attrs();
            p.ws();
            let nm = if p.peek() == b'%' {
                p.i += 1;
                p.name()
            } else {
                let s = unnamed.to_string();
                s
            };
            unnamed += 1;
            params.push(fp.reg(&nm));
            p.ws();
            if p.peek() == b',' {
                p.i += 1;
            }
        }
        let nparams = params.len() as u32;
        let mut p = P::new(&text, body.0);
        let end = body.1;
        let mut cur: Option<usize> = None;
        let mut blocks: Vec<Block> = vec![];
        let mut defined: Vec<(u32, usize)> = vec![];
        let mut frame_bytes = 0u64;
        loop {
            p.ws_nl();
            if p.i >= end {
                break;
            }
            // label?
            if let Some(lbl) = p.try_label() {
                let b = fp.block(&lbl);
                blocks.push(Block { phis: vec![], ins: vec![] });
                defined.push((b, blocks.len() - 1));
                cur = Some(blocks.len() - 1);
                continue;
            }
            if cur.is_none() {
                // implicit entry label is the next unnamed number
                let b = fp.block(&nparams.to_string());
                blocks.push(Block { phis: vec![], ins: vec![] });
                defined.push((b, 0));
                cur = Some(0);
            }
            let start = p.i;
            let c = cur.unwrap();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                p.instr(self, pool, &mut fp, &mut blocks[c], &mut frame_bytes)
            }));
            if res.is_err() {
                let mut q = start;
                while q < end && text[q] != b'\n' {
                    q += 1
                }
                eprintln!("IR parse failure in {}: {}", self.globals[g as usize].name, String::from_utf8_lossy(&text[start..q]));
                std::process::exit(3);
            }
            p.skip_line();
        }
        // order blocks by number
        let nb = fp.blist.len();
        let mut slots: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
        let mut blocks: Vec<Option<Block>> = blocks.into_iter().map(Some).collect();
        for (b, pos) in defined {
            slots[b as usize] = blocks[pos].take();
        }
        let entry_first = slots
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unreachable] }))
            .collect::<Vec<_>>();
        let name = self.globals[g as usize].name.clone();
        Func { gid: g, name, params, nregs: fp.nregs, consts: fp.consts, blocks: entry_first, frame_bytes: frame_bytes + 64 }
    }
}

pub struct FP {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    consts: Vec<Val>,
    cmap: HashMap<u64, u32>,
    nregs: u32,
    blist: Vec<String>,
}
impl FP {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blist.len() as u32;
        self.blist.push(n.to_string());
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn cst(&mut self, v: Val) -> Opnd {
        if let Val::I(x) = v {
            if let Some(&c) = self.cmap.get(&x) {
                return Opnd::cst(c);
            }
            self.cmap.insert(x, self.consts.len() as u32);
        }
        self.consts.push(v);
        Opnd::cst(self.consts.len() as u32 - 1)
    }
}

struct P<'a> {
    t: &'a [u8],
    i: usize,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(t: &'a [u8], i: usize) -> Self {
        P { t, i }
    }
    #[inline]
    fn peek(&self) -> u8 {
        if self.i < self.t.len() {
            self.t[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        while self.peek() == b' ' || self.peek() == b'\t' || self.peek() == b'\n' {
            self.i += 1
        }
    }
    fn ws_nl(&mut self) {
        loop {
            self.ws();
            if self.peek() == b';' {
                self.skip_line();
            } else {
                break;
            }
        }
    }
    fn skip_line(&mut self) {
        while self.i < self.t.len() && self.peek() != b'\n' {
            self.i += 1
        }
        self.i += 1;
    }
    fn starts(&self, s: &str) -> bool {
        self.t[self.i..].starts_with(s.as_bytes())
    }
    fn expect(&mut self, c: u8) {
        if self.peek() != c {
            let e = (self.i + 60).min(self.t.len());
            panic!("expected {:?} at {:?}", c as char, String::from_utf8_lossy(&self.t[self.i..e]));
        }
        self.i += 1;
    }
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.i += 1;
            let s = self.i;
            while self.peek() != b'"' {
                self.i += 1
            }
            let r = String::from_utf8_lossy(&self.t[s..self.i]).to_string();
            self.i += 1;
            return r;
        }
        let s = self.i;
        while is_name(self.peek()) {
            self.i += 1
        }
        String::from_utf8_lossy(&self.t[s..self.i]).to_string()
    }
    fn word(&mut self) -> String {
        self.ws();
        let s = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'.' {
            self.i += 1
        }
        String::from_utf8_lossy(&self.t[s..self.i]).to_string()
    }
    fn peek_word(&mut self) -> String {
        self.ws();
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn accept(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn opt_parens(&mut self) {
        if self.peek() == b'(' {
            self.parens();
        }
    }
    fn parens(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1
                    }
                }
                0 => panic!("parens"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.peek() == b'-';
        if neg {
            self.i += 1
        }
        let mut v: u128 = 0;
        assert!(self.peek().is_ascii_digit(), "int expected");
        while self.peek().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128);
            self.i += 1
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn try_label(&mut self) -> Option<String> {
        let s = self.i;
        if self.peek() == b'"' {
            let n = self.name();
            if self.peek() == b':' {
                self.skip_line();
                return Some(n);
            }
        } else if is_name(self.peek()) {
            let n = self.name();
            if self.peek() == b':' {
                self.skip_line();
                return Some(n);
            }
        }
        self.i = s;
        None
    }
    fn ty(&mut self, m: &mut Module) -> TyId {
        self.ws();
        let t = match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                self.ws();
                assert_eq!(self.word(), "x");
                let e = self.ty(m);
                self.ws();
                self.expect(b']');
                m.ty(Ty::Array(n, e))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    let t = self.structty(m, true);
                    self.ws();
                    self.expect(b'>');
                    t
                } else {
                    let n = self.int() as u64;
                    self.ws();
                    assert_eq!(self.word(), "x");
                    let e = self.ty(m);
                    self.ws();
                    self.expect(b'>');
                    m.ty(Ty::Vector(n, e))
                }
            }
            b'{' => self.structty(m, false),
            b'%' => {
                self.i += 1;
                let n = self.name();
                if let Some(&t) = m.named_done.get(&n) {
                    return t;
                }
                let off = *m.named.get(&n).expect("named type");
                let text = m.text.clone();
                let mut q = P::new(&text, off);
                let t = q.ty(m);
                m.named_done.insert(n, t);
                t
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => m.ty(Ty::Void),
                    "ptr" => {
                        if self.starts(" addrspace") {
                            self.ws();
                            self.word();
                            self.parens();
                        }
                        m.ty(Ty::Ptr)
                    }
                    "float" => m.ty(Ty::Float),
                    "double" => m.ty(Ty::Double),
                    "x86_fp80" => m.ty(Ty::X86Fp80),
                    "label" => m.ty(Ty::Label),
                    "metadata" => m.ty(Ty::Metadata),
                    "opaque" | "token" => m.ty(Ty::Opaque),
                    s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => m.ty(Ty::Int(s[1..].parse().unwrap())),
                    "half" | "bfloat" => m.ty(Ty::Int(16)),
                    "fp128" => m.ty(Ty::Int(128)),
                    s => panic!("type {:?}", s),
                }
            }
        };
        t
    }
    fn structty(&mut self, m: &mut Module, packed: bool) -> TyId {
        self.expect(b'{');
        let mut es = vec![];
        loop {
            self.ws();
            if self.peek() == b'}' {
                self.i += 1;
                break;
            }
            es.push(self.ty(m));
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
            }
        }
        m.ty(Ty::Struct(es, packed))
    }
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                // string attribute "x"="y"
                self.name();
                if self.peek() == b'=' {
                    self.i += 1;
                    self.name();
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let s = self.i;
            let w = self.word();
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "add" | "sub" | "xor" | "c"
                | "splat" | "asm" | "blockaddress" | "ptrtoaddr" | "addrspacecast" | "nan" | "inf" => {
                    self.i = s;
                    return;
                }
                "align" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.parens();
                    } else {
                        self.int();
                    }
                }
                _ => self.opt_parens(),
            }
        }
    }
    fn mask(w: u32, v: u128) -> u128 {
        if w >= 128 {
            v
        } else {
            v & ((1u128 << w) - 1)
        }
    }
    fn mkint(pool: &mut Pool, w: u32, v: u128) -> Val {
        let v = Self::mask(w, v);
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::E(pool.cst(w as u16, v))
        }
    }
    fn zero(&self, m: &Module, pool: &mut Pool, t: TyId) -> Val {
        match &m.tys[t as usize] {
            Ty::Int(w) => Self::mkint(pool, *w, 0),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(m, pool, *e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(es, _) => {
                let v = es.iter().map(|e| self.zero(m, pool, *e)).collect();
                Val::A(Rc::new(v))
            }
            Ty::X86Fp80 => Val::I(0),
            _ => Val::I(0),
        }
    }
    /// constant of the given type (value syntax without its type)
    fn constant(&mut self, m: &mut Module, pool: &mut Pool, t: TyId) -> Val {
        self.ws();
        let c = self.peek();
        if c == b'@' {
            self.i += 1;
            let n = self.name();
            let g = match m.by_name.get(n.as_str()) {
                Some(&g) => g,
                None => panic!("unknown global {}", n),
            };
            let g = m.resolve_alias(g);
            return Val::I(gaddr(g));
        }
        if c == b'-' || c.is_ascii_digit() || c == b'+' {
            match m.tys[t as usize].clone() {
                Ty::Double | Ty::Float | Ty::X86Fp80 => {
                    let f;
                    if self.starts("+inf") || self.starts("-inf") || self.starts("+qnan") || self.starts("-qnan") || self.starts("+nan") || self.starts("-nan") {
                        let neg = self.peek() == b'-';
                        self.i += 1;
                        let inf = self.peek() == b'i';
                        while self.peek().is_ascii_alphabetic() {
                            self.i += 1
                        }
                        let v = if inf { f64::INFINITY } else { f64::NAN };
                        f = if neg { -v } else { v };
                    } else if self.starts("0x") {
                        self.i += 2;
                        let s = self.i;
                        while self.peek().is_ascii_alphanumeric() {
                            self.i += 1
                        }
                        let h = std::str::from_utf8(&self.t[s..self.i]).unwrap();
                        let h = h.trim_start_matches(['K', 'L', 'M', 'H', 'R']);
                        f = f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0));
                    } else {
                        let s = self.i;
                        while matches!(self.peek(), b'0'..=b'9' | b'.' | b'e' | b'E' | b'+' | b'-') {
                            self.i += 1
                        }
                        f = std::str::from_utf8(&self.t[s..self.i]).unwrap().parse().unwrap();
                    }
                    return match m.tys[t as usize] {
                        Ty::Float => Val::I((f as f32).to_bits() as u64),
                        _ => Val::I(f.to_bits()),
                    };
                }
                Ty::Int(w) => {
                    let v = self.int();
                    return Self::mkint(pool, w, v as u128);
                }
                _ => {
                    let v = self.int();
                    return Val::I(v as u64);
                }
            }
        }
        if c == b'{' || c == b'[' || c == b'<' {
            let close = match c {
                b'{' => b'}',
                b'[' => b']',
                _ => b'>',
            };
            self.i += 1;
            let mut packed = false;
            self.ws();
            if c == b'<' && self.peek() == b'{' {
                self.i += 1;
                packed = true;
            }
            let mut v = vec![];
            loop {
                self.ws();
                if self.peek() == close || (packed && self.peek() == b'}') {
                    self.i += 1;
                    if packed {
                        self.expect(b'>');
                    }
                    break;
                }
                let et = self.ty(m);
                v.push(self.constant(m, pool, et));
                self.ws();
                if self.peek() == b',' {
                    self.i += 1
                }
            }
            return Val::A(Rc::new(v));
        }
        if c == b'c' && self.i + 1 < self.t.len() && self.t[self.i + 1] == b'"' {
            let b = self.cstring();
            return Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()));
        }
        let w = self.word();
        match w.as_str() {
            "true" => Val::I(1),
            "false" => Val::I(0),
            "null" | "none" => Val::I(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(m, pool, t),
            "nan" | "inf" => panic!("float const"),
            "splat" => {
                self.ws();
                self.expect(b'(');
                let et = self.ty(m);
                let v = self.constant(m, pool, et);
                self.ws();
                self.expect(b')');
                let n = match m.tys[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!("splat"),
                };
                Val::A(Rc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    let w = self.word();
                    if w == "inrange" {
                        self.opt_parens();
                    }
                    assert!(!w.is_empty());
                }
                self.expect(b'(');
                let st = self.ty(m);
                self.ws();
                self.expect(b',');
                let pt = self.ty(m);
                let base = match self.constant(m, pool, pt) {
                    Val::I(x) => x,
                    _ => panic!(),
                };
                let mut off: i64 = 0;
                let mut curt = st;
                let mut first = true;
                loop {
                    self.ws();
                    if self.peek() == b')' {
                        self.i += 1;
                        break;
                    }
                    self.expect(b',');
                    let it = self.ty(m);
                    let iv = match self.constant(m, pool, it) {
                        Val::I(x) => x,
                        _ => panic!(),
                    };
                    let iw = m.scalar_width(it);
                    let iv = sext64(iv, iw);
                    if first {
                        off += iv * m.size(curt) as i64;
                        first = false;
                    } else {
                        match m.tys[curt as usize] {
                            Ty::Struct(..) => {
                                let (o, t) = m.field_off(curt, iv as u64);
                                off += o as i64;
                                curt = t;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                off += iv * m.size(e) as i64;
                                curt = e;
                            }
                            _ => panic!(),
                        }
                    }
                }
                Val::I(base.wrapping_add(off as u64))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                self.ws();
                self.expect(b'(');
                let st = self.ty(m);
                let v = self.constant(m, pool, st);
                assert_eq!(self.word(), "to");
                let tt = self.ty(m);
                self.ws();
                self.expect(b')');
                let w = m.scalar_width(tt) as u32;
                match v {
                    Val::I(x) => Self::mkint(pool, w, x as u128),
                    Val::E(e) => {
                        let x = pool.as_const(e).unwrap();
                        Self::mkint(pool, w, x)
                    }
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "mul" => {
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    self.word();
                }
                self.expect(b'(');
                let at = self.ty(m);
                let a = self.constant(m, pool, at);
                self.ws();
                self.expect(b',');
                let bt = self.ty(m);
                let b = self.constant(m, pool, bt);
                self.ws();
                self.expect(b')');
                match (a, b) {
                    (Val::I(a), Val::I(b)) => {
                        let r = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        let w = m.scalar_width(at) as u32;
                        Self::mkint(pool, w, r as u128)
                    }
                    _ => panic!("const arith"),
                }
            }
            _ if w.starts_with("f0x") => {
                let x = u128::from_str_radix(&w[3..], 16).unwrap();
                let sw = m.scalar_width(t) as u32;
                Self::mkint(pool, sw, x)
            }
            _ => {
                let e = (self.i + 60).min(self.t.len());
                panic!("constant {:?} {:?}", w, String::from_utf8_lossy(&self.t[self.i..e]))
            }
        }
    }
    fn cstring(&mut self) -> Vec<u8> {
        self.expect(b'c');
        self.expect(b'"');
        let mut out = vec![];
        loop {
            let c = self.peek();
            self.i += 1;
            match c {
                b'"' => return out,
                b'\\' => {
                    if self.peek() == b'\\' {
                        out.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = std::str::from_utf8(&self.t[self.i..self.i + 2]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 2;
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn const_into(&mut self, m: &mut Module, pool: &mut Pool, t: TyId, out: &mut [u8]) {
        self.ws();
        if self.peek() == b'c' && self.t[self.i + 1] == b'"' {
            let b = self.cstring();
            out[..b.len()].copy_from_slice(&b);
            return;
        }
        let v = self.constant(m, pool, t);
        put_const(m, pool, t, &v, out);
    }
    fn operand(&mut self, m: &mut Module, pool: &mut Pool, fp: &mut FP, t: TyId) -> Opnd {
        self.ws();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return Opnd::reg(fp.reg(&n));
        }
        let v = self.constant(m, pool, t);
        fp.cst(v)
    }
    fn comma(&mut self) {
        self.ws();
        self.expect(b',');
    }
    fn label(&mut self, fp: &mut FP) -> u32 {
        self.ws();
        assert_eq!(self.word(), "label");
        self.ws();
        self.expect(b'%');
        let n = self.name();
        fp.block(&n)
    }
    fn flags(&mut self, fl: &[&str]) {
        loop {
            let w = self.peek_word();
            if fl.contains(&w.as_str()) {
                self.word();
                self.opt_parens_if(&w);
            } else {
                break;
            }
        }
    }
    fn opt_parens_if(&mut self, _w: &str) {
        if self.peek() == b'(' {
            self.parens();
        }
    }

    fn instr(&mut self, m: &mut Module, pool: &mut Pool, fp: &mut FP, blk: &mut Block, frame: &mut u64) {
        let mut dst = u32::MAX;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = fp.reg(&n);
            self.ws();
            self.expect(b'=');
            self.ws();
        }
        let mut w = self.word();
        while w == "tail" || w == "musttail" || w == "notail" {
            w = self.word();
        }
        const FMF: &[&str] = &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        let binop = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = binop {
            self.flags(&["nuw", "nsw", "exact", "disjoint"]);
            self.flags(FMF);
            let t = self.ty(m);
            let a = self.operand(m, pool, fp, t);
            self.comma();
            let b = self.operand(m, pool, fp, t);
            if let Ty::Vector(_, e) = m.tys[t as usize] {
                let w = m.scalar_width(e);
                blk.ins.push(Ins::VBin { op, dst, a, b, w });
            } else {
                blk.ins.push(Ins::Bin { op, dst, a, b, w: m.scalar_width(t) });
            }
            return;
        }
        let cast = match w.as_str() {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt),
            "inttoptr" => Some(CastK::IntToPtr),
            "bitcast" => Some(CastK::BitCast),
            "fptosi" => Some(CastK::FpToSi),
            "fptoui" => Some(CastK::FpToUi),
            "sitofp" => Some(CastK::SiToFp),
            "uitofp" => Some(CastK::UiToFp),
            "fpext" => Some(CastK::FpExt),
            "fptrunc" => Some(CastK::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            self.flags(&["nuw", "nsw", "nneg"]);
            self.flags(FMF);
            let t = self.ty(m);
            let a = self.operand(m, pool, fp, t);
            assert_eq!(self.word(), "to");
            let t2 = self.ty(m);
            let (f, to) = (m.scalar_width(t), m.scalar_width(t2));
            if f == 0 || to == 0 {
                blk.ins.push(Ins::VCast { k, dst, a, from: t, to: t2 });
            } else {
                blk.ins.push(Ins::Cast { k, dst, a, from: f, to });
            }
            return;
        }
        match w.as_str() {
            "icmp" => {
                self.flags(&["samesign"]);
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    s => panic!("icmp {}", s),
                };
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let b = self.operand(m, pool, fp, t);
                if let Ty::Vector(_, e) = m.tys[t as usize] {
                    blk.ins.push(Ins::VIcmp { p, dst, a, b, w: m.scalar_width(e) });
                } else {
                    blk.ins.push(Ins::Icmp { p, dst, a, b, w: m.scalar_width(t) });
                }
            }
            "fcmp" => {
                self.flags(FMF);
                let p = match self.word().as_str() {
                    "false" => FPred::False,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    "true" => FPred::True,
                    s => panic!("fcmp {}", s),
                };
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let b = self.operand(m, pool, fp, t);
                blk.ins.push(Ins::Fcmp { p, dst, a, b, w: m.scalar_width(t) });
            }
            "fneg" => {
                self.flags(FMF);
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                blk.ins.push(Ins::FNeg { dst, a, w: m.scalar_width(t) });
            }
            "select" => {
                self.flags(FMF);
                let ct = self.ty(m);
                let c = self.operand(m, pool, fp, ct);
                self.comma();
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let t2 = self.ty(m);
                let b = self.operand(m, pool, fp, t2);
                if let Ty::Vector(_, e) = m.tys[t as usize] {
                    let vc = matches!(m.tys[ct as usize], Ty::Vector(..));
                    blk.ins.push(Ins::VSelect { dst, c, a, b, w: m.scalar_width(e), vc });
                } else {
                    blk.ins.push(Ins::Select { dst, c, a, b, w: m.scalar_width(t) });
                }
            }
            "freeze" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                blk.ins.push(Ins::Copy { dst, a });
            }
            "phi" => {
                self.flags(FMF);
                let t = self.ty(m);
                let mut inc = vec![];
                loop {
                    self.ws();
                    self.expect(b'[');
                    let v = self.operand(m, pool, fp, t);
                    self.comma();
                    self.ws();
                    self.expect(b'%');
                    let n = self.name();
                    let b = fp.block(&n);
                    self.ws();
                    self.expect(b']');
                    inc.push((b, v));
                    // another?
                    if self.peek() == b',' && self.t[self.i + 1] == b' ' && self.t[self.i + 2] == b'[' {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                blk.phis.push((dst, inc));
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.ty(m);
                self.comma();
                let pt = self.ty(m);
                let p = self.operand(m, pool, fp, pt);
                blk.ins.push(Ins::Load { dst, p, ty: t, w: m.scalar_width(t) });
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.ty(m);
                let v = self.operand(m, pool, fp, t);
                self.comma();
                let pt = self.ty(m);
                let p = self.operand(m, pool, fp, pt);
                blk.ins.push(Ins::Store { p, v, ty: t, w: m.scalar_width(t) });
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw", "nsw"]);
                let st = self.ty(m);
                self.comma();
                let pt = self.ty(m);
                let base = self.operand(m, pool, fp, pt);
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut curt = st;
                let mut first = true;
                loop {
                    self.ws_inline();
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.ws();
                    if self.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(m);
                    let iv = self.operand(m, pool, fp, it);
                    let iw = m.scalar_width(it);
                    let cv = if iv.is_const() {
                        match fp.consts[iv.idx()] {
                            Val::I(x) => Some(sext64(x, iw)),
                            _ => panic!(),
                        }
                    } else {
                        None
                    };
                    let scale;
                    if first {
                        scale = m.size(curt) as i64;
                        first = false;
                    } else {
                        match m.tys[curt as usize] {
                            Ty::Struct(..) => {
                                let (o, t) = m.field_off(curt, cv.unwrap() as u64);
                                off += o as i64;
                                curt = t;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = m.size(e) as i64;
                                curt = e;
                            }
                            _ => panic!(),
                        }
                    }
                    if let Some(c) = cv {
                        off = off.wrapping_add(c.wrapping_mul(scale));
                    } else {
                        idx.push((iv, iw, scale));
                    }
                }
                blk.ins.push(Ins::Gep { dst, base, off, idx: idx.into() });
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.ty(m);
                let mut n = None;
                self.ws_inline();
                if self.peek() == b',' {
                    let s = self.i;
                    self.i += 1;
                    self.ws();
                    if !self.starts("align") && self.peek() != b'!' && !self.starts("addrspace") {
                        let nt = self.ty(m);
                        n = Some(self.operand(m, pool, fp, nt));
                    } else {
                        self.i = s;
                    }
                }
                *frame += m.size(t);
                blk.ins.push(Ins::Alloca { dst, size: m.size(t), n });
            }
            "call" | "invoke" => {
                self.flags(FMF);
                // calling convention and return attributes, then type
                let ret;
                loop {
                    self.ws();
                    let c = self.peek();
                    if c == b'[' || c == b'<' || c == b'{' || c == b'%' {
                        ret = self.ty(m);
                        break;
                    }
                    let w = self.peek_word();
                    let is_ty = matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "x86_fp80" | "half" | "fp128")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
                    if is_ty {
                        ret = self.ty(m);
                        break;
                    }
                    self.word();
                    if w == "align" {
                        self.int();
                    } else if w == "cc" {
                        self.int();
                    } else {
                        self.opt_parens();
                    }
                    assert!(!w.is_empty(), "call attrs");
                }
                self.ws();
                if self.peek() == b'(' {
                    self.parens(); // vararg function type
                    self.ws();
                }
                let callee;
                if self.peek() == b'@' {
                    self.i += 1;
                    let n = self.name();
                    let g = *m.by_name.get(n.as_str()).unwrap_or_else(|| panic!("callee {}", n));
                    callee = Callee::Global(m.resolve_alias(g));
                } else if self.peek() == b'%' {
                    self.i += 1;
                    let n = self.name();
                    callee = Callee::Indirect(Opnd::reg(fp.reg(&n)));
                } else if self.peek_word() == "asm" {
                    callee = Callee::Asm;
                    while self.peek() != b'"' {
                        self.i += 1
                    }
                    self.name();
                    self.ws();
                    self.expect(b',');
                    self.ws();
                    self.name();
                } else {
                    let pt = m.ty(Ty::Ptr);
                    let v = self.constant(m, pool, pt);
                    callee = Callee::Indirect(fp.cst(v));
                }
                self.ws();
                self.expect(b'(');
                let mut args = vec![];
                let mut argtys = vec![];
                loop {
                    self.ws();
                    if self.peek() == b')' {
                        self.i += 1;
                        break;
                    }
                    let t = self.ty(m);
                    if matches!(m.tys[t as usize], Ty::Metadata) {
                        // skip to , or )
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                b'(' => d += 1,
                                b')' if d == 0 => break,
                                b')' => d -= 1,
                                b',' if d == 0 => break,
                                b'"' => {
                                    self.i += 1;
                                    while self.peek() != b'"' {
                                        self.i += 1
                                    }
                                }
                                _ => {}
                            }
                            self.i += 1;
                        }
                        args.push(fp.cst(Val::I(0)));
                        argtys.push(t);
                    } else {
                        self.skip_attrs();
                        args.push(self.operand(m, pool, fp, t));
                        argtys.push(t);
                    }
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    }
                }
                let mut normal = u32::MAX;
                if w == "invoke" {
                    // skip attrs / bundles until 'to label'
                    loop {
                        self.ws();
                        if self.starts("to label") {
                            break;
                        }
                        if self.peek() == b'[' {
                            while self.peek() != b']' {
                                self.i += 1
                            }
                        }
                        self.i += 1;
                    }
                    self.word();
                    normal = self.label(fp);
                    self.ws();
                    assert_eq!(self.word(), "unwind");
                    self.label(fp);
                }
                blk.ins.push(Ins::Call { dst, callee, args: args.into(), ret, normal, argtys: argtys.into() });
            }
            "br" => {
                self.ws();
                if self.peek_word() == "label" {
                    let l = self.label(fp);
                    blk.ins.push(Ins::Br(l));
                } else {
                    let t = self.ty(m);
                    let c = self.operand(m, pool, fp, t);
                    self.comma();
                    let a = self.label(fp);
                    self.comma();
                    let b = self.label(fp);
                    blk.ins.push(Ins::CondBr(c, a, b));
                }
            }
            "switch" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let def = self.label(fp);
                self.ws();
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.ws();
                    if self.peek() == b']' {
                        self.i += 1;
                        break;
                    }
                    let ct = self.ty(m);
                    let v = match self.constant(m, pool, ct) {
                        Val::I(x) => x,
                        Val::E(e) => pool.as_const(e).unwrap() as u64,
                        _ => panic!(),
                    };
                    self.comma();
                    let l = self.label(fp);
                    cases.push((v, l));
                }
                blk.ins.push(Ins::Switch { a, w: m.scalar_width(t), cases: cases.into(), def });
            }
            "ret" => {
                let t = self.ty(m);
                if matches!(m.tys[t as usize], Ty::Void) {
                    blk.ins.push(Ins::Ret(None));
                } else {
                    let v = self.operand(m, pool, fp, t);
                    blk.ins.push(Ins::Ret(Some(v)));
                }
            }
            "unreachable" => blk.ins.push(Ins::Unreachable),
            "extractvalue" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                let mut path = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    self.ws();
                    if self.peek() == b'!' {
                        break;
                    }
                    path.push(self.int() as u32);
                }
                blk.ins.push(Ins::ExtractValue { dst, a, path: path.into() });
            }
            "insertvalue" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let vt = self.ty(m);
                let v = self.operand(m, pool, fp, vt);
                let mut path = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    self.ws();
                    if self.peek() == b'!' {
                        break;
                    }
                    path.push(self.int() as u32);
                }
                blk.ins.push(Ins::InsertValue { dst, a, v, path: path.into() });
            }
            "extractelement" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let it = self.ty(m);
                let i = self.operand(m, pool, fp, it);
                blk.ins.push(Ins::ExtractElement { dst, a, i });
            }
            "insertelement" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let vt = self.ty(m);
                let v = self.operand(m, pool, fp, vt);
                self.comma();
                let it = self.ty(m);
                let i = self.operand(m, pool, fp, it);
                blk.ins.push(Ins::InsertElement { dst, a, v, i });
            }
            "shufflevector" => {
                let t = self.ty(m);
                let a = self.operand(m, pool, fp, t);
                self.comma();
                let t2 = self.ty(m);
                let b = self.operand(m, pool, fp, t2);
                self.comma();
                let mt = self.ty(m);
                let mv = self.constant(m, pool, mt);
                let mask: Vec<i64> = match mv {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(i) => *i as i32 as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                blk.ins.push(Ins::Shuffle { dst, a, b, mask: mask.into() });
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let op = match self.word().as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    s => panic!("rmw {}", s),
                };
                let pt = self.ty(m);
                let p = self.operand(m, pool, fp, pt);
                self.comma();
                let vt = self.ty(m);
                let v = self.operand(m, pool, fp, vt);
                blk.ins.push(Ins::Rmw { op, dst, p, v, w: m.scalar_width(vt) });
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let pt = self.ty(m);
                let p = self.operand(m, pool, fp, pt);
                self.comma();
                let vt = self.ty(m);
                let c = self.operand(m, pool, fp, vt);
                self.comma();
                let nt = self.ty(m);
                let n = self.operand(m, pool, fp, nt);
                blk.ins.push(Ins::CmpXchg { dst, p, c, n, w: m.scalar_width(vt) });
            }
            "fence" => blk.ins.push(Ins::Fence),
            "landingpad" => {
                // type, then clauses on following lines (cleanup / catch / filter)
                self.skip_line();
                loop {
                    let s = self.i;
                    self.ws();
                    let w = self.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" {
                        self.skip_line();
                    } else {
                        self.i = s;
                        break;
                    }
                }
                // step back so that the caller's skip_line consumes only this line end
                self.i -= 1;
                blk.ins.push(Ins::Bad("landingpad".into()));
            }
            "resume" => blk.ins.push(Ins::Bad("resume".into())),
            "cleanupret" | "catchret" | "catchswitch" | "va_arg" | "indirectbr" | "callbr" => blk.ins.push(Ins::Bad(w.into())),
            _ => panic!("instruction {:?}", w),
        }
    }
    fn ws_inline(&mut self) {
        while self.peek() == b' ' {
            self.i += 1
        }
    }
}

pub fn sext64(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn put_const(m: &Module, pool: &Pool, t: TyId, v: &Val, out: &mut [u8]) {
    match &m.tys[t as usize] {
        Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => {
            let x: u128 = match v {
                Val::I(x) => *x as u128,
                Val::E(e) => pool.as_const(*e).unwrap(),
                _ => panic!(),
            };
            let n = ((m.scalar_width(t) as usize) + 7) / 8;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        Ty::Array(n, e) | Ty::Vector(n, e) => {
            let s = m.size(*e) as usize;
            if let Val::A(vs) = v {
                for k in 0..*n as usize {
                    put_const(m, pool, *e, &vs[k], &mut out[k * s..(k + 1) * s]);
                }
            } else {
                panic!()
            }
        }
        Ty::Struct(es, _) => {
            if let Val::A(vs) = v {
                for (k, e) in es.iter().enumerate() {
                    let (o, _) = m.field_off(t, k as u64);
                    let s = m.size(*e) as usize;
                    put_const(m, pool, *e, &vs[k], &mut out[o as usize..o as usize + s]);
                }
            } else {
                panic!()
            }
        }
        _ => {}
    }
}
