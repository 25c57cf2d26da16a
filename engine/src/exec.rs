//! Symbolic interpreter: states, branching, memory access, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;

pub const HEAP_BASE: u32 = 0x0010_0000;
pub const STACK_BASE: u32 = 0x4000_0000;
pub const STACK_LIMIT_BYTES: u64 = 8 << 20;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub base: u32, // register window start
    pub dst: u32,  // caller register receiving the result
    pub normal: u32,
    pub smark: u32,
    pub bytes: u64,
}

#[derive(Clone)]
pub struct Dom {
    pub bits: [u64; 4],
    pub multi: bool,
    pub small: bool,
}

#[derive(Clone, Debug)]
pub enum InVal {
    Bytes(Vec<ExprId>), // 8-bit expressions
    Word(ExprId, u16),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub globals: CVec,
    pub heap: CVec,
    pub stack: CVec,
    pub next_heap: u32,
    pub next_stack: u32,
    pub stack_bytes: u64,
    pub pc: Vec<ExprId>,
    pub doms: Vec<Dom>,
    pub model: Rc<Vec<u64>>,
    pub conc: Rc<HashMap<ExprId, u64>>,
    pub inputs: Rc<Vec<(String, InVal)>>,
    pub steps: u64,
    pub forks: u32,
    pub nvars: u32,
    pub out: Rc<Vec<u8>>,
    pub choice_ix: u32,
    pub pending_choice: Option<u64>,
    pub notes: Rc<Vec<String>>,
    /// symbolic 64-bit integers are formatted as a fixed placeholder
    pub opaque: bool,
    /// thread-local objects of the threads that wait for the running one
    pub tls: Vec<Rc<Vec<(u32, Rc<Obj>)>>>,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Done,
    Exit(i64),
    Assumed,
    Panic(String),
    Fail(String),
    Incomplete(String),
}
pub enum Alt {
    C(ExprId, Option<Rc<Vec<u64>>>),
    Choice(u64),
}
pub enum Stop {
    Fork(Vec<Alt>),
    End(Outcome),
}
pub type R<T> = Result<T, Stop>;

/// `<{i64,u64,isize,usize} as {Display,Debug}>::fmt`, by mangled name
fn int_fmt(n: &str) -> bool {
    n.starts_with("_RNvX")
        && n.contains("4core3fmt")
        && n.contains("3num")
        && ["7Display3fmt", "5Debug3fmt"].iter().any(|s| {
            n.strip_suffix(s).and_then(|r| r.rfind("NtB").map(|i| matches!(r.as_bytes()[i - 1], b'x' | b'y' | b'i' | b'j'))).unwrap_or(false)
        })
}
fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(Outcome::Incomplete(s.into())))
}

#[derive(Clone, Debug)]
pub enum Target {
    Body,
    Intr(crate::intr::Intr),
    Ext(Rc<str>),
    Stub(u32),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, String, Vec<u8>)>,
    pub notes: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_exit: u64,
    pub paths_assumed: u64,
    pub paths_violation: u64,
    pub paths_incomplete: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_smt: u64,
    pub feas_dom: u64,
    pub feas_model: u64,
    pub feas_cache: u64,
    pub max_path_steps: u64,
}

pub struct Engine {
    pub m: Module,
    pub pool: Pool,
    pub z3: Z3,
    pub funcs: Vec<Option<&'static Func>>,
    pub targets: Vec<Option<Target>>,
    pub gobjs: HashMap<u32, Rc<Obj>>,
    pub used: Vec<bool>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub incompletes: HashMap<String, u64>,
    pub reached: HashMap<String, u64>,
    pub qcache: HashMap<Vec<u32>, (Res, Vec<(u32, u64)>)>,
    pub stubs: Vec<(String, String)>,
    pub step_limit: u64,
    pub frame_limit: usize,
    pub trace: bool,
    pub demangle: HashMap<String, String>,
    pub panic_ok: bool,
    pub max_enum: usize,
    pub fprof: Option<HashMap<u32, u64>>,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        let n = m.globals.len();
        Engine {
            m,
            pool: Pool::new(),
            z3: Z3::new(timeout_ms),
            funcs: vec![None; n],
            targets: vec![None; n],
            gobjs: HashMap::new(),
            used: vec![false; n],
            stats: Stats::default(),
            violations: vec![],
            incompletes: HashMap::new(),
            reached: HashMap::new(),
            qcache: HashMap::new(),
            stubs: vec![],
            step_limit: 2_000_000_000,
            frame_limit: 1_000_000,
            trace: false,
            demangle: HashMap::new(),
            panic_ok: false,
            max_enum: 300,
            fprof: None,
            fork_sites: HashMap::new(),
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let mut st = State {
            frames: vec![],
            regs: vec![],
            globals: CVec::new(0),
            heap: CVec::new(HEAP_BASE),
            stack: CVec::new(STACK_BASE),
            next_heap: HEAP_BASE + 1, // the first id is errno
            next_stack: STACK_BASE,
            stack_bytes: 0,
            pc: vec![],
            doms: vec![],
            model: Rc::new(vec![]),
            conc: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            steps: 0,
            forks: 0,
            nvars: 0,
            out: Rc::new(vec![]),
            choice_ix: 0,
            pending_choice: None,
            notes: Rc::new(vec![]),
            opaque: false,
            tls: vec![],
        };
        let g = *self.m.by_name.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {}", entry);
            std::process::exit(3)
        });
        let f = self.func(g);
        let args = vec![Val::I(0); f.params.len()];
        self.push_frame(&mut st, f, args, u32::MAX, u32::MAX);
        st
    }
    pub fn func(&mut self, g: u32) -> &'static Func {
        if let Some(f) = self.funcs[g as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.parse_func(g, &mut self.pool)));
        self.funcs[g as usize] = Some(f);
        self.used[g as usize] = true;
        f
    }
    pub fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, dst: u32, normal: u32) {
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nregs as usize, Val::I(0));
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                st.regs[base as usize + f.params[i] as usize] = a;
            }
        }
        if st.opaque && int_fmt(&f.name) {
            let p = st.regs[base as usize + f.params[0] as usize].clone();
            if matches!(self.load(st, &p, 64), Ok(Val::E(_))) {
                let a = self.alloc(st, 8);
                let _ = self.store_c(st, a, &Val::I(0), 64);
                st.regs[base as usize + f.params[0] as usize] = Val::I(a);
            }
        }
        st.stack_bytes += f.frame_bytes;
        st.frames.push(Frame { f, blk: 0, ip: 0, base, dst, normal, smark: st.next_stack, bytes: f.frame_bytes });
    }

    // ----- expressions over values -----
    pub fn ex(&mut self, v: &Val, w: u16) -> ExprId {
        match v {
            Val::I(x) => self.pool.cst(w, *x as u128),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn val(&self, e: ExprId) -> Val {
        if self.pool.w(e) <= 64 {
            if let Some(c) = self.pool.as_const(e) {
                return Val::I(c as u64);
            }
        }
        Val::E(e)
    }
    pub fn new_var(&mut self, st: &mut State, name: &str, w: u16) -> ExprId {
        // variables are shared between paths: the n-th input of a path gets the n-th
        // variable of that width
        let n = st.nvars;
        st.nvars += 1;
        let key = format!("{}#{}:{}", name, n, w);
        let e = match self.pool.vars.iter().position(|(s, _)| *s == key) {
            Some(i) => {
                let w = self.pool.vars[i].1;
                self.pool.var_at(i as u32, w)
            }
            None => self.pool.var(&key, w),
        };
        let v = self.pool.support(e)[0] as usize;
        while st.doms.len() <= v {
            st.doms.push(Dom { bits: [0; 4], multi: false, small: false });
        }
        let small = w <= 8;
        let mut bits = [0u64; 4];
        if small {
            for i in 0..(1usize << w) {
                bits[i >> 6] |= 1 << (i & 63);
            }
        }
        st.doms[v] = Dom { bits, multi: false, small };
        if st.model.len() <= v {
            Rc::make_mut(&mut st.model).resize(v + 1, 0);
        }
        e
    }

    // ----- constraints -----
    pub fn add(&mut self, st: &mut State, c: ExprId, model: Option<Rc<Vec<u64>>>) {
        if let Some(m) = model {
            st.model = m;
        }
        self.add1(st, c);
    }
    fn add1(&mut self, st: &mut State, c: ExprId) {
        if self.pool.as_const(c).is_some() {
            return;
        }
        let n = self.pool.nodes[c as usize];
        if n.op == Op::And {
            self.add1(st, n.a);
            self.add1(st, n.b);
            return;
        }
        if st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        if let Some(v) = self.pool.small_var(c) {
            if let Some(t) = self.pool.truth(c, v) {
                let d = &mut st.doms[v as usize];
                for i in 0..4 {
                    d.bits[i] &= t[i];
                }
                return;
            }
        }
        let s = self.pool.support(c);
        for v in s.iter() {
            st.doms[*v as usize].multi = true;
        }
    }
    fn slice(&self, st: &State, c: ExprId) -> Vec<ExprId> {
        let mut vars: Vec<u32> = self.pool.support(c).to_vec();
        let mut inset = vec![false; self.pool.vars.len()];
        for v in &vars {
            inset[*v as usize] = true;
        }
        let mut taken = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = &self.pool.sets[self.pool.supp[*p as usize] as usize];
                if s.iter().any(|v| inset[*v as usize]) {
                    taken[i] = true;
                    out.push(*p);
                    for v in s.iter() {
                        if !inset[*v as usize] {
                            inset[*v as usize] = true;
                            vars.push(*v);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// satisfiability of pc ∧ c
    pub fn sat(&mut self, st: &State, c: ExprId) -> (Res, Option<Rc<Vec<u64>>>) {
        self.sat_with(st, c, false)
    }
    pub fn sat_with(&mut self, st: &State, c: ExprId, smt_only: bool) -> (Res, Option<Rc<Vec<u64>>>) {
        if !smt_only && self.range_decides(st, c) == Some(false) {
            self.stats.feas_dom += 1;
            return (Res::Unsat, None);
        }
        let mut cs = self.slice(st, c);
        cs.push(c);
        cs.sort_unstable();
        cs.dedup();
        if let Some((r, m)) = self.qcache.get(&cs) {
            self.stats.feas_cache += 1;
            if *r == Res::Sat {
                let mut mm = (*st.model).clone();
                for (v, x) in m {
                    if mm.len() <= *v as usize {
                        mm.resize(*v as usize + 1, 0);
                    }
                    mm[*v as usize] = *x;
                }
                return (Res::Sat, Some(Rc::new(mm)));
            }
            return (*r, None);
        }
        let mut sset = 0;
        for e in &cs {
            sset = self.pool.union(sset, self.pool.supp[*e as usize]);
        }
        let vars = self.pool.sets[sset as usize].clone();
        if !smt_only {
            if let Some(r) = self.csp(st, c, &cs, &vars) {
                self.stats.feas_dom += 1;
                return match r {
                    Some(m) => (Res::Sat, Some(Rc::new(m))),
                    None => (Res::Unsat, None),
                };
            }
        }
        let (r, vals) = self.z3.check(&self.pool, &cs, &vars);
        let mut mv = vec![];
        let mut model = None;
        if r == Res::Sat {
            let mut mm = (*st.model).clone();
            for (v, x) in vars.iter().zip(vals) {
                if mm.len() <= *v as usize {
                    mm.resize(*v as usize + 1, 0);
                }
                mm[*v as usize] = x;
                mv.push((*v, x));
            }
            model = Some(Rc::new(mm));
        }
        if self.qcache.len() > 400_000 {
            self.qcache.clear();
        }
        self.qcache.insert(cs, (r, mv));
        (r, model)
    }
    /// finite-domain search for branch feasibility over byte-sized variables:
    /// Some(Some(model)), Some(None) after exhausting the domains, None to give up
    fn csp(&mut self, st: &State, c: ExprId, cs: &[ExprId], vars: &[u32]) -> Option<Option<Vec<u64>>> {
        if vars.len() > 24 {
            return None;
        }
        let mut doms: Vec<[u64; 4]> = Vec::with_capacity(vars.len());
        for v in vars {
            if self.pool.vars[*v as usize].1 > 8 {
                return None;
            }
            doms.push(st.doms[*v as usize].bits);
        }
        let csup = self.pool.support(c);
        // variables of c first, then by domain size
        let mut order: Vec<usize> = (0..vars.len()).collect();
        let size = |d: &[u64; 4]| -> u32 { d.iter().map(|x| x.count_ones()).sum() };
        let mut multi: Vec<(ExprId, Rc<[u32]>)> = vec![];
        for e in cs {
            let s = self.pool.support(*e);
            if s.len() > 1 {
                multi.push((*e, s));
            } else if *e == c {
                let i = vars.iter().position(|v| *v == s[0])?;
                let t = self.pool.truth(c, s[0])?;
                for k in 0..4 {
                    doms[i][k] &= t[k];
                }
            }
        }
        order.sort_by_key(|i| (!csup.contains(&vars[*i]), size(&doms[*i])));
        let pos: HashMap<u32, usize> = order.iter().enumerate().map(|(p, i)| (vars[*i], p)).collect();
        // a constraint is checked at the level of its last variable
        let mut at: Vec<Vec<ExprId>> = vec![vec![]; vars.len()];
        for (e, s) in &multi {
            let l = s.iter().map(|v| pos[v]).max().unwrap();
            at[l].push(*e);
        }
        let mut model = (*st.model).clone();
        let orig = st.model.clone();
        let mut budget = 3000i32;
        let n = order.len();
        // candidate values per level: the current model's value first
        let mut cand: Vec<Vec<u64>> = vec![vec![]; n];
        let mut lvl = 0usize;
        let fill = |i: usize, doms: &Vec<[u64; 4]>| -> Vec<u64> {
            let d = &doms[i];
            let mut v = vec![];
            for x in (0..256u64).rev() {
                if d[(x >> 6) as usize] >> (x & 63) & 1 == 1 {
                    v.push(x);
                }
            }
            let cur = orig[vars[i] as usize];
            if let Some(p) = v.iter().position(|x| *x == cur) {
                v.remove(p);
                v.push(cur);
            }
            v
        };
        if n == 0 {
            return None;
        }
        cand[0] = fill(order[0], &doms);
        loop {
            match cand[lvl].pop() {
                None => {
                    if lvl == 0 {
                        return Some(None);
                    }
                    lvl -= 1;
                }
                Some(x) => {
                    model[vars[order[lvl]] as usize] = x;
                    let mut ok = true;
                    for k in 0..at[lvl].len() {
                        budget -= 1;
                        if budget < 0 {
                            return None;
                        }
                        match self.pool.eval(at[lvl][k], &model)? {
                            1 => {}
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        if lvl + 1 == n {
                            return Some(Some(model));
                        }
                        lvl += 1;
                        cand[lvl] = fill(order[lvl], &doms);
                    }
                }
            }
        }
    }
    /// truth of c on this path; forks when both are possible
    pub fn decide(&mut self, st: &State, c: ExprId) -> R<bool> {
        if let Some(k) = self.pool.as_const(c) {
            return Ok(k == 1);
        }
        let neg = self.pool.not(c);
        let (pos, fals) = self.both(st, c, neg)?;
        match (pos, fals) {
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (Some(a), Some(b)) => Err(Stop::Fork(vec![Alt::C(c, Some(a)), Alt::C(neg, Some(b))])),
            (None, None) => Err(Stop::End(Outcome::Assumed)),
        }
    }
    /// models for c and for its negation (None: infeasible)
    fn both(&mut self, st: &State, c: ExprId, neg: ExprId) -> R<(Option<Rc<Vec<u64>>>, Option<Rc<Vec<u64>>>)> {
        if st.pc.contains(&c) {
            return Ok((Some(st.model.clone()), None));
        }
        if st.pc.contains(&neg) {
            return Ok((None, Some(st.model.clone())));
        }
        if let Some(v) = self.pool.small_var(c) {
            if let Some(t) = self.pool.truth(c, v) {
                let d = &st.doms[v as usize];
                let mut tb = [0u64; 4];
                let mut fb = [0u64; 4];
                let mut anyt = false;
                let mut anyf = false;
                for i in 0..4 {
                    tb[i] = d.bits[i] & t[i];
                    fb[i] = d.bits[i] & !t[i];
                    anyt |= tb[i] != 0;
                    anyf |= fb[i] != 0;
                }
                if !anyt || !anyf {
                    self.stats.feas_dom += 1;
                    return Ok(if anyt {
                        (Some(st.model.clone()), None)
                    } else if anyf {
                        (None, Some(st.model.clone()))
                    } else {
                        (None, None)
                    });
                }
                if !d.multi {
                    self.stats.feas_dom += 1;
                    let cur = st.model[v as usize];
                    let pick = |b: &[u64; 4]| -> Rc<Vec<u64>> {
                        if b[(cur >> 6) as usize] >> (cur & 63) & 1 == 1 {
                            return st.model.clone();
                        }
                        let mut m = (*st.model).clone();
                        for i in 0..4 {
                            if b[i] != 0 {
                                m[v as usize] = (i as u64) * 64 + b[i].trailing_zeros() as u64;
                                break;
                            }
                        }
                        Rc::new(m)
                    };
                    return Ok((Some(pick(&tb)), Some(pick(&fb))));
                }
            }
        }
        let cur = self.pool.eval(c, &st.model);
        let (mut p, mut n) = (None, None);
        let mut need_p = true;
        let mut need_n = true;
        if let Some(x) = cur {
            self.stats.feas_model += 1;
            if x == 1 {
                p = Some(st.model.clone());
                need_p = false;
            } else {
                n = Some(st.model.clone());
                need_n = false;
            }
        }
        if need_p {
            let (r, m) = self.sat(st, c);
            match r {
                Res::Sat => p = m,
                Res::Unsat => {}
                Res::Unknown => self.note_incomplete("solver: unknown (feasibility)"),
            }
        }
        if need_n {
            let (r, m) = self.sat(st, neg);
            match r {
                Res::Sat => n = m,
                Res::Unsat => {}
                Res::Unknown => self.note_incomplete("solver: unknown (feasibility)"),
            }
        }
        Ok((p, n))
    }
    pub fn note_incomplete(&mut self, s: &str) {
        *self.incompletes.entry(s.to_string()).or_insert(0) += 1;
    }
    /// all values of e feasible on this path
    pub fn feasible(&mut self, st: &State, e: ExprId, limit: usize) -> R<Vec<(u64, Rc<Vec<u64>>)>> {
        if let Some(v) = self.pool.small_var(e) {
            if !st.doms[v as usize].multi {
                if let Some(vals) = self.pool.values(e, v) {
                    let d = &st.doms[v as usize];
                    let mut out: Vec<(u64, Rc<Vec<u64>>)> = vec![];
                    let mut seen = std::collections::HashSet::new();
                    for x in 0..vals.len() {
                        if d.bits[x >> 6] >> (x & 63) & 1 == 1 && seen.insert(vals[x]) {
                            let mut m = (*st.model).clone();
                            m[v as usize] = x as u64;
                            out.push((vals[x], Rc::new(m)));
                        }
                    }
                    if out.len() > limit {
                        return inc(format!("more than {} values in {}", limit, self.where_(st)));
                    }
                    return Ok(out);
                }
            }
        }
        let w = self.pool.w(e);
        let mut out = vec![];
        let mut block = self.pool.cst(1, 1);
        loop {
            let (r, m) = self.sat(st, block);
            match r {
                Res::Unsat => break,
                Res::Unknown => return inc("solver: unknown (enumeration)"),
                Res::Sat => {
                    let m = m.unwrap();
                    let v = match self.pool.eval(e, &m) {
                        Some(v) => v as u64,
                        None => return inc("enumeration of uninterpreted value"),
                    };
                    out.push((v, m));
                    if out.len() > limit {
                        return inc(format!("more than {} values in {}", limit, self.where_(st)));
                    }
                    let k = self.pool.cst(w, v as u128);
                    let eq = self.pool.eq(e, k);
                    let ne = self.pool.not(eq);
                    block = self.pool.and(block, ne);
                }
            }
        }
        Ok(out)
    }
    /// concrete value of v on this path (forks over every feasible value)
    pub fn conc(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::A(_) => panic!("conc aggregate"),
            Val::E(e) => {
                if let Some(c) = self.pool.as_const(*e) {
                    return Ok(c as u64);
                }
                if let Some(x) = st.conc.get(e) {
                    return Ok(*x);
                }
                let w = self.pool.w(*e);
                let fs = self.feasible(st, *e, self.max_enum)?;
                if fs.is_empty() {
                    return Err(Stop::End(Outcome::Assumed));
                }
                if fs.len() == 1 {
                    return Ok(fs[0].0);
                }
                let mut alts = vec![];
                for (x, m) in fs {
                    let k = self.pool.cst(w, x as u128);
                    let c = self.pool.eq(*e, k);
                    alts.push(Alt::C(c, Some(m)));
                }
                Err(Stop::Fork(alts))
            }
        }
    }
    pub fn where_(&self, st: &State) -> String {
        st.frames.last().map_or("?".into(), |f| f.f.name.to_string())
    }

    // ----- memory -----
    pub fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id >= STACK_BASE {
            st.stack.get(id)
        } else if id >= HEAP_BASE {
            st.heap.get(id)
        } else {
            if id == 0 {
                return None;
            }
            if let Some(o) = st.globals.get(id) {
                // borrow again to satisfy the checker
                return Some(o);
            }
            self.gobj(id)
        }
    }
    fn gobj(&mut self, id: u32) -> Option<&Rc<Obj>> {
        let g = id - 1;
        if g as usize >= self.m.globals.len() {
            return None;
        }
        if !matches!(self.m.globals[g as usize].kind, GKind::Var { .. }) {
            return None;
        }
        if !self.gobjs.contains_key(&id) {
            let (data, constant) = self.m.global_init(g, &mut self.pool);
            let o = Obj { data, sym: None, ro: constant };
            self.gobjs.insert(id, Rc::new(o));
        }
        self.gobjs.get(&id)
    }
    pub fn obj_mut<'a>(&'a mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= STACK_BASE {
            st.stack.get_mut(id)
        } else if id >= HEAP_BASE {
            st.heap.get_mut(id)
        } else {
            if id == 0 {
                return None;
            }
            if st.globals.get(id).is_none() {
                let o = self.gobj(id)?.clone();
                *st.globals.slot(id) = Some(o);
            }
            st.globals.get_mut(id)
        }
    }
    fn bad_access(&self, st: &State, what: &str, addr: u64, n: usize) -> Stop {
        let _ = st;
        Stop::End(Outcome::Fail(format!("memory error: {} of {} bytes at {:#x}", what, n, addr)))
    }
    pub fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let id = st.next_heap;
        st.next_heap += 1;
        if id >= STACK_BASE - 1 {
            panic!("heap ids exhausted");
        }
        st.heap.put(id, Obj::new(n as usize));
        (id as u64) << ADDR_SHIFT
    }
    pub fn load_c(&mut self, st: &State, addr: u64, w: u16) -> R<Val> {
        let n = ((w as usize) + 7) / 8;
        let id = (addr >> ADDR_SHIFT) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o: &Rc<Obj> = match self.obj(st, id) {
            Some(o) => o,
            None => return Err(self.bad_access(st, "read", addr, n)),
        };
        if off + n > o.data.len() {
            return Err(self.bad_access(st, "read", addr, n));
        }
        if o.sym.is_none() || o.range_concrete(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let mut x = u64::from_le_bytes(b);
                if w < 64 {
                    x &= (1u64 << w) - 1;
                }
                return Ok(Val::I(x));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let x = u128::from_le_bytes(b);
            return Ok(Val::E(self.pool.cst(w, x)));
        }
        let o = o.clone();
        let e = self.read_sym(&o, off, n);
        let e = if (n * 8) as u16 > w { self.pool.extract(e, 0, w) } else { e };
        Ok(self.val(e))
    }
    fn byte_expr(&mut self, o: &Obj, off: usize) -> ExprId {
        let s = o.sym.as_ref().map_or(0, |s| s[off]);
        if s == 0 {
            self.pool.cst(8, o.data[off] as u128)
        } else {
            let e = (s >> 8) as u32;
            let k = (s & 0xff) as u16;
            let w = self.pool.w(e);
            if w == 8 {
                e
            } else if w < k * 8 + 8 {
                let x = self.pool.extract(e, k * 8, w - k * 8);
                self.pool.zext(x, 8)
            } else {
                self.pool.extract(e, k * 8, 8)
            }
        }
    }
    pub fn read_sym(&mut self, o: &Obj, off: usize, n: usize) -> ExprId {
        // whole value stored as one expression?
        if let Some(s) = &o.sym {
            let s0 = s[off];
            if s0 != 0 && s0 & 0xff == 0 {
                let e = (s0 >> 8) as u32;
                let w = self.pool.w(e) as usize;
                if (w + 7) / 8 == n && (0..n).all(|i| s[off + i] == s0 + i as u64) {
                    if w == n * 8 {
                        return e;
                    }
                    return self.pool.zext(e, (n * 8) as u16);
                }
            }
        }
        let mut r = self.byte_expr(o, off);
        for i in 1..n {
            let b = self.byte_expr(o, off + i);
            r = self.pool.concat(b, r);
        }
        r
    }
    pub fn store_c(&mut self, st: &mut State, addr: u64, v: &Val, w: u16) -> R<()> {
        let n = ((w as usize) + 7) / 8;
        let id = (addr >> ADDR_SHIFT) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let cv: Option<u128> = match v {
            Val::I(x) => Some(*x as u128),
            Val::E(e) => self.pool.as_const(*e),
            _ => panic!(),
        };
        let bad = || Stop::End(Outcome::Fail(format!("memory error: write of {} bytes at {:#x}", n, addr)));
        let o = match self.obj_mut(st, id) {
            Some(o) => o,
            None => return Err(bad()),
        };
        if off + n > o.data.len() || o.ro {
            return Err(bad());
        }
        match cv {
            Some(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                o.clear_sym(off, n);
            }
            None => {
                let e = match v {
                    Val::E(e) => *e,
                    _ => unreachable!(),
                };
                let s = o.sym_mut();
                for i in 0..n {
                    s[off + i] = ((e as u64) << 8) | i as u64;
                }
            }
        }
        Ok(())
    }
    /// resolve a possibly symbolic address for an access of n bytes; Ok(Some) when
    /// it is concrete on this path
    fn addr(&mut self, st: &State, p: &Val) -> R<u64> {
        match p {
            Val::I(a) => Ok(*a),
            v => self.conc(st, v),
        }
    }
    pub fn load(&mut self, st: &State, p: &Val, w: u16) -> R<Val> {
        let e = match p {
            Val::I(a) => return self.load_c(st, *a, w),
            Val::E(e) => *e,
            _ => panic!(),
        };
        if let Some(x) = st.conc.get(&e) {
            return self.load_c(st, *x, w);
        }
        let n = ((w as usize) + 7) / 8;
        // ite over concrete addresses
        if let Some(v) = self.load_ite(st, e, w, 0)? {
            return Ok(v);
        }
        let a0 = match self.pool.eval(e, &st.model) {
            Some(a) => a as u64,
            None => return inc("uninterpreted address"),
        };
        let id = (a0 >> ADDR_SHIFT) as u32;
        let len = match self.obj(st, id) {
            Some(o) => o.data.len(),
            None => return Err(self.bad_access(st, "read", a0, n)),
        };
        if (a0 & 0xffff_ffff) as usize + n > len {
            return Err(self.bad_access(st, "read", a0, n));
        }
        let base = (id as u64) << ADDR_SHIFT;
        let bk = self.pool.cst(64, base as u128);
        let off = self.pool.bin(Op::Sub, e, bk);
        let lim = self.pool.cst(64, (len - n + 1) as u128);
        let inb = self.pool.bin(Op::Ult, off, lim);
        if !self.decide(st, inb)? {
            // the model satisfies pc, so this cannot happen unless the model is stale
            return inc("stale model at symbolic load");
        }
        let o = self.obj(st, id).unwrap().clone();
        // candidate offsets
        let mut cands: Option<Vec<u64>> = None;
        if let Some(v) = self.pool.small_var(off) {
            if let Some(vals) = self.pool.values(off, v) {
                let d = &st.doms[v as usize];
                let mut c: Vec<u64> = (0..vals.len()).filter(|x| d.bits[x >> 6] >> (x & 63) & 1 == 1).map(|x| vals[x]).collect();
                c.sort_unstable();
                c.dedup();
                c.retain(|x| (*x as usize) + n <= len);
                cands = Some(c);
            }
        }
        let tz = self.low_zeros(off);
        let stride = 1u64 << tz.min(6);
        let (lo, hi) = match &cands {
            Some(c) => (*c.first().unwrap(), *c.last().unwrap()),
            None => {
                let hi = ((len - n) as u64) / stride * stride;
                if hi / stride > 64 {
                    self.range(st, off, 0, hi)?
                } else {
                    (0, hi)
                }
            }
        };
        let span = (hi / stride + 1) as usize;
        let conc = match &cands {
            Some(c) => c.iter().all(|x| o.range_concrete(*x as usize, n)),
            None => o.range_concrete(lo as usize, (hi - lo) as usize + n),
        };
        if conc && n <= 8 && span <= 1 << 16 {
            let mut vals = vec![0u64; span];
            let rd = |x: usize| -> u64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[x..x + n]);
                let mut v = u64::from_le_bytes(b);
                if w < 64 {
                    v &= (1u64 << w) - 1;
                }
                v
            };
            let mut k = lo / stride;
            while k * stride <= hi {
                vals[k as usize] = rd((k * stride) as usize);
                k += 1;
            }
            // entries below lo are unreachable; repeat the first value to keep runs
            for i in 0..(lo / stride) as usize {
                vals[i] = vals[(lo / stride) as usize];
            }
            let ix = if tz > 0 {
                let sh = stride.trailing_zeros() as u16;
                let x = self.pool.extract(off, sh, 64 - sh);
                self.pool.zext(x, 64)
            } else {
                off
            };
            let r = self.pool.select(ix, vals, w);
            return Ok(self.val(r));
        }
        // ite chain for a few symbolic candidates
        let cl: Vec<u64> = match cands {
            Some(c) => c,
            None => {
                let mut v = vec![];
                let mut x = lo / stride * stride;
                while x <= hi {
                    v.push(x);
                    x += stride;
                }
                v
            }
        };
        if cl.len() <= 64 {
            let mut r: Option<ExprId> = None;
            for x in cl.iter().rev() {
                let v = self.load_c(st, base + x, w)?;
                let ve = self.ex(&v, w);
                r = Some(match r {
                    None => ve,
                    Some(r) => {
                        let k = self.pool.cst(64, *x as u128);
                        let c = self.pool.eq(off, k);
                        self.pool.ite(c, ve, r)
                    }
                });
            }
            let r = r.unwrap();
            return Ok(self.val(r));
        }
        let a = self.conc(st, p)?;
        self.load_c(st, a, w)
    }
    fn load_ite(&mut self, st: &State, e: ExprId, w: u16, depth: u32) -> R<Option<Val>> {
        if let Some(c) = self.pool.as_const(e) {
            return Ok(Some(self.load_c(st, c as u64, w)?));
        }
        let n = self.pool.nodes[e as usize];
        if n.op != Op::Ite || depth > 6 {
            return Ok(None);
        }
        // both addresses must be valid to be read speculatively
        for k in [n.b, n.c] {
            if let Some(c) = self.pool.as_const(k) {
                let id = (c as u64 >> ADDR_SHIFT) as u32;
                let off = (c as u64 & 0xffff_ffff) as usize;
                let ok = self.obj(st, id).map_or(false, |o| off + ((w as usize) + 7) / 8 <= o.data.len());
                if !ok {
                    return Ok(None);
                }
            }
        }
        let a = match self.load_ite(st, n.b, w, depth + 1)? {
            Some(v) => v,
            None => return Ok(None),
        };
        let b = match self.load_ite(st, n.c, w, depth + 1)? {
            Some(v) => v,
            None => return Ok(None),
        };
        let (a, b) = (self.ex(&a, w), self.ex(&b, w));
        let r = self.pool.ite(n.a, a, b);
        Ok(Some(self.val(r)))
    }
    fn low_zeros(&self, e: ExprId) -> u32 {
        let n = self.pool.nodes[e as usize];
        match n.op {
            Op::Const => {
                let v = self.pool.consts[n.a as usize];
                if v == 0 {
                    64
                } else {
                    v.trailing_zeros()
                }
            }
            Op::Concat => {
                let l = self.low_zeros(n.b);
                if l >= self.pool.w(n.b) as u32 {
                    self.pool.w(n.b) as u32 + self.low_zeros(n.a).min(self.pool.w(n.a) as u32)
                } else {
                    l
                }
            }
            Op::ZExt => self.low_zeros(n.a),
            Op::Add | Op::Sub | Op::Or => self.low_zeros(n.a).min(self.low_zeros(n.b)),
            Op::Mul => (self.low_zeros(n.a) + self.low_zeros(n.b)).min(64),
            Op::Ite => self.low_zeros(n.b).min(self.low_zeros(n.c)),
            Op::And => self.low_zeros(n.a).max(self.low_zeros(n.b)),
            _ => 0,
        }
    }
    fn range(&mut self, st: &State, e: ExprId, lo0: u64, hi0: u64) -> R<(u64, u64)> {
        let w = self.pool.w(e);
        // largest
        let cur = self.pool.eval(e, &st.model).unwrap_or(0) as u64;
        let (mut lo, mut hi) = (cur, hi0);
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            let k = self.pool.cst(w, mid as u128);
            let c = self.pool.bin(Op::Ule, k, e);
            let (r, m) = self.sat(st, c);
            match r {
                Res::Sat => lo = self.pool.eval(e, &m.unwrap()).unwrap_or(mid as u128) as u64,
                Res::Unsat => hi = mid - 1,
                Res::Unknown => return Ok((lo0, hi0)),
            }
            lo = lo.min(hi);
        }
        let max = hi;
        let (mut lo, mut hi) = (lo0, cur);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let k = self.pool.cst(w, mid as u128);
            let c = self.pool.bin(Op::Ule, e, k);
            let (r, m) = self.sat(st, c);
            match r {
                Res::Sat => hi = self.pool.eval(e, &m.unwrap()).unwrap_or(mid as u128) as u64,
                Res::Unsat => lo = mid + 1,
                Res::Unknown => return Ok((lo0, max)),
            }
            hi = hi.max(lo);
        }
        Ok((lo, max))
    }
    pub fn load_ty(&mut self, st: &State, p: &Val, ty: TyId) -> R<Val> {
        let w = self.m.scalar_width(ty);
        if w > 0 {
            return self.load(st, p, w);
        }
        let a = self.addr(st, p)?;
        match self.m.tys[ty as usize].clone() {
            Ty::Struct(es, _) => {
                let mut v = vec![];
                for (i, e) in es.iter().enumerate() {
                    let (o, _) = self.m.field_off(ty, i as u64);
                    v.push(self.load_ty(st, &Val::I(a + o), *e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, &Val::I(a + i * s), e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let ew = self.m.scalar_width(e);
                if ew % 8 != 0 {
                    // packed bits
                    let x = self.load_c(st, a, n as u16 * ew)?;
                    let x = self.ex(&x, n as u16 * ew);
                    let mut v = vec![];
                    for i in 0..n {
                        let b = self.pool.extract(x, i as u16 * ew, ew);
                        v.push(self.val(b));
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_c(st, a + i * (ew as u64 / 8), ew)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => inc(format!("load of {:?}", t)),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, a: u64, v: &Val, ty: TyId) -> R<()> {
        let w = self.m.scalar_width(ty);
        if w > 0 {
            return self.store_c(st, a, v, w);
        }
        let vs = match v {
            Val::A(vs) => vs.clone(),
            _ => return inc("store aggregate"),
        };
        match self.m.tys[ty as usize].clone() {
            Ty::Struct(es, _) => {
                for (i, e) in es.iter().enumerate() {
                    let (o, _) = self.m.field_off(ty, i as u64);
                    self.store_ty(st, a + o, &vs[i], *e)?;
                }
            }
            Ty::Array(n, e) => {
                let s = self.m.size(e);
                for i in 0..n {
                    self.store_ty(st, a + i * s, &vs[i as usize], e)?;
                }
            }
            Ty::Vector(n, e) => {
                let ew = self.m.scalar_width(e);
                if ew % 8 != 0 {
                    return inc("store bit vector");
                }
                for i in 0..n {
                    self.store_c(st, a + i * (ew as u64 / 8), &vs[i as usize], ew)?;
                }
            }
            t => return inc(format!("store of {:?}", t)),
        }
        Ok(())
    }
    /// check that [addr, addr+n) is inside one object
    pub fn check_range(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<()> {
        let id = (addr >> ADDR_SHIFT) as u32;
        let off = addr & 0xffff_ffff;
        match self.obj(st, id) {
            Some(o) if off + n <= o.data.len() as u64 => Ok(()),
            _ => Err(self.bad_access(st, what, addr, n as usize)),
        }
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check_range(st, s, n, "memcpy read")?;
        self.check_range(st, d, n, "memcpy write")?;
        let (so, n) = ((s & 0xffff_ffff) as usize, n as usize);
        let src = self.obj(st, (s >> ADDR_SHIFT) as u32).unwrap();
        let data: Vec<u8> = src.data[so..so + n].to_vec();
        let sym: Option<Vec<u64>> = match &src.sym {
            Some(x) if x[so..so + n].iter().any(|v| *v != 0) => Some(x[so..so + n].to_vec()),
            _ => None,
        };
        let o = self.obj_mut(st, (d >> ADDR_SHIFT) as u32).unwrap();
        if o.ro {
            return Err(Stop::End(Outcome::Fail(format!("memory error: memcpy to read-only of {} bytes at {:#x}", n, d))));
        }
        let off = (d & 0xffff_ffff) as usize;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(x) => o.sym_mut()[off..off + n].copy_from_slice(&x),
            None => o.clear_sym(off, n),
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<ExprId>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.check_range(st, a, n, "read")?;
        let o = self.obj(st, (a >> ADDR_SHIFT) as u32).unwrap().clone();
        let off = (a & 0xffff_ffff) as usize;
        Ok((0..n as usize).map(|i| self.byte_expr(&o, off + i)).collect())
    }
    pub fn read_conc(&mut self, st: &State, a: u64, n: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        for e in self.read_bytes(st, a, n)? {
            let v = self.val(e);
            match v {
                Val::I(x) => out.push(x as u8),
                _ => out.push(self.pool.eval(e, &st.model).unwrap_or(b'?' as u128) as u8),
            }
        }
        Ok(out)
    }

    // ----- arithmetic -----
    pub fn binop(&mut self, op: BinOp, a: &Val, b: &Val, w: u16) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv if y != 0 => x / y,
                    BinOp::URem if y != 0 => x % y,
                    _ => {
                        let (ea, eb) = (self.pool.cst(w, x as u128), self.pool.cst(w, y as u128));
                        let r = self.binop_e(op, ea, eb);
                        return self.val(r);
                    }
                };
                return Val::I(r);
            }
        }
        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
        let r = self.binop_e(op, ea, eb);
        self.val(r)
    }
    fn binop_e(&mut self, op: BinOp, a: ExprId, b: ExprId) -> ExprId {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => return self.pool.fbin(Op::FAdd, a, b),
            BinOp::FSub => return self.pool.fbin(Op::FSub, a, b),
            BinOp::FMul => return self.pool.fbin(Op::FMul, a, b),
            BinOp::FDiv => return self.pool.fbin(Op::FDiv, a, b),
            BinOp::FRem => return self.pool.fbin(Op::FRem, a, b),
        };
        self.pool.bin(o, a, b)
    }
    pub fn icmp(&mut self, p: Pred, a: &Val, b: &Val, w: u16) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext64(x, w), sext64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::I(r as u64);
        }
        let (a, b) = (self.ex(a, w), self.ex(b, w));
        let e = self.icmp_e(p, a, b);
        self.val(e)
    }
    pub fn icmp_e(&mut self, p: Pred, a: ExprId, b: ExprId) -> ExprId {
        match p {
            Pred::Eq => self.pool.eq(a, b),
            Pred::Ne => {
                let e = self.pool.eq(a, b);
                self.pool.not(e)
            }
            Pred::Ugt => self.pool.bin(Op::Ult, b, a),
            Pred::Uge => self.pool.bin(Op::Ule, b, a),
            Pred::Ult => self.pool.bin(Op::Ult, a, b),
            Pred::Ule => self.pool.bin(Op::Ule, a, b),
            Pred::Sgt => self.pool.bin(Op::Slt, b, a),
            Pred::Sge => self.pool.bin(Op::Sle, b, a),
            Pred::Slt => self.pool.bin(Op::Slt, a, b),
            Pred::Sle => self.pool.bin(Op::Sle, a, b),
        }
    }
    fn fcmp(&mut self, p: FPred, a: &Val, b: &Val, w: u16) -> Val {
        let (a, b) = (self.ex(a, w), self.ex(b, w));
        let na = self.pool.fun(Op::FIsNan, a, 1, 0);
        let nb = self.pool.fun(Op::FIsNan, b, 1, 0);
        let uno = self.pool.or(na, nb);
        let lt = |s: &mut Self, x, y| s.pool.fbin(Op::FLt, x, y);
        let le = |s: &mut Self, x, y| s.pool.fbin(Op::FLe, x, y);
        let r = match p {
            FPred::False => self.pool.cst(1, 0),
            FPred::True => self.pool.cst(1, 1),
            FPred::Oeq => self.pool.fbin(Op::FEq, a, b),
            FPred::Une => {
                let e = self.pool.fbin(Op::FEq, a, b);
                self.pool.not(e)
            }
            FPred::Olt => lt(self, a, b),
            FPred::Ole => le(self, a, b),
            FPred::Ogt => lt(self, b, a),
            FPred::Oge => le(self, b, a),
            FPred::Ord => self.pool.not(uno),
            FPred::Uno => uno,
            FPred::Ult => {
                let x = le(self, b, a);
                self.pool.not(x)
            }
            FPred::Ule => {
                let x = lt(self, b, a);
                self.pool.not(x)
            }
            FPred::Ugt => {
                let x = le(self, a, b);
                self.pool.not(x)
            }
            FPred::Uge => {
                let x = lt(self, a, b);
                self.pool.not(x)
            }
            FPred::One => {
                let x = lt(self, a, b);
                let y = lt(self, b, a);
                self.pool.or(x, y)
            }
            FPred::Ueq => {
                let e = self.pool.fbin(Op::FEq, a, b);
                self.pool.or(uno, e)
            }
        };
        self.val(r)
    }
    pub fn cast(&mut self, k: CastK, a: &Val, from: u16, to: u16) -> Val {
        if let Val::I(x) = a {
            if to <= 64 {
                match k {
                    CastK::Trunc => return Val::I(if to == 64 { *x } else { x & ((1u64 << to) - 1) }),
                    CastK::ZExt => return Val::I(*x),
                    CastK::PtrToInt | CastK::IntToPtr => return Val::I(if to == 64 { *x } else { x & ((1u64 << to) - 1) }),
                    CastK::BitCast => return Val::I(*x),
                    CastK::SExt => {
                        let s = sext64(*x, from) as u64;
                        return Val::I(if to == 64 { s } else { s & ((1u64 << to) - 1) });
                    }
                    _ => {}
                }
            }
        }
        let e = self.ex(a, from);
        let r = match k {
            CastK::Trunc => self.pool.extract(e, 0, to),
            CastK::ZExt => self.pool.zext(e, to),
            CastK::SExt => self.pool.sext(e, to),
            CastK::PtrToInt | CastK::IntToPtr => {
                if to > from {
                    self.pool.zext(e, to)
                } else {
                    self.pool.extract(e, 0, to)
                }
            }
            CastK::BitCast => e,
            CastK::FpToSi => self.pool.fun(Op::FpToSi, e, to, 0),
            CastK::FpToUi => self.pool.fun(Op::FpToUi, e, to, 0),
            CastK::SiToFp => self.pool.fun(Op::SiToFp, e, to, 0),
            CastK::UiToFp => self.pool.fun(Op::UiToFp, e, to, 0),
            CastK::FpExt => self.pool.fun(Op::FExt, e, to, 0),
            CastK::FpTrunc => self.pool.fun(Op::FTrunc, e, to, 0),
        };
        self.val(r)
    }
    fn flat_bits(&mut self, v: &Val, ty: TyId) -> (ExprId, u16) {
        let w = self.m.scalar_width(ty);
        if w > 0 {
            return (self.ex(v, w), w);
        }
        match (self.m.tys[ty as usize].clone(), v) {
            (Ty::Vector(n, e), Val::A(vs)) => {
                let ew = self.m.scalar_width(e);
                let mut r = self.ex(&vs[0], ew);
                for i in 1..n as usize {
                    let x = self.ex(&vs[i], ew);
                    r = self.pool.concat(x, r);
                }
                (r, ew * n as u16)
            }
            _ => panic!("flat_bits"),
        }
    }
    fn unflat(&mut self, e: ExprId, ty: TyId) -> Val {
        let w = self.m.scalar_width(ty);
        if w > 0 {
            return self.val(e);
        }
        match self.m.tys[ty as usize].clone() {
            Ty::Vector(n, et) => {
                let ew = self.m.scalar_width(et);
                let mut v = vec![];
                for i in 0..n as u16 {
                    let x = self.pool.extract(e, i * ew, ew);
                    v.push(self.val(x));
                }
                Val::A(Rc::new(v))
            }
            _ => panic!("unflat"),
        }
    }

    // ----- control -----
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f;
        let base = fr.base as usize;
        let b = &f.blocks[to as usize];
        let np = b.phis.len();
        if np == 0 {
            return;
        }
        if np == 1 {
            let (d, inc) = &b.phis[0];
            let o = inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
            let v = if o.is_const() { f.consts[o.idx()].clone() } else { st.regs[base + o.idx()].clone() };
            st.regs[base + *d as usize] = v;
            return;
        }
        let mut vals: Vec<Val> = Vec::with_capacity(np);
        for (_, inc) in &b.phis {
            let o = inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
            vals.push(if o.is_const() { f.consts[o.idx()].clone() } else { st.regs[base + o.idx()].clone() });
        }
        for ((d, _), v) in b.phis.iter().zip(vals) {
            st.regs[base + *d as usize] = v;
        }
    }
    pub fn ret(&mut self, st: &mut State, v: Val) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.regs.truncate(fr.base as usize);
        st.stack_bytes -= fr.bytes;
        let top = st.next_stack;
        if top != fr.smark {
            st.stack.truncate(fr.smark, top);
            st.next_stack = fr.smark;
        }
        if st.frames.is_empty() {
            return Err(Stop::End(Outcome::Done));
        }
        self.finish_call(st, fr.dst, fr.normal, v);
        Ok(())
    }
    pub fn finish_call(&mut self, st: &mut State, dst: u32, normal: u32, v: Val) {
        let base = st.frames.last().unwrap().base;
        if dst != u32::MAX {
            st.regs[base as usize + dst as usize] = v;
        }
        if normal != u32::MAX {
            self.jump(st, normal);
        }
    }
    pub fn target(&mut self, g: u32) -> Target {
        if let Some(t) = &self.targets[g as usize] {
            return t.clone();
        }
        let t = self.classify(g);
        self.targets[g as usize] = Some(t.clone());
        t
    }
    fn classify(&mut self, g: u32) -> Target {
        let name = self.m.globals[g as usize].name.clone();
        // user-supplied stubs: sv_stub_<symbol>
        if let Some(&s) = self.m.by_name.get(format!("sv_stub_{}", name).as_str()) {
            return Target::Stub(s);
        }
        for (pat, stub) in &self.stubs {
            let hit = if let Some(sfx) = pat.strip_prefix('$') { name.ends_with(sfx) } else { name.contains(pat.as_str()) };
            if hit {
                if let Some(&s) = self.m.by_name.get(stub.as_str()) {
                    if s != g {
                        return Target::Stub(s);
                    }
                }
            }
        }
        if let Some(i) = crate::intr::Intr::from_name(&name) {
            return Target::Intr(i);
        }
        if matches!(self.m.globals[g as usize].kind, GKind::Func { body: Some(_), .. }) {
            return Target::Body;
        }
        Target::Ext(name)
    }

    /// run one state until it ends or forks
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f;
            let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
            let base = fr.base as usize;
            st.steps += 1;
            if st.steps & 0xfffff == 0 {
                if st.steps > self.step_limit {
                    return Stop::End(Outcome::Incomplete(format!("step limit in {}", f.name)));
                }
                if crate::past_deadline() {
                    return Stop::End(Outcome::Incomplete("time limit".into()));
                }
            }
            if let Some(p) = &mut self.fprof {
                *p.entry(f.gid).or_insert(0) += 1;
            }
            macro_rules! g {
                ($o:expr) => {{
                    let o = $o;
                    if o.is_const() {
                        f.consts[o.idx()].clone()
                    } else {
                        st.regs[base + o.idx()].clone()
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + *$d as usize] = v;
                    st.frames.last_mut().unwrap().ip += 1;
                }};
            }
            macro_rules! tri {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(s) => return s,
                    }
                };
            }
            match ins {
                Ins::Bin { op, dst, a, b, w } => {
                    let (x, y) = (g!(*a), g!(*b));
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        // division by zero / MIN/-1 are immediate UB: must be unreachable
                        if let Val::I(0) = y {
                            return Stop::End(Outcome::Fail("division by zero (undefined behaviour)".into()));
                        }
                    }
                    let r = self.binop(*op, &x, &y, *w);
                    set!(dst, r);
                }
                Ins::Icmp { p, dst, a, b, w } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let r = self.icmp(*p, &x, &y, *w);
                    set!(dst, r);
                }
                Ins::Fcmp { p, dst, a, b, w } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let r = self.fcmp(*p, &x, &y, *w);
                    set!(dst, r);
                }
                Ins::Cast { k, dst, a, from, to } => {
                    let x = g!(*a);
                    let r = self.cast(*k, &x, *from, *to);
                    set!(dst, r);
                }
                Ins::Select { dst, c, a, b, w } => {
                    let cv = g!(*c);
                    let r = match cv {
                        Val::I(x) => {
                            if x & 1 == 1 {
                                g!(*a)
                            } else {
                                g!(*b)
                            }
                        }
                        Val::E(ce) => {
                            let (x, y) = (g!(*a), g!(*b));
                            if *w > 0 {
                                let (xe, ye) = (self.ex(&x, *w), self.ex(&y, *w));
                                let r = self.pool.ite(ce, xe, ye);
                                self.val(r)
                            } else if tri!(self.decide(st, ce)) {
                                x
                            } else {
                                y
                            }
                        }
                        _ => panic!(),
                    };
                    set!(dst, r);
                }
                Ins::Load { dst, p, ty, w } => {
                    let pv = g!(*p);
                    let r = if *w > 0 { tri!(self.load(st, &pv, *w)) } else { tri!(self.load_ty(st, &pv, *ty)) };
                    set!(dst, r);
                }
                Ins::Store { p, v, ty, w } => {
                    let pv = g!(*p);
                    let a = tri!(self.addr(st, &pv));
                    let x = g!(*v);
                    if *w > 0 {
                        tri!(self.store_c(st, a, &x, *w));
                    } else {
                        tri!(self.store_ty(st, a, &x, *ty));
                    }
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Ins::Gep { dst, base: b, off, idx } => {
                    let mut v = g!(*b);
                    if *off != 0 {
                        v = self.binop(BinOp::Add, &v, &Val::I(*off as u64), 64);
                    }
                    for (o, iw, sc) in idx.iter() {
                        let i = g!(*o);
                        let i = if *iw < 64 { self.cast(CastK::SExt, &i, *iw, 64) } else { i };
                        let i = if *sc == 1 { i } else { self.binop(BinOp::Mul, &i, &Val::I(*sc as u64), 64) };
                        v = self.binop(BinOp::Add, &v, &i, 64);
                    }
                    set!(dst, v);
                }
                Ins::Alloca { dst, size, n } => {
                    let k = match n {
                        Some(o) => {
                            let v = g!(*o);
                            tri!(self.conc(st, &v))
                        }
                        None => 1,
                    };
                    let id = st.next_stack;
                    st.next_stack += 1;
                    st.stack.put(id, Obj::new((size * k) as usize));
                    set!(dst, Val::I((id as u64) << ADDR_SHIFT));
                }
                Ins::Br(t) => {
                    let t = *t;
                    self.jump(st, t);
                }
                Ins::CondBr(c, a, b) => {
                    let cv = g!(*c);
                    let t = match cv {
                        Val::I(x) => x & 1 == 1,
                        Val::E(e) => match self.decide(st, e) {
                            Ok(v) => v,
                            Err(s) => {
                                if let Stop::Fork(_) = s {
                                    *self.fork_sites.entry((f.gid, fr_blk(st), fr_ip(st))).or_insert(0) += 1;
                                }
                                return s;
                            }
                        },
                        _ => panic!(),
                    };
                    let to = if t { *a } else { *b };
                    self.jump(st, to);
                }
                Ins::Switch { a, w, cases, def } => {
                    let v = g!(*a);
                    let to = match v {
                        Val::I(x) => cases.iter().find(|(k, _)| *k == x).map_or(*def, |(_, t)| *t),
                        Val::E(e) => tri!(self.switch(st, e, *w, cases, *def)),
                        _ => panic!(),
                    };
                    self.jump(st, to);
                }
                Ins::Ret(v) => {
                    let r = match v {
                        Some(o) => g!(*o),
                        None => Val::I(0),
                    };
                    let caller_ip = {
                        let n = st.frames.len();
                        if n >= 2 && st.frames[n - 1].normal == u32::MAX {
                            st.frames[n - 2].ip += 1;
                        }
                    };
                    let _ = caller_ip;
                    tri!(self.ret(st, r));
                }
                Ins::Call { dst, callee, args, ret, normal, argtys } => {
                    let g = match callee {
                        Callee::Global(g) => *g,
                        Callee::Indirect(o) => {
                            let v = g!(*o);
                            let a = tri!(self.conc(st, &v));
                            let id = (a >> ADDR_SHIFT) as u32;
                            if a & 0xffff_ffff != 0 || id == 0 || id as usize > self.m.globals.len() || !matches!(self.m.globals[id as usize - 1].kind, GKind::Func { .. }) {
                                return Stop::End(Outcome::Fail(format!("call through bad pointer {:#x}", a)));
                            }
                            id - 1
                        }
                        Callee::Asm => {
                            if args.len() == 2 && matches!(self.m.tys[*ret as usize], Ty::Struct(..)) {
                                // cpuid: report no optional features
                                let z = Val::A(Rc::new(vec![Val::I(0), Val::I(0), Val::I(0), Val::I(0)]));
                                set!(dst, z);
                                continue;
                            }
                            // black_box style empty asm
                            if *dst != u32::MAX {
                                return Stop::End(Outcome::Incomplete(format!("inline asm in {}", f.name)));
                            }
                            st.frames.last_mut().unwrap().ip += 1;
                            continue;
                        }
                    };
                    let mut t = self.target(g);
                    let mut gg = g;
                    if let Target::Stub(s) = t {
                        gg = s;
                        t = Target::Body;
                    }
                    match t {
                        Target::Body => {
                            let argv: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                            let cf = self.func(gg);
                            self.used[gg as usize] = true;
                            if st.frames.len() >= self.frame_limit || st.stack_bytes + cf.frame_bytes > STACK_LIMIT_BYTES {
                                return Stop::End(Outcome::Panic(format!("stack overflow ({} frames) in {}", st.frames.len(), f.name)));
                            }
                            self.push_frame(st, cf, argv, *dst, *normal);
                        }
                        Target::Intr(i) => {
                            let argv: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                            let r = tri!(self.intrinsic(st, i, &argv, argtys, *ret));
                            self.end_call(st, *dst, *normal, r);
                        }
                        Target::Ext(name) => {
                            let argv: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                            let r = tri!(self.external(st, &name, &argv, argtys, *ret));
                            self.end_call(st, *dst, *normal, r);
                        }
                        Target::Stub(_) => unreachable!(),
                    }
                }
                Ins::Unreachable => {
                    return Stop::End(Outcome::Fail(format!("unreachable code executed in {}", f.name)));
                }
                Ins::ExtractValue { dst, a, path } => {
                    let mut v = g!(*a);
                    for i in path.iter() {
                        v = match v {
                            Val::A(vs) => vs[*i as usize].clone(),
                            _ => panic!(),
                        };
                    }
                    set!(dst, v);
                }
                Ins::InsertValue { dst, a, v, path } => {
                    let agg = g!(*a);
                    let x = g!(*v);
                    let r = insert_path(agg, &x, path);
                    set!(dst, r);
                }
                Ins::Copy { dst, a } => {
                    let v = g!(*a);
                    set!(dst, v);
                }
                Ins::FNeg { dst, a, w } => {
                    let v = g!(*a);
                    let e = self.ex(&v, *w);
                    let s = self.pool.cst(*w, 1u128 << (*w - 1));
                    let r = self.pool.bin(Op::Xor, e, s);
                    let r = self.val(r);
                    set!(dst, r);
                }
                Ins::Rmw { op, dst, p, v, w } => {
                    let pv = g!(*p);
                    let a = tri!(self.addr(st, &pv));
                    let old = tri!(self.load_c(st, a, *w));
                    let x = g!(*v);
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.binop(BinOp::Add, &old, &x, *w),
                        RmwOp::Sub => self.binop(BinOp::Sub, &old, &x, *w),
                        RmwOp::And => self.binop(BinOp::And, &old, &x, *w),
                        RmwOp::Or => self.binop(BinOp::Or, &old, &x, *w),
                        RmwOp::Xor => self.binop(BinOp::Xor, &old, &x, *w),
                        _ => {
                            let p = match op {
                                RmwOp::Max => Pred::Sgt,
                                RmwOp::Min => Pred::Slt,
                                RmwOp::UMax => Pred::Ugt,
                                _ => Pred::Ult,
                            };
                            let c = self.icmp(p, &old, &x, *w);
                            let c = self.ex(&c, 1);
                            let (o, n) = (self.ex(&old, *w), self.ex(&x, *w));
                            let r = self.pool.ite(c, o, n);
                            self.val(r)
                        }
                    };
                    tri!(self.store_c(st, a, &new, *w));
                    set!(dst, old);
                }
                Ins::CmpXchg { dst, p, c, n, w } => {
                    let pv = g!(*p);
                    let a = tri!(self.addr(st, &pv));
                    let old = tri!(self.load_c(st, a, *w));
                    let (cv, nv) = (g!(*c), g!(*n));
                    let eq = self.icmp(Pred::Eq, &old, &cv, *w);
                    let eq = self.ex(&eq, 1);
                    let ok = tri!(self.decide(st, eq));
                    if ok {
                        tri!(self.store_c(st, a, &nv, *w));
                    }
                    set!(dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                }
                Ins::Fence => {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Ins::VBin { op, dst, a, b, w } => {
                    let r = match (g!(*a), g!(*b)) {
                        (Val::A(x), Val::A(y)) => x.iter().zip(y.iter()).map(|(p, q)| self.binop(*op, p, q, *w)).collect::<Vec<_>>(),
                        _ => panic!(),
                    };
                    set!(dst, Val::A(Rc::new(r)));
                }
                Ins::VIcmp { p, dst, a, b, w } => {
                    let r = match (g!(*a), g!(*b)) {
                        (Val::A(x), Val::A(y)) => x.iter().zip(y.iter()).map(|(s, q)| self.icmp(*p, s, q, *w)).collect::<Vec<_>>(),
                        _ => panic!(),
                    };
                    set!(dst, Val::A(Rc::new(r)));
                }
                Ins::VSelect { dst, c, a, b, w, vc } => {
                    let (cv, av, bv) = (g!(*c), g!(*a), g!(*b));
                    let (x, y) = match (av, bv) {
                        (Val::A(x), Val::A(y)) => (x, y),
                        _ => panic!(),
                    };
                    let mut r = vec![];
                    for i in 0..x.len() {
                        let ce = match &cv {
                            Val::A(cs) if *vc => cs[i].clone(),
                            v => v.clone(),
                        };
                        let ce = self.ex(&ce, 1);
                        let (p, q) = (self.ex(&x[i], *w), self.ex(&y[i], *w));
                        let e = self.pool.ite(ce, p, q);
                        r.push(self.val(e));
                    }
                    set!(dst, Val::A(Rc::new(r)));
                }
                Ins::VCast { k, dst, a, from, to } => {
                    let v = g!(*a);
                    if *k == CastK::BitCast {
                        let (e, _) = self.flat_bits(&v, *from);
                        let r = self.unflat(e, *to);
                        set!(dst, r);
                    } else {
                        let (fe, te) = match (&self.m.tys[*from as usize], &self.m.tys[*to as usize]) {
                            (Ty::Vector(_, f), Ty::Vector(_, t)) => (self.m.scalar_width(*f), self.m.scalar_width(*t)),
                            _ => return Stop::End(Outcome::Incomplete("vector cast".into())),
                        };
                        let r = match v {
                            Val::A(x) => x.iter().map(|p| self.cast(*k, p, fe, te)).collect::<Vec<_>>(),
                            _ => panic!(),
                        };
                        set!(dst, Val::A(Rc::new(r)));
                    }
                }
                Ins::ExtractElement { dst, a, i } => {
                    let iv = g!(*i);
                    let k = tri!(self.conc(st, &iv));
                    let v = match g!(*a) {
                        Val::A(x) => x[k as usize].clone(),
                        _ => panic!(),
                    };
                    set!(dst, v);
                }
                Ins::InsertElement { dst, a, v, i } => {
                    let iv = g!(*i);
                    let k = tri!(self.conc(st, &iv));
                    let x = g!(*v);
                    let r = match g!(*a) {
                        Val::A(y) => {
                            let mut y = (*y).clone();
                            y[k as usize] = x;
                            Val::A(Rc::new(y))
                        }
                        _ => panic!(),
                    };
                    set!(dst, r);
                }
                Ins::Shuffle { dst, a, b, mask } => {
                    let r = match (g!(*a), g!(*b)) {
                        (Val::A(x), Val::A(y)) => {
                            let n = x.len() as i64;
                            mask.iter()
                                .map(|m| if *m < 0 { Val::I(0) } else if *m < n { x[*m as usize].clone() } else { y[(*m - n) as usize].clone() })
                                .collect::<Vec<_>>()
                        }
                        _ => panic!(),
                    };
                    set!(dst, Val::A(Rc::new(r)));
                }
                Ins::Bad(s) => return Stop::End(Outcome::Incomplete(format!("instruction {} in {}", s, f.name))),
            }
        }
    }
    fn end_call(&mut self, st: &mut State, dst: u32, normal: u32, v: Val) {
        if normal == u32::MAX {
            st.frames.last_mut().unwrap().ip += 1;
        }
        self.finish_call(st, dst, normal, v);
    }
    fn switch(&mut self, st: &State, e: ExprId, w: u16, cases: &[(u64, u32)], def: u32) -> R<u32> {
        // group case values by target block
        let mut groups: Vec<(u32, ExprId)> = vec![];
        let mut any = self.pool.cst(1, 0);
        for (k, t) in cases {
            let kc = self.pool.cst(w, *k as u128);
            let c = self.pool.eq(e, kc);
            any = self.pool.or(any, c);
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1 = self.pool.or(g.1, c),
                None => groups.push((*t, c)),
            }
        }
        let dflt = self.pool.not(any);
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => g.1 = self.pool.or(g.1, dflt),
            None => groups.push((def, dflt)),
        }
        let mut alts = vec![];
        let mut tgt = vec![];
        for (t, c) in groups {
            if let Some(k) = self.pool.as_const(c) {
                if k == 1 {
                    return Ok(t);
                }
                continue;
            }
            let neg = self.pool.not(c);
            let (p, n) = self.both(st, c, neg)?;
            if p.is_some() && n.is_none() {
                return Ok(t);
            }
            if let Some(m) = p {
                alts.push(Alt::C(c, Some(m)));
                tgt.push(t);
            }
        }
        if alts.is_empty() {
            return Err(Stop::End(Outcome::Assumed));
        }
        if alts.len() == 1 {
            return Ok(tgt[0]);
        }
        let fr = st.frames.last().unwrap();
        *self.fork_sites.entry((fr.f.gid, fr.blk, fr.ip)).or_insert(0) += alts.len() as u64 - 1;
        Err(Stop::Fork(alts))
    }

    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| f.f.name.to_string()).collect()
    }
    pub fn concrete_inputs(&mut self, st: &State, model: &[u64]) -> Vec<(String, String, Vec<u8>)> {
        let mut out = vec![];
        for (n, v) in st.inputs.iter() {
            match v {
                InVal::Bytes(es) => {
                    let b = es.iter().map(|e| self.pool.eval(*e, model).unwrap_or(0) as u8).collect();
                    out.push((n.clone(), "bytes".to_string(), b));
                }
                InVal::Word(e, w) => {
                    let x = self.pool.eval(*e, model).unwrap_or(0) as u64;
                    out.push((n.clone(), format!("u{}", w), x.to_le_bytes().to_vec()));
                }
                InVal::Choice(c) => out.push((n.clone(), "choice".to_string(), c.to_le_bytes().to_vec())),
            }
        }
        out
    }
}
fn fr_blk(st: &State) -> u32 {
    st.frames.last().unwrap().blk
}
fn fr_ip(st: &State) -> u32 {
    st.frames.last().unwrap().ip
}

fn insert_path(agg: Val, x: &Val, path: &[u32]) -> Val {
    match agg {
        Val::A(vs) => {
            let mut v = (*vs).clone();
            let i = path[0] as usize;
            if path.len() == 1 {
                v[i] = x.clone();
            } else {
                v[i] = insert_path(v[i].clone(), x, &path[1..]);
            }
            Val::A(Rc::new(v))
        }
        _ => panic!("insertvalue"),
    }
}
