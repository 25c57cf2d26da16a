mod exec;
mod expr;
mod range;
mod intr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

static mut DEADLINE: f64 = f64::MAX;
static mut T0: Option<Instant> = None;
pub fn past_deadline() -> bool {
    unsafe {
        let t = *std::ptr::addr_of!(T0);
        t.unwrap().elapsed().as_secs_f64() > DEADLINE
    }
}

pub fn time_left_ms() -> u32 {
    unsafe {
        let t = *std::ptr::addr_of!(T0);
        let l = (DEADLINE - t.unwrap().elapsed().as_secs_f64()) * 1000.0;
        l.clamp(500.0, 600_000.0) as u32
    }
}

struct Shared {
    slots: AtomicI32,
    nviol: AtomicI32,
    paths: AtomicU64,
}

struct Worker<'a> {
    e: Engine,
    work: Vec<State>,
    sh: &'a Shared,
    kids: Vec<i32>,
    outdir: String,
    max_viol: i32,
    seen: HashMap<String, u32>,
    verbose: bool,
    samples: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

impl<'a> Worker<'a> {
    fn explore(&mut self, root: bool) {
        loop {
            let mut st = match self.work.pop() {
                Some(s) => s,
                None => break,
            };
            if self.sh.nviol.load(Ordering::Relaxed) >= self.max_viol {
                self.e.note_incomplete("stopped after the violation limit");
                break;
            }
            if past_deadline() {
                self.e.note_incomplete("time limit");
                break;
            }
            loop {
                let stop = self.e.run(&mut st);
                match stop {
                    Stop::End(o) => {
                        self.end(st, o);
                        break;
                    }
                    Stop::Fork(mut alts) => {
                        st.forks += 1;
                        self.e.stats.forks += alts.len() as u64 - 1;
                        let first = alts.remove(0);
                        for a in alts.into_iter().rev() {
                            let mut s2 = st.clone();
                            self.apply(&mut s2, a);
                            self.work.push(s2);
                        }
                        self.apply(&mut st, first);
                        self.share();
                        if self.work.is_empty() && false {
                            break;
                        }
                    }
                }
            }
        }
        if !root {
            self.finish_child();
        }
    }
    fn apply(&mut self, s: &mut State, a: Alt) {
        match a {
            Alt::C(c, m) => self.e.add(s, c, m),
            Alt::Choice(v) => s.pending_choice = Some(v),
        }
    }
    fn share(&mut self) {
        while !self.work.is_empty() && self.sh.slots.load(Ordering::Relaxed) > 0 {
            if self.sh.slots.fetch_sub(1, Ordering::SeqCst) <= 0 {
                self.sh.slots.fetch_add(1, Ordering::SeqCst);
                return;
            }
            let pid = unsafe { fork() };
            if pid < 0 {
                self.sh.slots.fetch_add(1, Ordering::SeqCst);
                return;
            }
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0); // die with the parent
                }
                self.kids.clear();
                self.e.stats = Stats::default();
                self.e.violations.clear();
                self.e.incompletes.clear();
                self.e.reached.clear();
                self.e.fork_sites.clear();
                self.samples.clear();
                if let Some(p) = &mut self.e.fprof {
                    p.clear();
                }
                self.e.z3.queries = 0;
                self.e.z3.sat = 0;
                self.e.z3.unsat = 0;
                self.e.z3.unknown = 0;
                self.e.z3.time = 0.0;
                self.e.z3.max_time = 0.0;
                let st = self.work.remove(0);
                self.work = vec![st];
                self.explore(false);
                unreachable!();
            }
            self.kids.push(pid);
            self.work.remove(0);
        }
    }
    fn end(&mut self, st: State, o: Outcome) {
        self.e.stats.instrs += st.steps;
        if st.steps > self.e.stats.max_path_steps {
            self.e.stats.max_path_steps = st.steps;
        }
        let n = self.sh.paths.fetch_add(1, Ordering::Relaxed);
        if self.verbose && n % 1000 == 0 {
            eprintln!("[{}] paths {} pending {} queries {}", unsafe { getpid() }, n, self.work.len(), self.e.z3.queries);
        }
        if self.samples.len() < 3 && matches!(o, Outcome::Done | Outcome::Exit(_)) {
            let m = st.model.clone();
            let ins = self.e.concrete_inputs(&st, &m);
            let js: Vec<String> = ins.iter().map(|(n, _, b)| format!("{{\"name\":\"{}\",\"hex\":\"{}\"}}", esc(n), hex(b))).collect();
            let s: Vec<String> = ins
                .iter()
                .map(|(n, k, b)| {
                    if k == "bytes" {
                        format!("{}={:?}", n, String::from_utf8_lossy(b))
                    } else {
                        let mut x = [0u8; 8];
                        x.copy_from_slice(&b[..8]);
                        format!("{}={}", n, i64::from_le_bytes(x))
                    }
                })
                .collect();
            self.samples.push(format!("{{\"inputs\":[{}],\"text\":\"{}\"}}", js.join(","), esc(&s.join(" "))));
        }
        let (kind, msg) = match o {
            Outcome::Done => {
                self.e.stats.paths_done += 1;
                return;
            }
            Outcome::Exit(_) => {
                self.e.stats.paths_exit += 1;
                return;
            }
            Outcome::Assumed => {
                self.e.stats.paths_assumed += 1;
                return;
            }
            Outcome::Incomplete(s) => {
                self.e.stats.paths_incomplete += 1;
                if self.verbose {
                    eprintln!("INCOMPLETE {} {:?}", s, self.e.stack_trace(&st));
                }
                self.e.note_incomplete(&s);
                return;
            }
            Outcome::Panic(s) => ("panic", s),
            Outcome::Fail(s) => ("assert", s),
        };
        self.e.stats.paths_violation += 1;
        let stack = self.e.stack_trace(&st);
        let key = if kind == "panic" { format!("{}{}", msg, stack.get(0).cloned().unwrap_or_default()) } else { msg.clone() };
        let c = self.seen.entry(key).or_insert(0);
        *c += 1;
        if *c > 2 {
            return;
        }
        self.sh.nviol.fetch_add(1, Ordering::SeqCst);
        // re-derive a model of the whole path condition with the solver
        let t = self.e.pool.cst(1, 1);
        let mut all = st.pc.clone();
        all.push(t);
        let mut set = 0;
        for c in &all {
            set = self.e.pool.union(set, self.e.pool.supp[*c as usize]);
        }
        let vars = self.e.pool.sets[set as usize].clone();
        let (r, vals) = self.e.z3.check(&self.e.pool, &all, &vars);
        let mut model = (*st.model).clone();
        match r {
            z3::Res::Sat => {
                for (v, x) in vars.iter().zip(vals) {
                    if model.len() <= *v as usize {
                        model.resize(*v as usize + 1, 0);
                    }
                    model[*v as usize] = x;
                }
            }
            z3::Res::Unsat => {
                self.e.note_incomplete("violating path found infeasible by the solver");
                return;
            }
            z3::Res::Unknown => {}
        }
        let inputs = self.e.concrete_inputs(&st, &model);
        self.e.violations.push(Violation { kind: kind.into(), msg, stack, inputs, notes: (*st.notes).clone() });
    }
    fn report(&self) -> String {
        let mut o = String::new();
        let s = &self.e.stats;
        let z = &self.e.z3;
        o.push_str(&format!(
            "S {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
            s.paths_done,
            s.paths_exit,
            s.paths_assumed,
            s.paths_violation,
            s.paths_incomplete,
            s.forks,
            s.instrs,
            s.asserts,
            s.asserts_const,
            s.asserts_smt,
            s.feas_dom,
            s.feas_model,
            s.feas_cache,
            z.queries,
            z.sat,
            z.unsat,
            z.unknown,
            (z.time * 1e6) as u64,
            (z.max_time * 1e6) as u64,
            s.max_path_steps,
            self.e.pool.nodes.len()
        ));
        for v in &self.e.violations {
            let ins: Vec<String> = v.inputs.iter().map(|(n, k, b)| format!("{{\"name\":\"{}\",\"kind\":\"{}\",\"hex\":\"{}\",\"text\":\"{}\"}}", esc(n), k, hex(b), esc(&String::from_utf8_lossy(b)))).collect();
            let stk: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            let nts: Vec<String> = v.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            o.push_str(&format!(
                "V {{\"kind\":\"{}\",\"msg\":\"{}\",\"stack\":[{}],\"inputs\":[{}],\"notes\":[{}]}}\n",
                v.kind,
                esc(&v.msg),
                stk.join(","),
                ins.join(","),
                nts.join(",")
            ));
        }
        for (k, n) in &self.e.incompletes {
            o.push_str(&format!("I {} {}\n", n, k.replace('\n', " ")));
        }
        for (k, n) in &self.e.reached {
            o.push_str(&format!("R {} {}\n", n, k.replace('\n', " ")));
        }
        for s in &self.samples {
            o.push_str(&format!("E {}\n", s.replace('\n', "\\n")));
        }
        for (i, u) in self.e.used.iter().enumerate() {
            if *u {
                o.push_str(&format!("F {}\n", self.e.m.globals[i].name));
            }
        }
        if let Some(p) = &self.e.fprof {
            for (g, n) in p {
                o.push_str(&format!("P {} {}\n", n, self.e.m.globals[*g as usize].name));
            }
            for ((g, b, i), n) in &self.e.fork_sites {
                o.push_str(&format!("K {} {}:{}:{}\n", n, self.e.m.globals[*g as usize].name, b, i));
            }
        }
        o
    }
    fn finish_child(&mut self) -> ! {
        self.reap();
        let p = format!("{}/part-{}", self.outdir, unsafe { getpid() });
        std::fs::write(&p, self.report()).unwrap();
        self.sh.slots.fetch_add(1, Ordering::SeqCst);
        // children may still run; wait so that the root sees a complete tree
        self.wait_kids();
        unsafe { _exit(0) }
    }
    fn reap(&mut self) {}
    fn wait_kids(&mut self) {
        for k in std::mem::take(&mut self.kids) {
            let mut s = 0;
            unsafe {
                waitpid(k, &mut s, 0);
            }
            if s != 0 {
                let p = format!("{}/part-dead-{}", self.outdir, k);
                let _ = std::fs::write(&p, format!("I 1 worker process {} died (status {})\n", k, s));
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir_file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut jobs = 8;
    let mut tlimit = 600.0;
    let mut qto = 20000u32;
    let mut max_viol = 20;
    let mut verbose = false;
    let mut prof = false;
    let mut trace = false;
    let mut stubs = vec![];
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ir" => ir_file = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => tlimit = nx().parse().unwrap(),
            "--query-timeout" => qto = nx().parse().unwrap(),
            "--max-violations" => max_viol = nx().parse().unwrap(),
            "--stub" => {
                let s = nx();
                let (a, b) = s.split_once('=').unwrap();
                stubs.push((a.to_string(), b.to_string()));
            }
            "-v" => {
                verbose = true;
                i += 1;
                continue;
            }
            "--prof" => {
                prof = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            s => {
                eprintln!("bad argument {}", s);
                std::process::exit(3);
            }
        }
        i += 2;
    }
    unsafe {
        *std::ptr::addr_of_mut!(T0) = Some(Instant::now());
        DEADLINE = tlimit;
    }
    let t0 = Instant::now();
    let text = std::fs::read(&ir_file).expect("read IR");
    let m = ir::Module::load(text);
    let t_load = t0.elapsed().as_secs_f64();
    let sh: &Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.slots.store(jobs - 1, Ordering::SeqCst);
    let mut e = Engine::new(m, qto);
    e.stubs = stubs;
    e.trace = trace;
    if prof {
        e.fprof = Some(HashMap::new());
    }
    let st = e.initial(&entry);
    let outdir = format!("{}.parts", out);
    let _ = std::fs::remove_dir_all(&outdir);
    std::fs::create_dir_all(&outdir).unwrap();
    let mut w = Worker { e, work: vec![st], sh, kids: vec![], outdir: outdir.clone(), max_viol, seen: HashMap::new(), verbose, samples: vec![] };
    w.explore(true);
    w.sh.slots.fetch_add(1, Ordering::SeqCst);
    w.wait_kids();
    std::fs::write(format!("{}/part-root", outdir), w.report()).unwrap();
    // merge
    let mut sums = [0u64; 21];
    let mut viol: Vec<String> = vec![];
    let mut incs: HashMap<String, u64> = HashMap::new();
    let mut reach: HashMap<String, u64> = HashMap::new();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut pr: HashMap<String, u64> = HashMap::new();
    let mut fk: HashMap<String, u64> = HashMap::new();
    let mut workers = 0;
    for f in std::fs::read_dir(&outdir).unwrap() {
        let s = String::from_utf8_lossy(&std::fs::read(f.unwrap().path()).unwrap()).to_string();
        workers += 1;
        for l in s.lines() {
            let (k, r) = match l.split_once(' ') {
                Some(x) => x,
                None => continue,
            };
            match k {
                "S" => {
                    for (i, x) in r.split(' ').enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if i == 18 || i == 19 || i == 20 {
                            sums[i] = sums[i].max(x);
                        } else {
                            sums[i] += x;
                        }
                    }
                }
                "V" => viol.push(r.to_string()),
                "I" | "R" | "P" | "K" => {
                    let (n, t) = r.split_once(' ').unwrap();
                    let m = match k {
                        "I" => &mut incs,
                        "R" => &mut reach,
                        "P" => &mut pr,
                        _ => &mut fk,
                    };
                    *m.entry(t.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "E" => {
                    if samples.len() < 40 {
                        samples.push(r.to_string())
                    }
                }
                "F" => {
                    fns.insert(r.to_string());
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&outdir);
    let mj = |m: &HashMap<String, u64>| -> String {
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by_key(|(k, n)| (std::cmp::Reverse(**n), k.to_string()));
        v.iter().map(|(k, n)| format!("\"{}\":{}", esc(k), n)).collect::<Vec<_>>().join(",")
    };
    let names = [
        "paths_done", "paths_exit", "paths_assumed", "paths_violation", "paths_incomplete", "forks", "instructions", "assertions", "assertions_folded", "assertions_smt", "feasibility_domain",
        "feasibility_model", "feasibility_cached", "smt_queries", "smt_sat", "smt_unsat", "smt_unknown", "smt_us", "smt_max_us", "max_path_steps", "expr_nodes",
    ];
    let mut j = String::from("{");
    for (n, v) in names.iter().zip(sums) {
        j.push_str(&format!("\"{}\":{},", n, v));
    }
    j.push_str(&format!("\"entry\":\"{}\",\"workers\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"solver\":\"{}\",", esc(&entry), workers, t_load, t0.elapsed().as_secs_f64(), esc(&z3::version())));
    j.push_str(&format!("\"violations\":[{}],", viol.join(",")));
    j.push_str(&format!("\"incomplete\":{{{}}},", mj(&incs)));
    j.push_str(&format!("\"reached\":{{{}}},", mj(&reach)));
    j.push_str(&format!("\"samples\":[{}],", samples.join(",")));
    j.push_str(&format!("\"functions\":[{}]", fns.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")));
    j.push('}');
    let mut f = std::fs::File::create(&out).unwrap();
    f.write_all(j.as_bytes()).unwrap();
    if prof {
        for (t, m) in [("PROFILE", &pr), ("FORKS", &fk)] {
            let mut v: Vec<_> = m.iter().collect();
            v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
            eprintln!("--- {}", t);
            for (k, n) in v.iter().take(25) {
                eprintln!("{:>12} {}", n, k);
            }
        }
    }
    let total = sums[0] + sums[1];
    eprintln!(
        "{}: {} paths ({} assumed away), {} violations, {} incomplete, {} instrs, {} asserts ({} smt), {} queries, smt {:.1}s, wall {:.1}s",
        entry,
        total,
        sums[2],
        viol.len(),
        incs.values().sum::<u64>(),
        sums[6],
        sums[7],
        sums[9],
        sums[13],
        sums[17] as f64 / 1e6,
        t0.elapsed().as_secs_f64()
    );
    let code = if !viol.is_empty() {
        1
    } else if !incs.is_empty() {
        2
    } else {
        0
    };
    unsafe { _exit(code) }
}
