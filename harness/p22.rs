// Running programs (P22) and pipelines (P23).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    type B = Vec<u8>;
    fn bare() -> Env { let mut e = Environment::new(); e.set_cwd("/home/user"); std::mem::ManuallyDrop::new(e) }
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    fn sames(a: &[B], b: &[B]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= same(&a[i], &b[i]) } r }
    fn word(n: usize, name: &str) -> String { let t = sv::ascii(n, name); let mut ok = true; for c in t.bytes() { ok &= c != 0 } sv::assume(ok); t }
    fn procs() -> &'static mut Vec<os::Proc> { &mut os::get().procs }
    // ---- P22 ---------------------------------------------------------------
    /// a value, and the arguments it becomes
    fn value(k: usize, name: &str) -> (X, Vec<B>) {
        let s = |t: &str| t.as_bytes().to_vec();
        match k {
            0 => { let t = word(2, name); let w = s(&t); (X::String(t), vec![w]) }
            1 => (X::None, vec![]),
            2 => { let t = word(1, name); (X::List(vec![X::String(t.clone()), X::List(vec![X::None, cm::int(-7), X::List(vec![])]), X::String("b".into())]), vec![s(&t), s("-7"), s("b")]) }
            3 => { let t = word(2, name); let w = s(&t); (X::Bytes(w.clone()), vec![w]) }
            4 => (cm::int(0), vec![s("0")]),
            5 => (X::Boolean(true), vec![s("True")]),
            6 => (X::Symbol("-l".into()), vec![s("-l")]),
            7 => (X::String(String::new()), vec![vec![]]),
            8 => (X::Float(2.5), vec![s("2.5")]),
            9 => (X::List(vec![]), vec![]),
            10 => { let t = word(1, name); let w = s(&t); (X::Symbol(t), vec![w]) }
            11 => { let mut t = word(1, name); for _ in 0..1025 { t.push('y') } let w = s(&t); (X::String(t), vec![w]) }
            12 => { let t = word(1, name); (X::List(vec![X::Symbol(t.clone()), X::Bytes(t.clone().into_bytes()), X::List(vec![X::List(vec![X::String(String::new()), X::Boolean(false)])]), X::Float(-0.5)]), vec![s(&t), s(&t), vec![], s("False"), s("-0.5")]) }
            13 => (cm::int(i64::MIN), vec![s("-9223372036854775808")]),
            14 => { let mut t = word(1, name); t.push_str("é\u{10ffff} \n\"'"); let w = s(&t); (X::String(t), vec![w]) }
            _ => (X::List(vec![X::String("x".into()); 9]), vec![s("x"); 9]),
        }
    }
    fn args(kinds: u64) {
        let mut e = bare();
        let n = sv::choose(3, "args");
        let (mut want, names) = (vec![b"prog".to_vec()], ["a", "b"]);
        for i in 0..n { let (v, w) = value(sv::choose(kinds, "kind"), names[i]); e.define(names[i], v); for x in w { want.push(x) } }
        let tail = ["", " a", " a b"][n];
        // ways of naming the program; a call needs an argument
        let src = match sv::choose(if n == 0 { 2 } else { 6 }, "form") {
            0 => if n == 0 { "prog None".to_string() } else { format!("prog{}", tail) },
            1 => if n == 0 { "prog [None]".to_string() } else { format!("\"prog\"{}", tail) },
            2 => { e.define("p", X::String("prog".into())); format!("p{}", tail) }
            3 => { e.define("p", X::Symbol("prog".into())); format!("p{}", tail) }
            4 => format!("if True {{ prog{} }} else {{ other }}", tail),
            _ => format!("let x = prog{}; x", tail),
        };
        sv::note(&src);
        let r = cm::run(&src, &mut e);
        sv::assert(matches!(&r, Ok(X::None)), "running a program gives None");
        sv::assert(procs().len() == 1, "exactly one program is started");
        let p = &procs()[0];
        sv::assert(same(&p.file, b"prog"), "the program is the one named");
        sv::assert(sames(&p.argv, &want), "the program gets exactly the arguments, lists flattened and None left out");
        sv::assert(p.cwd.as_ref().map_or(false, |c| same(c, b"/home/user")), "the program runs in the current directory");
        sv::assert(p.waited & p.stdin.is_none() & p.stdout.is_none(), "the program has the terminal and is waited for");
        sv::reach("ran");
    }
    #[no_mangle] pub extern "C" fn hx_args() { args(16) }
    /// words as they are written in a script, and the arguments they become
    const WORDS: [(&str, &[&str]); 30] = [(".", &["."]), ("..", &[".."]), ("~", &["~"]), ("x", &["x"]), ("/", &["/"]), ("/x/y.z", &["/x/y.z"]), ("a:b", &["a:b"]), ("+x", &["+x"]), ("-x", &["-x"]), ("--long-name", &["--long-name"]),
        ("1", &["1"]), ("-1", &["-1"]), ("1.50", &["1.5"]), ("0.0", &["0"]), ("True", &["True"]), ("None", &[]), ("[]", &[]), ("[a, [c]]", &["a", "c"]), ("\"\"", &[""]), ("\" a  b \"", &[" a  b "]), ("\"\\n\\t\\\"\"", &["\n\t\""]), ("[1, 2]", &["1", "2"]), ("a.b", &["a.b"]), ("./a", &["./a"]), ("~/a", &["~/a"]),
        ("'q", &["q"]), ("(1)", &["1"]), ("{ 2 }", &["2"]), ("(x -> x) 1", &["1"]), ("\"*\"", &["*"])];
    #[no_mangle] pub extern "C" fn hx_words() {
        let mut e = bare();
        let (w, want) = WORDS[sv::choose(30, "word")];
        let (n, m) = ([0, 1, 9][sv::choose(3, "before")], sv::choose(2, "after"));
        let mut src = "prog".to_string();
        let mut all = vec![b"prog".to_vec()];
        for _ in 0..n { src.push_str(" v"); all.push(b"v".to_vec()) }
        src.push_str(" "); if w.starts_with("(x") { src.push_str("("); src.push_str(w); src.push_str(")") } else { src.push_str(w) }
        for x in want { all.push(x.as_bytes().to_vec()) }
        if m == 1 { src.push_str(" w"); all.push(b"w".to_vec()) }
        sv::note(&src);
        let r = cm::run(&src, &mut e);
        sv::assert(matches!(&r, Ok(X::None)) && procs().len() == 1, "exactly one program is started");
        sv::assert(sames(&procs()[0].argv, &all), "the program gets exactly the words written, in order");
        sv::reach("ran");
    }
    fn env_of(p: &os::Proc, name: &str) -> (usize, B) {
        let (mut n, mut v) = (0, vec![]);
        for l in &p.envp { if l.len() > name.len() && l[name.len()] == b'=' && same(&l[..name.len()], name.as_bytes()) { n += 1; v = l[name.len() + 1..].to_vec() } }
        (n, v)
    }
    #[no_mangle] pub extern "C" fn hx_env() {
        let mut e = bare();
        let t = word(2, "t");
        let size = [0, 1, 1021, 1022, 1023][sv::choose(5, "size")];
        let mut long = t.clone();
        for _ in 0..size { long.push('x') }
        e.define("long", X::String(long.clone()));
        e.define("n", cm::int(5));
        e.define("none", X::None);
        e.define("arg", X::String("q".into()));
        let form = sv::choose(7, "form");
        let src = ["prog arg", "let long = \"s\"; prog arg", "(x -> prog long) 1", "(x ~> prog long) 1", "let n = 6; (long -> prog n) t", "(x -> { let n = 7; prog n }) 1; prog n", "for n in [8] { prog arg }"][form];
        e.define("t", X::String(t.clone()));
        sv::note(src);
        let r = cm::run(src, &mut e);
        sv::assert(r.is_ok(), "the programs run");
        sv::assert(procs().len() == if form == 5 { 2 } else { 1 }, "every program is run once");
        let p = &procs()[0];
        // what the scope holds under the name, as text
        let want_long = match form { 1 => Some("s".to_string()), 4 => Some(t.clone()), 5 => Option::None, _ => Some(long.clone()) };
        let (k, v) = env_of(p, "long");
        match want_long {
            Some(w) if w.len() <= 1024 => { sv::reach("passed"); sv::assert(k == 1 && same(&v, w.as_bytes()), "a variable of the scope is in the program's environment with its text") }
            _ => { sv::reach("left out"); sv::assert(k == 0, "other variables are not in the program's environment") }
        }
        let (k, v) = env_of(p, "n");
        let want_n: Option<&[u8]> = match form { 0 | 1 | 3 => Some(b"5"), 2 => Option::None, 4 => Some(b"6"), 5 => Some(b"7"), _ => Some(b"8") };
        match want_n { Some(w) => sv::assert(k == 1 && same(&v, w), "a variable of the scope is in the program's environment with its text"), _ => sv::assert(k == 0, "other variables are not in the program's environment") }
        if form < 2 { sv::assert(env_of(p, "CWD") == (1, b"/home/user".to_vec()) && env_of(p, "none") == (1, b"None".to_vec()), "a variable of the scope is in the program's environment with its text") }
        if form == 5 { sv::assert(env_of(&procs()[1], "n") == (1, b"5".to_vec()), "a function's variables are not in later programs' environments") }
    }
    static mut START: [i32; 4] = [0; 4];
    fn start(n: usize, _: &[u8]) -> i32 { unsafe { START[n] } }
    fn mark(e: &mut Environment) { e.define_builtin("mark", |a, e| { let v = a[0].clone().eval(e)?; let mut l = match e.get("seen") { Some(X::List(l)) => l, _ => vec![] }; l.push(v.clone()); e.define("seen", X::List(l)); if let X::Integer(9) = v { return Err(Error::CustomError("nine".into())) } Ok(v) }, "") }
    #[no_mangle] pub extern "C" fn hx_fail() {
        let mut e = bare();
        let errno = sv::u32("errno") as i32;
        sv::assume((errno > 0) & (errno < 134));
        unsafe { START[0] = errno }
        os::get().start = start;
        e.define("a", X::String("x".into()));
        let form = sv::choose(3, "form");
        let src = ["prog a", "\"prog\" a 1", "(x -> prog x) a"][form];
        sv::note(src);
        let r = cm::run(src, &mut e);
        sv::assert(procs().is_empty(), "a program that cannot be started is not retried");
        let want = if errno == os::ENOENT { Error::ERROR_CODE_PROGRAM_NOT_FOUND } else if errno == os::EACCES || errno == 1 { Error::ERROR_CODE_PERMISSION_DENIED } else { Error::ERROR_CODE_COMMAND_FAILED };
        match r {
            Err(x) => {
                sv::reach("failed");
                sv::assert(x.code() == want, "the error tells why the program did not start");
                match &x { Error::ProgramNotFound(n) => sv::assert(same(n.as_bytes(), b"prog"), "the error names the program"), Error::CommandFailed(n, _) => sv::assert(same(n.as_bytes(), b"prog"), "the error names the program"), _ => () }
                std::mem::forget(x)
            }
            _ => sv::assert(false, "a program that cannot be started is an error"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_order() {
        let mut e = bare();
        mark(&mut e);
        // the argument that fails, if any
        let (a, b) = (sv::i64("a"), sv::i64("b"));
        e.define("a", cm::int(a)); e.define("b", cm::int(b));
        sv::opaque(true);
        let r = cm::run("prog (mark a) [mark b]", &mut e);
        let mut want = vec![a];
        if a != 9 { want.push(b) }
        let ok = match e.get("seen") { Some(X::List(l)) => { let mut r = l.len() == want.len(); if r { for i in 0..l.len() { r &= matches!(l[i], X::Integer(x) if x == want[i]) } } r } _ => false };
        sv::assert(ok, "the arguments are evaluated once each, in order");
        if a == 9 || b == 9 { sv::reach("failed"); sv::assert(matches!(&r, Err(x) if x.code() == 9) && procs().is_empty(), "a program whose argument fails is not started") }
        else { sv::reach("ran"); sv::assert(matches!(&r, Ok(X::None)) && procs().len() == 1, "the program is started once") }
    }
    #[no_mangle] pub extern "C" fn hx_nul() {
        // text with a NUL byte cannot be passed: an error, not a crash or a cut text
        let mut e = bare();
        let t = sv::ascii(2, "t");
        e.define("a", X::String(t.clone()));
        let r = cm::run("prog a", &mut e);
        let b = t.as_bytes();
        if b[0] == 0 || b[1] == 0 { sv::reach("nul"); sv::assert(matches!(&r, Err(x) if x.code() == Error::ERROR_CODE_COMMAND_FAILED) && procs().is_empty(), "text that cannot be an argument is an error") }
        else { sv::reach("text"); sv::assert(r.is_ok() && procs().len() == 1 && same(&procs()[0].argv[1], b), "text is passed unchanged") }
    }
    // ---- P23 ---------------------------------------------------------------
    fn pipes() -> Env {
        let full = cm::env();
        let mut e = bare();
        for n in ["|", "+", "=="] { e.define(n, full.get(n).unwrap()) }
        e
    }
    static mut OUT: Vec<B> = Vec::new();
    fn program(n: usize, _: &os::Proc) -> B { let v = unsafe { &*std::ptr::addr_of!(OUT) }; v[n].clone() }
    fn outputs(n: usize, k: u64) -> &'static Vec<B> {
        unsafe {
            let o = &mut *std::ptr::addr_of_mut!(OUT); for _ in 0..n { o.push(sv::bytes(sv::choose(k, "outlen"), "out")) }
            os::get().program = program;
            &*std::ptr::addr_of!(OUT)
        }
    }
    static mut LAZY: usize = 0;
    fn reads(n: usize) -> bool { unsafe { n != LAZY } }
    fn utf8(b: &[u8]) -> bool { std::str::from_utf8(b).is_ok() }
    /// stages: 0 a program, 1 a program with an argument, 2 a function adding "+", 3 a function keeping its argument, 4 a macro, 5 a quoted program
    const STAGE: [&str; 6] = ["prog", "prog arg", "add", "keep", "mac", "\"prog\" arg"];
    fn pipe(n: usize, stages: u64, len: u64) {
        let mut e = pipes();
        for (n, t) in [("add", "x -> x + \"+\""), ("keep", "x -> x"), ("mac", "x ~> x")] { let v = cm::run(t, &mut e).unwrap(); e.define(n, v) }
        let t = word(1, "t");
        e.define("text", X::String(t.clone())); e.define("arg", X::String("q".into()));
        os::get().start = start;
        // the first stage: a program or text
        let first = sv::choose(3, "first");
        let mut src = ["text", "prog", "prog arg"][first].to_string();
        let mut kinds = vec![];
        for _ in 1..n { let k = sv::choose(stages, "stage"); kinds.push(k); src.push_str(" | "); src.push_str(STAGE[k]) }
        let is_prog = |k: usize| k < 2 || k == 5;
        let mut np = if first > 0 { 1 } else { 0 };
        for k in &kinds { if is_prog(*k) { np += 1 } }
        // one of the programs may not start
        let bad = if np > 0 { sv::choose(np as u64 + 1, "bad") } else { 0 };
        if bad < np { unsafe { START[bad] = os::ENOENT } }
        let out = outputs(np, len);
        // a pipe holds nothing until it is read, and one of the programs ends without reading its input
        os::get().cap = 0;
        let lazy = sv::choose(np as u64 + 1, "lazy");
        unsafe { LAZY = lazy }
        os::get().reads = reads;
        sv::note(&src);
        let r = cm::run(&src, &mut e);
        // reference: the bytes handed on, and the value (None: a program at the end)
        let (mut buf, mut started, mut inputs, mut failed): (B, usize, Vec<Option<B>>, bool) = (vec![], 0, vec![], false);
        let mut bytes = false;
        let mut last_prog = false;
        if first == 0 { buf = t.as_bytes().to_vec() } else if bad == 0 { failed = true } else { inputs.push(Option::None); buf = out[0].clone(); bytes = !utf8(&buf); started = 1 }
        for (i, k) in kinds.iter().enumerate() {
            if failed { break }
            if is_prog(*k) {
                if started == bad && bad < np { failed = true; break }
                inputs.push(Some(buf.clone()));
                buf = out[started].clone();
                bytes = !utf8(&buf);
                started += 1;
                last_prog = i + 2 == n;
            } else if *k == 2 { if bytes { failed = true } else { buf.push(b'+') } }
        }
        sv::assert(procs().len() == started, "the programs of a pipeline are started once each, in order, up to the first that fails");
        for (i, p) in procs().iter().enumerate() {
            sv::assert(p.waited || failed, "every program of a pipeline is waited for");
            match &inputs[i] {
                Option::None => sv::assert(p.stdin.is_none(), "the first program reads the terminal"),
                Some(w) => sv::assert(p.stdin.is_some() && (i == lazy || same(&p.input, w)), "a program's input is exactly the output of the stage before it"),
            }
            let at_end = last_prog && i + 1 == np;
            sv::assert(p.stdout.is_none() == at_end, "only the last stage writes to the terminal");
        }
        sv::assert(!os::get().hung, "a pipeline does not wait for itself");
        sv::assert(os::open_fds() == 0, "a pipeline leaves no file open");
        match &r {
            Err(x) => { sv::reach("failed"); sv::assert(failed && x.code() == 9, "a stage that fails is an error") }
            Ok(v) => {
                sv::reach(if last_prog { "to the terminal" } else { "value" });
                sv::assert(!failed, "a stage that fails is an error");
                let ok = match v { X::None => last_prog, X::String(s) => !last_prog && !bytes && same(s.as_bytes(), &buf), X::Bytes(b) => !last_prog && bytes && same(b, &buf), _ => false };
                sv::assert(ok, "a pipeline gives what its last stage gives, bytes unchanged");
            }
        }
    }
    #[no_mangle] pub extern "C" fn hx_pipe2() { pipe(2, 6, 3) }
    #[no_mangle] pub extern "C" fn hx_pipe3() { pipe(3, 4, 2) }
    #[no_mangle] pub extern "C" fn hx_pipe3full() { pipe(3, 6, 2) }
    #[no_mangle] pub extern "C" fn hx_pipe4() { pipe(4, 4, 2) }
    #[no_mangle] pub extern "C" fn hx_values() {
        // what is not text is piped as its text; bytes as they are
        let mut e = pipes();
        let b = sv::bytes(2, "b");
        let (v, w) = match sv::choose(5, "kind") { 0 => (X::Bytes(b.clone()), b.clone()), 1 => (cm::int(-3), b"-3".to_vec()), 2 => (X::Boolean(true), b"True".to_vec()), 3 => (X::Float(2.5), b"2.5".to_vec()), _ => (X::String("two words\n".into()), b"two words\n".to_vec()) };
        e.define("v", v);
        let k = cm::run("x -> x", &mut e).unwrap(); e.define("keep", k);
        outputs(1, 1);
        let r = cm::run(["v | prog", "v | keep | prog"][sv::choose(2, "form")], &mut e);
        sv::assert(r.is_ok() && procs().len() == 1 && same(&procs()[0].input, &w), "a value is piped as its bytes or its text");
        sv::reach("piped");
    }
    #[no_mangle] pub extern "C" fn hx_pargs() {
        // a program gets the same arguments in a pipeline as outside of it
        let mut e = pipes();
        let (v, w) = value(sv::choose(16, "kind"), "a");
        e.define("a", v);
        let mut want = vec![b"prog".to_vec()];
        for x in w { want.push(x) }
        outputs(2, 1);
        let at = sv::choose(2, "at");
        let r = cm::run(["prog a | other", "other | prog a"][at], &mut e);
        sv::assert(r.is_ok() && procs().len() == 2, "the programs run");
        let p = &procs()[at];
        sv::assert(sames(&p.argv, &want), "a program gets the same arguments in a pipeline as outside of it");
        sv::assert(p.cwd.as_ref().map_or(false, |c| same(c, b"/home/user")) && env_of(p, "CWD") == (1, b"/home/user".to_vec()), "a program of a pipeline runs in the current directory with the scope's variables");
        sv::reach("ran");
    }
    #[no_mangle] pub extern "C" fn hx_fault() {
        // any system call may fail: an error or a complete pipeline, never a crash
        let mut e = pipes();
        e.define("text", X::String("ab".into()));
        let src = ["text | prog", "prog | prog", "text | prog | (x -> x) | prog", "prog arg | (x -> x)"][sv::choose(4, "form")];
        outputs(2, 2);
        let o = os::get();
        o.fail_at = sv::u32("fail_at") as u64;
        o.fail_with = [os::EIO, os::EINTR, os::EPIPE, os::EACCES][sv::choose(4, "errno")];
        if sv::choose(2, "chunk") == 1 { o.chunk = 1 }
        o.armed = true;
        sv::note(src);
        let r = cm::run(src, &mut e);
        o.armed = false;
        sv::assert(os::open_fds() == 0, "a pipeline leaves no file open");
        match r { Ok(_) => { sv::reach("value"); sv::assert(!o.failed || o.fail_with == os::EINTR || o.fail_with == os::EPIPE, "a failure is an error") } Err(_) => { sv::reach("error"); sv::assert(o.failed, "a pipeline without a failure succeeds") } }
    }
}
use h::*;
sv_harnesses!(hx_args hx_words hx_env hx_fail hx_order hx_nul hx_pipe2 hx_pipe3 hx_pipe3full hx_pipe4 hx_values hx_pargs hx_fault);
