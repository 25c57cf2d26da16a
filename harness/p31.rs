// An interactive session (P31).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use os::Kind;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    const HOME: &str = "/home/user";
    extern "C" { fn _exit(code: i32) -> !; fn sv_native_done() -> !; }
    static mut AT_EXIT: Option<fn(i32)> = None;
    #[no_mangle] pub unsafe extern "C" fn exit(code: i32) -> ! { end(code) }
    unsafe fn end(code: i32) -> ! { if let Some(f) = AT_EXIT { AT_EXIT = None; f(code); } sv_done(code) }
    #[no_mangle] pub unsafe extern "C" fn sv_stub_exit(code: i32) -> ! { end(code) }
    fn sv_done(code: i32) -> ! { unsafe { if sv::is_sym() { _exit(code) } else { sv_native_done() } } }
    #[no_mangle] pub unsafe extern "C" fn getenv(p: *const u8) -> *const u8 { if *p == b'H' && *p.add(1) == b'O' && *p.add(2) == b'M' && *p.add(3) == b'E' && *p.add(4) == 0 { b"/home/user\0".as_ptr() } else { std::ptr::null() } }
    #[no_mangle] pub unsafe extern "C" fn isatty(_: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn umask(_: u32) -> u32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn flock(_: i32, _: i32) -> i32 { 0 }
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    fn contains(a: &[u8], b: &[u8]) -> bool { let mut r = false; let mut i = 0; while i + b.len() <= a.len() { r |= same(&a[i..i + b.len()], b); i += 1 } r }
    const LINES: [&str; 14] = ["let a = 1", "a", "println a", "zz = 2", "let f = x -> {", "x + 1 }", "println (f 3)", "", "1 +", "2", "None", "m", "let m = c ~> println 9", "1 / 0"];
    static mut WANT: Vec<u8> = Vec::new();
    static mut KEPT: Vec<Vec<u8>> = Vec::new();
    fn ended(code: i32) {
        sv::assert(code == 0, "the session ends well at the end of its input");
        unsafe {
            #[allow(static_mut_refs)]
            let (w, k) = (&WANT, &KEPT);
            sv::assert(same(&os::get().out, w), "a session prints what its inputs print, one after another");
            if let Some(Kind::File(h)) = os::kind("/home/user/.dune-history") {
                for t in k { sv::assert(contains(&h, t), "an accepted input is in the history") }
                sv::reach("history");
            } else { sv::assert(k.len() == 0, "the history is saved") }
        }
        sv::reach("ended");
    }
    /// what one complete input prints and does
    fn step(text: &str, e: &mut Env) -> bool {
        let x = match cm::parse(text) { Ok(x) => x, Err(r) => { std::mem::forget(r); return false } };
        let show = |v: X, e: &mut Env| { let _ = X::Apply(Box::new(X::Symbol("report".into())), vec![v]).eval(e); };
        match x.eval(e) {
            Ok(X::None) => (),
            Ok(X::Symbol(s)) => { let _ = X::Apply(Box::new(X::Symbol(s)), vec![]).eval(e); }
            Ok(m @ X::Macro(..)) => { let cwd = e.get_cwd(); show(X::Apply(Box::new(m), vec![cwd.into()]), e) }
            Ok(v) => show(X::Quote(Box::new(v)), e),
            Err(_) => (),
        }
        true
    }
    fn small() -> Env {
        let all = cm::env();
        let mut e = std::mem::ManuallyDrop::new(Environment::new());
        for n in ["println", "report", "+", "/", "cd"] { if let Some(v) = all.get(n) { e.define(n, v) } }
        e.set_cwd(HOME);
        e
    }
    fn session(n: usize, lines: &[&str]) {
        let (mut e, mut f) = (small(), small());
        let mut typed = vec![];
        let mut pending = String::new();
        let mut fresh = true;
        for _ in 0..n {
            let l = lines[sv::choose(lines.len() as u64, "line")];
            typed.extend_from_slice(l.as_bytes());
            typed.push(b'\n');
            if !fresh { pending.push('\n') }
            pending.push_str(l);
            fresh = false;
            if step(&pending, &mut f) {
                unsafe { #[allow(static_mut_refs)] if pending.len() > 0 { let mut h = vec![]; for b in pending.bytes() { if b == b'\n' { h.push(b'\\'); h.push(b'n') } else { h.push(b) } } KEPT.push(h) } }
                pending = String::new(); fresh = true
            } else if l.len() == 0 { pending = String::new(); fresh = true }
        }
        unsafe { WANT = std::mem::take(&mut os::get().out); AT_EXIT = Some(ended) }
        os::get().input = typed;
        let rl = new_editor(&e);
        let e = std::mem::ManuallyDrop::into_inner(e);
        let _ = repl(Arc::new(Mutex::new(rl)), Arc::new(Mutex::new(e)));
        sv::assert(false, "a session ends only at the end of its input");
    }
    fn start(typed: Vec<u8>, e: Env) {
        os::get().input = typed;
        let rl = new_editor(&e);
        let e = std::mem::ManuallyDrop::into_inner(e);
        let _ = repl(Arc::new(Mutex::new(rl)), Arc::new(Mutex::new(e)));
        sv::assert(false, "a session ends only at the end of its input");
    }
    static mut TAIL: Vec<u8> = Vec::new();
    fn survived(code: i32) {
        sv::assert(code == 0, "the session ends well at the end of its input");
        #[allow(static_mut_refs)]
        let t = unsafe { &TAIL };
        let o = &os::get().out;
        sv::assert(o.len() >= t.len() && same(&o[o.len() - t.len()..], t), "whatever was typed, the session goes on");
        sv::reach("survived");
    }
    /// anything at all, then an empty line, then an input
    fn any(n: usize, alphabet: Option<&[u8]>) {
        let mut e = small();
        e.define("a", cm::int(5));
        let mut typed = match alphabet { Some(a) => sv::over(n, a, "typed").into_bytes(), Option::None => sv::bytes(n, "typed") };
        // beyond ASCII: the two bytes of a letter, and one that no text has
        let mut ok = true;
        for &b in &typed { ok &= b < 128 || b == 0xc3 || b == 0xa9 || b == 0xff }
        sv::assume(ok);
        typed.extend_from_slice(b"\n\nprintln a\n");
        unsafe { TAIL = b"5\n".to_vec(); AT_EXIT = Some(survived) }
        start(typed, e);
    }
    /// a text printed is the text typed
    fn text(n: usize) {
        let t = sv::bytes(n, "text");
        let mut ok = true;
        for &b in &t { ok &= b >= 32 && b < 127 && b != b'"' && b != b'\\' }
        sv::assume(ok);
        let k = sv::choose(3, "split");
        let mut typed = vec![];
        let parts: [&[u8]; 3] = [b"let a =", b"\"", b"\"\nprintln a"];
        typed.extend_from_slice(parts[0]);
        // an input may be typed on several lines
        typed.push(if k == 1 { b'\n' } else { b' ' });
        if k == 2 { typed.extend_from_slice(b"{\n") }
        typed.extend_from_slice(parts[1]);
        typed.extend_from_slice(&t);
        let mut want = t.clone();
        typed.extend_from_slice(if k == 2 { b"\"\n}\nprintln a" } else { parts[2] });
        typed.push(b'\n');
        want.push(b'\n');
        unsafe { TAIL = want; AT_EXIT = Some(survived) }
        start(typed, small());
    }
    const CMDS: [&str; 8] = ["exit 0", "ls ", "rm -ri ", "cp -r ", "head ", "tail ", "cd ", "clear"];
    fn hint(n: usize) {
        use rustyline::hint::Hinter;
        let e = cm::env();
        let h = std::mem::ManuallyDrop::new(DuneHelper { completer: FilenameCompleter::new(), hinter: HistoryHinter {}, colored_prompt: String::new(), validator: MatchingBracketValidator::new(), env: std::mem::ManuallyDrop::into_inner(e) });
        let mut hist = rustyline::history::History::new();
        hist.add("mkdir x");
        let line = std::str::from_utf8(&sv::bytes(n, "line")).map(str::to_string);
        let line = match line { Ok(l) => l, _ => return };
        if let Some(x) = h.hint(&line, line.len(), &Context::new(&hist)) {
            let mut full = line.clone();
            full.push_str(&x);
            let mut found = same(full.as_bytes(), b"mkdir x");
            for c in CMDS { found |= same(full.as_bytes(), c.as_bytes()) }
            sv::assert(found, "a hint completes the line to a command or an earlier input");
            sv::reach("hint");
        } else {
            for c in CMDS { sv::assert(n == 0 || !(c.len() >= n && same(&c.as_bytes()[..n], line.as_bytes())), "the start of a command has a hint") }
            sv::reach("none");
        }
    }
    #[no_mangle] pub extern "C" fn hx_any2() { any(2, Option::None) }
    #[no_mangle] pub extern "C" fn hx_any3() { any(3, Option::None) }
    #[no_mangle] pub extern "C" fn hx_any4() { any(4, Some(b"a1 =\"{}\n(")) }
    #[no_mangle] pub extern "C" fn hx_text1() { text(1) }
    #[no_mangle] pub extern "C" fn hx_text2() { text(2) }
    #[no_mangle] pub extern "C" fn hx_hint0() { hint(0) }
    #[no_mangle] pub extern "C" fn hx_hint1() { hint(1) }
    #[no_mangle] pub extern "C" fn hx_hint2() { hint(2) }
    #[no_mangle] pub extern "C" fn hx_hint3() { hint(3) }
    #[no_mangle] pub extern "C" fn hx_two() { session(2, &LINES) }
    #[no_mangle] pub extern "C" fn hx_three() { session(3, &LINES) }
}
use h::*;
sv_harnesses!(hx_any2 hx_any3 hx_any4 hx_text1 hx_text2 hx_hint0 hx_hint1 hx_hint2 hx_hint3 hx_two hx_three);
