// The current directory and scripts (P25).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use os::Kind;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    const HOME: &str = "/home/user";
    fn shell() -> Env {
        let mut e = cm::env();
        e.set_cwd(HOME);
        os::get().cwd = "/".to_string();
        os::dir("/home/user/d"); os::dir("/home/user/d/e"); os::dir("/out"); os::file("/home/user/f", b"at home"); os::file("/home/user/d/f", b"in d"); os::file("/out/f", b"out");
        os::link("/home/user/l", "d/e"); os::link("/home/user/d/o", "/out"); os::link("/home/user/x", "none"); os::link("/home/user/lf", "f");
        e
    }
    const PATHS: [&str; 18] = ["d", "d/e", "..", ".", "/", "/out", "l", "d/o", "x", "f", "lf", "none", "f/x", "d/../d/e", "l/..", "d/", "d/none/..", "../../out"];
    fn is_string(v: Option<X>, want: &str) -> bool { matches!(v, Some(X::String(ref s)) if s.as_bytes() == want.as_bytes()) }
    fn at(base: &str, p: &str) -> Option<String> { match os::resolve(base, p, true) { Ok(q) if matches!(os::kind(&q), Some(Kind::Dir)) => Some(q), _ => Option::None } }
    fn check_at(e: &mut Env, dir: &str, os_cd: bool) {
        sv::assert(is_string(e.get("CWD"), dir) && is_string(cm::run("sys@cwd ()", e).ok(), dir), "the current directory is the one changed to, absolute and without links");
        if os_cd { sv::assert(os::get().cwd.as_bytes() == dir.as_bytes(), "the process is in the current directory too") }
        // names, functions defined before, and programs all use it
        let k = os::resolve(dir, "f", true).ok().and_then(|q| os::kind(&q));
        match k {
            Some(Kind::File(d)) => for s in ["fs@read \"f\"", "reads \"f\""] { sv::assert(matches!(cm::run(s, e), Ok(X::String(t)) if t.as_bytes() == &d[..]), "names are looked up in the current directory, by functions too") },
            _ => sv::assert(matches!(cm::run("fs@is-file? \"f\"", e), Ok(X::Boolean(false))) && cm::run("reads \"f\"", e).is_err(), "names are looked up in the current directory, by functions too"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_cd() {
        let mut e = shell();
        cm::run("let reads = x -> fs@read x", &mut e).unwrap();
        let mut dir = HOME.to_string();
        let n = 1 + sv::choose(2, "n");
        for i in 0..n {
            let p = PATHS[sv::choose(PATHS.len() as u64, "p")];
            e.define("p", X::String(p.to_string()));
            let form = if i == 0 { sv::choose(4, "form") } else { 0 };
            let r = cm::run(["cd p", "sys@cd p", "os@cd p", "let g = x -> x; cd (g p)"][form], &mut e);
            match at(&dir, p) {
                Some(q) => { sv::reach("changed"); sv::assert(matches!(r, Ok(X::None)), "changing to a directory succeeds"); dir = q; if i + 1 == n { check_at(&mut e, &dir, form != 1) } }
                _ => { sv::reach("refused"); sv::assert(r.is_err(), "changing to what is not a directory is an error"); sv::assert(is_string(e.get("CWD"), &dir), "a change that fails leaves the current directory as it was") }
            }
        }
    }
    #[no_mangle] pub extern "C" fn hx_program() {
        let full = shell();
        let mut e: Env = std::mem::ManuallyDrop::new(Environment::new());
        e.define("cd", full.get("cd").unwrap());
        e.set_cwd(HOME);
        cm::run("let go = x -> prog x", &mut e).unwrap();
        let p = PATHS[sv::choose(PATHS.len() as u64, "p")];
        e.define("p", X::String(p.to_string()));
        let r = cm::run("cd p", &mut e);
        let dir = match at(HOME, p) { Some(q) => { sv::reach("changed"); q } _ => { sv::reach("refused"); HOME.to_string() } };
        std::mem::forget(r);
        let r = cm::run(["prog 1", "go 1"][sv::choose(2, "form")], &mut e);
        let l = &os::get().procs;
        sv::assert(r.is_ok() && l.len() == 1 && l[0].cwd.as_ref().map_or(false, |c| &c[..] == dir.as_bytes()), "programs run in the current directory");
    }
    #[no_mangle] pub extern "C" fn hx_names() {
        let mut e = shell();
        cm::run("let reads = x -> fs@read x", &mut e).unwrap();
        let t = sv::ascii(1 + sv::choose(3, "n"), "t");
        let mut ok = true;
        for c in t.bytes() { ok &= c != 0 }
        sv::assume(ok);
        e.define("p", X::String(t.clone()));
        let r = cm::run("cd p", &mut e);
        match at(HOME, &t) {
            Some(q) => { sv::reach("changed"); sv::assert(r.is_ok(), "changing to a directory succeeds"); check_at(&mut e, &q, true) }
            _ => { sv::reach("refused"); sv::assert(r.is_err(), "changing to what is not a directory is an error"); sv::assert(is_string(e.get("CWD"), HOME), "a change that fails leaves the current directory as it was") }
        }
    }
    #[no_mangle] pub extern "C" fn hx_fault() {
        let mut e = shell();
        let o = os::get();
        o.fail_at = sv::u32("fail_at") as u64;
        o.fail_with = [os::EIO, os::EACCES, os::ENOTDIR, os::ENOENT][sv::choose(4, "errno")];
        let form = sv::choose(2, "form");
        o.armed = true;
        let r = cm::run(["cd \"d\"", "sys@cd \"d\""][form], &mut e);
        o.armed = false;
        if r.is_ok() { sv::reach("changed"); sv::assert(is_string(e.get("CWD"), "/home/user/d") && (form == 1 || os::get().cwd == "/home/user/d"), "a change that succeeds is complete") }
        else { sv::reach("failed"); sv::assert(o.failed && is_string(e.get("CWD"), HOME) && os::get().cwd == "/", "a change that fails leaves the current directory as it was") }
    }
    // ---- scripts -------------------------------------------------------------
    fn say(e: &mut Environment) { e.define_builtin("bad", |_, _| Err(Error::CustomError("bad".into())), "") }
    #[no_mangle] pub extern "C" fn hx_script() {
        let mut e = shell();
        say(&mut e);
        e.define("a", cm::int(70)); e.define("k", cm::int(5));
        let d = sv::u8("digit");
        sv::assume((d >= b'0') & (d <= b'9'));
        let v = (d - b'0') as i64;
        let kind = sv::choose(8, "kind");
        let text = ["let a = #; a + k", "let a = #; bad 1; let k = 6", "let a = #; let b = (", "", "let a = #; cd \"d\"; let r = fs@read \"f\"; k", "let a = #; include-it \"t\"", "let a = #; (x -> x + a) k", "let a = #; \u{80}"][kind];
        let mut b = vec![];
        for c in text.bytes() { if c == b'#' { b.push(d) } else if kind == 7 && c == 0xc2 { } else { b.push(c) } }
        let place = sv::choose(4, "place");
        let (file, name) = [("/home/user/s", "s"), ("/home/user/d/s", "d/s"), ("/out/s", "d/o/s"), ("/home/user/d/s", "l/../s")][place];
        os::file(file, &b);
        os::file("/home/user/t", b"let c = 8; c * 2");
        e.define("s", X::String(name.to_string()));
        let op = sv::choose(3, "op");
        cm::run(["let include-it = sys@include", "let include-it = sys@import", "let include-it = sys@include"][op], &mut e).unwrap();
        let r = match op { 0 => cm::run("sys@include s", &mut e), 1 => cm::run("sys@import s", &mut e), _ => super::run_file(std::path::PathBuf::from(file), &mut e) };
        let want = match kind { 0 => Some(Some(v + 5)), 3 => Some(Option::None), 4 => Some(Some(5)), 5 => Some(Some(16)), 6 => Some(Some(5 + v)), _ => Option::None };
        match (&want, &r) {
            (Some(Some(n)), Ok(X::Integer(x))) => { sv::reach("value"); sv::assert(x == n, "a script gives its last value") }
            (Some(Option::None), Ok(X::None)) => { sv::reach("empty") }
            (Option::None, Err(x)) => { sv::reach("failed"); if kind == 1 { sv::assert(x.code() == Error::ERROR_CODE_CUSTOM_ERROR, "a script that fails gives its error") } }
            _ => sv::assert(false, "a script gives its last value or its error"),
        }
        // what the script leaves behind
        let ran = kind != 2 && kind != 7 && kind != 3;
        let kept = op != 1;
        let is = |e: &Env, n: &str, w: i64| matches!(e.get(n), Some(X::Integer(x)) if x == w);
        sv::assert(is(&e, "a", if ran && kept { v } else { 70 }), if kept { "an included script's definitions are kept" } else { "an imported script changes nothing" });
        sv::assert(is(&e, "k", 5), "a script stops at its error");
        sv::assert(is_string(e.get("CWD"), if kind == 4 && kept { "/home/user/d" } else { HOME }), "only an included script changes the current directory");
        if kind == 4 { sv::assert(e.get("r").is_some() == kept, if kept { "an included script's definitions are kept" } else { "an imported script changes nothing" }) }
        if kind == 5 { sv::assert(is(&e, "c", 8) == kept, if kept { "an included script's definitions are kept" } else { "an imported script changes nothing" }) }
        sv::assert(os::open_fds() == 0, "no file is left open");
    }
    #[no_mangle] pub extern "C" fn hx_missing() {
        let mut e = shell();
        let p = PATHS[sv::choose(PATHS.len() as u64, "p")];
        sv::assume(!matches!(p, "f" | "lf"));
        e.define("p", X::String(p.to_string()));
        let r = cm::run(["sys@include p", "sys@import p"][sv::choose(2, "op")], &mut e);
        sv::assert(r.is_err() && os::open_fds() == 0, "what cannot be read as a script is an error");
        sv::reach("failed");
    }
    fn script(n: usize) {
        // a file does what its text does
        let mut e = shell();
        let mut f = shell_env(&e);
        let t = sv::ascii(n, "t");
        os::file("/home/user/s", t.as_bytes());
        let a = super::run_text(&t, &mut f);
        let b = match sv::choose(3, "op") { 0 => cm::run("sys@include \"s\"", &mut e), 1 => cm::run("sys@import \"s\"", &mut e), _ => super::run_file("/home/user/s".into(), &mut e) };
        match (&a, &b) { (Ok(x), Ok(y)) => { sv::reach("value"); sv::assert(x == y, "a file does what its text does") } (Err(_), Err(_)) => { sv::reach("failed") } _ => sv::assert(false, "a file does what its text does") }
    }
    fn shell_env(e: &Env) -> Env { e.clone() }
    #[no_mangle] pub extern "C" fn hx_text1() { script(1) }
    #[no_mangle] pub extern "C" fn hx_text2() { script(2) }
}
use h::*;
sv_harnesses!(hx_cd hx_program hx_names hx_fault hx_script hx_missing hx_text1 hx_text2);
