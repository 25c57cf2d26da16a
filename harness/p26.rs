// Output and the log (P26).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    type B = Vec<u8>;
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    /// what has been written to standard output
    fn out() -> B { use std::io::Write; std::io::stdout().flush().unwrap(); std::mem::take(&mut os::get().out) }
    fn value(k: usize, name: &str) -> (X, B) {
        match k {
            0 => { let t = sv::ascii(2, name); let w = t.as_bytes().to_vec(); (X::String(t), w) }
            1 => (cm::int(-70), b"-70".to_vec()),
            2 => (X::None, b"None".to_vec()),
            3 => (X::Boolean(false), b"False".to_vec()),
            4 => (X::String(String::new()), vec![]),
            5 => (X::Float(-0.25), b"-0.25".to_vec()),
            6 => (X::String("\u{e9}\u{1F600}".into()), "\u{e9}\u{1F600}".as_bytes().to_vec()),
            _ => (X::Symbol("sym".into()), b"sym".to_vec()),
        }
    }
    const NAMES: [&str; 3] = ["a", "b", "c"];
    fn print(kinds: u64, most: u64) {
        let mut e = cm::env();
        let n = 1 + sv::choose(most, "args");
        let form = sv::choose(4, "form");
        let mut src = ["print", "println", "echo", "log@echo"][form].to_string();
        let mut want = vec![];
        for i in 0..n {
            let (v, w) = value(sv::choose(kinds, "kind"), NAMES[i]);
            e.define(NAMES[i], v);
            src.push(' '); src.push_str(NAMES[i]);
            if i > 0 { want.push(b' ') }
            want.extend_from_slice(&w);
        }
        if form > 0 { want.push(b'\n') }
        let r = cm::run(&src, &mut e);
        sv::assert(matches!(r, Ok(X::None)), "printing gives None");
        sv::assert(same(&out(), &want), "every argument is printed once, in order, unchanged, with one space between");
        sv::reach("printed");
    }
    #[no_mangle] pub extern "C" fn hx_print() { print(8, 2) }
    #[no_mangle] pub extern "C" fn hx_print3() { print(8, 3) }
    fn mark(e: &mut Environment) { e.define_builtin("mark", |a, e| { let v = a[0].clone().eval(e)?; let n = match e.get("seen") { Some(X::Integer(n)) => n, _ => 0 }; if let X::Integer(x) = v { e.define("seen", cm::int(n * 10 + x)); if x == 9 { return Err(Error::CustomError("nine".into())) } } Ok(v) }, "") }
    fn seen(e: &Env) -> i64 { match e.get("seen") { Some(X::Integer(n)) => n, _ => 0 } }
    #[no_mangle] pub extern "C" fn hx_args() {
        // arguments are evaluated once each, in order, up to the first that fails
        let mut e = cm::env();
        mark(&mut e);
        let d = [1, 2, 9];
        let (a, b) = (d[sv::choose(3, "a")], d[sv::choose(3, "b")]);
        e.define("a", cm::int(a)); e.define("b", cm::int(b));
        let form = sv::choose(5, "form");
        if form == 4 { cm::run("log@set-level 3", &mut e).unwrap(); }
        let r = cm::run(["print (mark a) (mark b)", "println (mark a) (mark b)", "echo (mark a) (mark b)", "debug (mark a) (mark b)", "log@info (mark a) (mark b)"][form], &mut e);
        let o = out();
        let want = if a == 9 { a } else { a * 10 + b };
        sv::assert(seen(&e) == want, "the arguments are evaluated once each, in order");
        if a == 9 || b == 9 { sv::reach("failed"); sv::assert(matches!(&r, Err(x) if x.code() == Error::ERROR_CODE_CUSTOM_ERROR), "an argument that fails is an error") }
        else { sv::reach("printed"); sv::assert(matches!(r, Ok(X::None)), "printing gives None"); let t = format!("{} {}", a, b); let mut n = 0; for i in 0..o.len() { if i + t.len() <= o.len() && same(&o[i..i + t.len()], t.as_bytes()) { n += 1 } } sv::assert(n == 1, "every argument is printed once, in order, unchanged, with one space between") }
    }
    #[no_mangle] pub extern "C" fn hx_report() {
        let mut e = cm::env();
        let (v, mut w) = value(sv::choose(8, "kind"), "a");
        let none = matches!(v, X::None);
        e.define("a", v);
        let r = cm::run("report a", &mut e);
        if none { w.clear() } else { w.push(b'\n') }
        sv::assert(matches!(r, Ok(X::None)) && same(&out(), &w), "a result is reported once, and None not at all");
        sv::reach("reported");
    }
    const LEVELS: [(&str, i64, &[u8]); 5] = [("error", 1, b"\x1b[91m[ERROR]\x1b[m "), ("warn", 2, b"\x1b[93m[WARN]\x1b[m "), ("info", 3, b"\x1b[92m[INFO]\x1b[m "), ("debug", 4, b"\x1b[94m[DEBUG]\x1b[m "), ("trace", 5, b"\x1b[95m[TRACE]\x1b[m ")];
    #[no_mangle] pub extern "C" fn hx_level() {
        // a message is printed exactly when the level allows it
        let mut e = cm::env();
        mark(&mut e);
        let l = sv::i64("level");
        e.define("l", cm::int(l));
        let (name, at, prefix) = LEVELS[sv::choose(5, "message")];
        let how = sv::choose(3, "how");
        let l = match how { 0 => { cm::run("log@set-level l", &mut e).unwrap(); l } 1 => { sv::assert(matches!(cm::run("log@set-level l; log@disable ()", &mut e), Ok(X::None)), "disabling the log succeeds"); 0 } _ => { sv::assert(cm::run("log@set-level l; log@set-level \"x\"", &mut e).is_err(), "a level is an integer"); l } };
        sv::assert(matches!(cm::run("log@get-level ()", &mut e), Ok(X::Integer(x)) if x == l), "the level is the one last set");
        let r = cm::run(&format!("log@{} (mark 7)", name), &mut e);
        sv::assert(matches!(r, Ok(X::None)), "a message gives None");
        let o = out();
        let mut want = prefix.to_vec();
        want.extend_from_slice(b"7\n");
        if l >= at { sv::reach("enabled"); sv::assert(same(&o, &want), "a message of an enabled level is printed once, with its prefix") } else { sv::reach("disabled"); sv::assert(o.is_empty() && seen(&e) == 0, "a message of a disabled level is neither printed nor evaluated") }
        let a = sv::i64("asked");
        e.define("a", cm::int(a));
        sv::assert(matches!(cm::run("log@enabled? a", &mut e), Ok(X::Boolean(b)) if b == ((a <= 0) | (l >= a))), "enabled? tells whether messages of the level are printed");
        let c = format!("log@enabled? log@level@{}", name);
        sv::assert(matches!(cm::run(&c, &mut e), Ok(X::Boolean(b)) if b == (l >= at)), "enabled? tells whether messages of the level are printed");
    }
    #[no_mangle] pub extern "C" fn hx_message() {
        // every line of a message has the prefix; nothing of the text is lost
        let mut e = cm::env();
        cm::run("log@set-level 5", &mut e).unwrap();
        let (name, _, prefix) = LEVELS[sv::choose(5, "message")];
        let n = sv::choose(4, "n");
        let t = sv::ascii(n, "t");
        e.define("t", X::String(t.clone()));
        let two = sv::choose(2, "two") == 1;
        if two { let mut ok = true; for c in t.bytes() { ok &= c != b'\n' } sv::assume(ok) }
        let r = cm::run(&format!("log@{} t{}", name, if two { " 5" } else { "" }), &mut e);
        sv::assert(matches!(r, Ok(X::None)), "a message gives None");
        let mut o = out();
        let mut want = vec![];
        let b = t.as_bytes();
        want.extend_from_slice(prefix);
        for i in 0..b.len() { want.push(b[i]); if b[i] == b'\n' && i + 1 < b.len() { want.extend_from_slice(prefix) } }
        if two { want.extend_from_slice(b" 5") }
        // whether the last line is ended is left open
        while want.last() == Some(&b'\n') && b.last() == Some(&b'\n') && want.len() > 0 { want.pop(); break }
        if o.last() == Some(&b'\n') { o.pop(); }
        sv::assert(same(&o, &want), "every line of a message is printed once, unchanged, with the prefix");
        sv::reach("printed");
    }
}
use h::*;
sv_harnesses!(hx_print hx_print3 hx_args hx_report hx_level hx_message);
