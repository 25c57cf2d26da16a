// Builtins that reach outside the shell are total: any arguments give a value or an error (P30).
include!("sv.rs");
include!("cm.inc.rs");
include!("val.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use std::collections::BTreeMap;
    const MODULES: [&str; 8] = ["fs", "os", "sys", "log", "widget", "rand", "time", "console"];
    const SKIP: [&str; 6] = ["exit", "raw", "cooked", "read-password", "read-key", "now"];
    fn has(l: &[&str], n: &str) -> bool { let mut r = false; for x in l { r |= *x == n } r }
    fn walk(prefix: &str, m: &BTreeMap<String, Expression>, out: &mut Vec<(String, String, Expression)>) {
        for (k, v) in m {
            if has(&SKIP, k) { continue }
            match v {
                Expression::Map(m) => walk(&format!("{}@{}", prefix, k), m, out),
                Expression::Builtin(_) | Expression::Lambda(..) => out.push((prefix.to_string(), k.clone(), v.clone())),
                _ => (),
            }
        }
    }
    fn all(e: &Environment) -> Vec<(String, String, Expression)> {
        let mut out = vec![];
        for n in ["cd", ">>", "<<", ">>>"] { if let Some(v) = e.get(n) { out.push(("core".into(), n.into(), v)) } }
        for n in MODULES { if let Some(Expression::Map(m)) = e.get(n) { walk(n, &m, &mut out) } }
        out
    }
    fn arg(k: usize, name: &str, f: &str) -> Expression {
        let k = if k == 1 && f == "int" { 21 } else if k == 1 && f == "create" { 22 } else { k };
        match k {
            // a range of symbolic place and a few sizes
            23 => cm::string(&val::text(1, name)),
            21 => cm::int([i64::MIN, -1, 0, 1, i64::MAX][sv::choose(5, "end")]),
            // sizes are made of that many characters: small ones, and all that are too large
            22 => { let v = sv::i64(name); sv::assume(v < 3 || v > 65535); cm::int(v) }
            14 => cm::string("\u{e9}b"),
            15 => Expression::List(vec![cm::string("k"), cm::int(1)]),
            16 => Expression::Quote(Box::new(Expression::Symbol("p".into()))),
            17 => cm::string("f"),
            18 => cm::string("d"),
            19 => cm::string("bad"),
            20 => cm::int([-1, 0, 1, 2, 5][sv::choose(5, "small")]),
            k => val::kind(k, name),
        }
    }
    fn go(n: usize, kinds: &[usize]) { each(n, kinds, kinds, "") }
    fn each(n: usize, kinds: &[usize], sizes: &[usize], only: &str) {
        let mut e = cm::env();
        e.set_cwd("/home/user");
        let l = std::mem::ManuallyDrop::new(all(&e));
        os::file("/home/user/f", b"one\ntwo\n");
        os::file("/home/user/bad", b"a\xff\nb");
        os::dir("/home/user/d");
        os::file("/home/user/d/g", b"");
        os::get().stat_ok = true;
        os::get().input = sv::bytes(2, "typed");
        sv::opaque(true);
        let f = &l[sv::choose(l.len() as u64, "builtin")];
        let mut args = vec![];
        if only.len() > 0 && f.1 != only { return }
        for i in 0..n { let kinds = if i < 2 { kinds } else { sizes }; args.push(arg(kinds[sv::choose(kinds.len() as u64, "kind")], "x", &f.1)) }
        sv::note(&f.0); sv::note(&f.1);
        let r = Expression::Apply(Box::new(f.2.clone()), args).eval(&mut e);
        sv::assert(os::open_fds() == 0, "no file is left open");
        match r {
            Ok(v) => { sv::reach("value"); std::mem::forget(v) }
            Err(x) => { sv::reach("error"); sv::assert(x.code() > 0, "an error has a code"); std::mem::forget(x) }
        }
    }
    const ALL: [usize; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
    #[no_mangle] pub extern "C" fn hx_o0() { go(0, &ALL) }
    #[no_mangle] pub extern "C" fn hx_o1() { go(1, &ALL) }
    #[no_mangle] pub extern "C" fn hx_o2() { go(2, &[0, 1, 5, 7, 10, 14, 17, 18, 19, 20]) }
    #[no_mangle] pub extern "C" fn hx_o3() { go(3, &[1, 3, 8, 14, 17, 18, 20]) }
    #[no_mangle] pub extern "C" fn hx_o4() { each(4, &[14, 18, 23], &[1, 14, 20], "create") }
}
use h::*;
sv_harnesses!(hx_o0 hx_o1 hx_o2 hx_o3 hx_o4);
