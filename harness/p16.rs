// Every pure builtin is total: any arguments give a value or an error (P16).
include!("sv.rs");
include!("cm.inc.rs");
include!("val.inc.rs");
mod h {
    use super::*;
    use std::collections::BTreeMap;
    const CORE: [&str; 21] = ["print", "println", "echo", "debug", "report", "help", "to", "str", "int", "insert", "keys", "vals", "vars", "len", "lines", "eval", "exec", "unbind", "@", "!", "=="];
    const MODULES: [&str; 9] = ["dict", "err", "fmt", "fn", "list", "math", "ops", "parse", "string"];
    // these build as many elements as a number asks for
    const SIZED: [&str; 11] = ["to", "range", "*", "//", "%", "product", "wrap", "create", "fact", "pow", "curry"];
    // these touch files or run programs
    const OUTSIDE: [&str; 4] = ["<<", ">>", ">>>", "|"];
    // these call their argument; text in that place would name a program
    const CALLERS: [&str; 10] = ["map", "filter", "reduce", "apply", "foldl", "foldr", "try", "compose", "flip", "id"];
    fn has(l: &[&str], n: &str) -> bool { let mut r = false; for x in l { r |= *x == n } r }
    fn walk(prefix: &str, m: &BTreeMap<String, Expression>, out: &mut Vec<(String, String, Expression)>) {
        for (k, v) in m {
            if has(&OUTSIDE, k) { continue }
            match v {
                Expression::Map(m) => walk(&format!("{}@{}", prefix, k), m, out),
                Expression::Builtin(_) | Expression::Lambda(..) => out.push((prefix.to_string(), k.clone(), v.clone())),
                _ => (),
            }
        }
    }
    fn all(e: &Environment) -> Vec<(String, String, Expression)> {
        let mut out = vec![];
        for n in CORE { if let Some(v) = e.get(n) { out.push(("core".into(), n.into(), v)) } }
        for n in MODULES { if let Some(Expression::Map(m)) = e.get(n) { walk(n, &m, &mut out) } }
        out
    }
    fn arg(k: usize, name: &str, sized: bool) -> Expression {
        let mut v = match k {
            14 => cm::string("\u{e9}b"),
            15 => Expression::List(vec![Expression::List(vec![cm::string("k"), cm::int(1)]), Expression::List(vec![])]),
            16 => Expression::List(vec![cm::int(2), Expression::Float(0.5), cm::int(3)]),
            17 => Expression::Quote(Box::new(Expression::Symbol("p".into()))),
            18 => Expression::String(val::text(1, name)),
            k => val::kind(k, name),
        };
        if sized { bound(&mut v) }
        v
    }
    fn bound(v: &mut Expression) {
        match v {
            Expression::Integer(i) => *i = [-1, 0, 1, 2, 5][sv::choose(5, "small")],
            Expression::List(l) => for x in l { bound(x) },
            _ => (),
        }
    }
    fn call(f: &(String, String, Expression), args: Vec<Expression>, e: &mut Environment) {
        sv::note(&f.0); sv::note(&f.1);
        match Expression::Apply(Box::new(f.2.clone()), args).eval(e) {
            Ok(v) => { sv::reach("value"); std::mem::forget(v) }
            Err(x) => { sv::reach("error"); sv::assert(x.code() > 0, "an error has a code"); std::mem::forget(x) }
        }
    }
    fn go(n: usize, kinds: &[usize]) {
        let mut e = cm::env();
        let l = std::mem::ManuallyDrop::new(all(&e));
        sv::opaque(true);
        let f = &l[sv::choose(l.len() as u64, "builtin")];
        let sized = has(&SIZED, &f.1);
        let mut args = vec![];
        for i in 0..n {
            let k = kinds[sv::choose(kinds.len() as u64, "kind")];
            let calls = (has(&CALLERS, &f.1) && i < 2) || (n > 2 && matches!(f.2, Expression::Lambda(..)));
            if calls && (k == 3 || k == 18 || k == 11 || k == 14 || k == 17) { return }
            args.push(arg(k, "x", sized));
        }
        call(f, args, &mut e);
    }
    const ALL: [usize; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17];
    #[no_mangle] pub extern "C" fn hx_b0() { go(0, &ALL) }
    #[no_mangle] pub extern "C" fn hx_b1() { go(1, &ALL) }
    #[no_mangle] pub extern "C" fn hx_b2() { go(2, &[0, 1, 2, 5, 7, 10, 12, 14, 15, 17, 18]) }
    #[no_mangle] pub extern "C" fn hx_b3() { go(3, &[1, 10, 12, 14, 15]) }
    #[no_mangle] pub extern "C" fn hx_b2full() { go(2, &ALL) }
    #[no_mangle] pub extern "C" fn hx_b3full() { go(3, &[0, 1, 5, 7, 8, 10, 12, 14, 15, 18]) }
}
use h::*;
sv_harnesses!(hx_b0 hx_b1 hx_b2 hx_b2full hx_b3 hx_b3full);
