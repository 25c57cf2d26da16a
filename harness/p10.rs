// Lexical scoping, closures, macros and loop variables (P10): a reference
// interpreter with by-value closures over an environment snapshot.
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    #[derive(Clone)]
    enum T { Num(i64), Var(usize), Add(Box<T>, Box<T>), Let(usize, Box<T>), Lam(usize, Box<T>), Mac(usize, Box<T>), App(Box<T>, Vec<T>), Seq(Vec<T>), For(usize, Vec<T>, Box<T>), If(usize, Box<T>, Box<T>), List(Vec<T>) }
    #[derive(Clone)]
    enum V { Int(i64), None, Clo(usize, Box<T>, Env), Mac(usize, Box<T>), List(Vec<V>) }
    type Env = Vec<Option<V>>;
    static mut FUEL: i64 = 0;
    const NAMES: [&str; 5] = ["a", "b", "f", "g", "c"];

    fn show(t: &T, o: &mut String) {
        match t {
            T::Num(i) => o.push_str(["0", "1", "5", "10"][match i { 0 => 0, 1 => 1, 5 => 2, _ => 3 }]),
            T::Var(v) => o.push_str(NAMES[*v]),
            T::Add(x, y) => { o.push('('); show(x, o); o.push_str(" + "); show(y, o); o.push(')') }
            T::Let(v, x) => { o.push_str("let "); o.push_str(NAMES[*v]); o.push_str(" = "); show(x, o) }
            T::Lam(v, b) => { o.push('('); o.push_str(NAMES[*v]); o.push_str(" -> "); show(b, o); o.push(')') }
            T::Mac(v, b) => { o.push('('); o.push_str(NAMES[*v]); o.push_str(" ~> "); show(b, o); o.push(')') }
            T::App(f, a) => { o.push('('); show(f, o); for x in a { o.push(' '); show(x, o) } o.push(')') }
            T::Seq(v) => { o.push_str("{ "); for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str("; ") } show(x, o) } o.push_str(" }") }
            T::For(v, l, b) => { o.push_str("for "); o.push_str(NAMES[*v]); o.push_str(" in "); show(&T::List(l.clone()), o); o.push(' '); show(&T::Seq(vec![(**b).clone()]), o) }
            T::If(v, x, y) => { o.push_str("if "); o.push_str(NAMES[*v]); o.push(' '); show(&T::Seq(vec![(**x).clone()]), o); o.push_str(" else "); show(&T::Seq(vec![(**y).clone()]), o) }
            T::List(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } show(x, o) } o.push(']') }
        }
    }
    // None = the program is outside the modelled language (an error or an undefined name)
    fn ev(t: &T, e: &mut Env) -> Option<V> {
        unsafe { FUEL = FUEL.wrapping_sub(1); if FUEL <= 0 { FUEL = 0; return Option::None } }
        Some(match t {
            T::Num(i) => V::Int(*i),
            T::Var(v) => return e[*v].clone(),
            T::Add(x, y) => match (ev(x, e)?, ev(y, e)?) { (V::Int(a), V::Int(b)) => V::Int(a.wrapping_add(b)), _ => return None },
            T::Let(v, x) => { let x = ev(x, e)?; e[*v] = Some(x); V::None }
            T::Lam(v, b) => V::Clo(*v, b.clone(), e.clone()),
            T::Mac(v, b) => V::Mac(*v, b.clone()),
            T::App(f, args) => {
                let mut f = ev(f, e)?;
                for a in args {
                    let x = ev(a, e)?;
                    f = match f {
                        V::Clo(v, b, mut c) => { c[v] = Some(x); ev(&b, &mut c)? }
                        V::Mac(v, b) => { e[v] = Some(x); ev(&b, e)? }
                        _ => return None,
                    };
                }
                f
            }
            T::Seq(v) => { let mut r = V::None; for x in v { r = ev(x, e)? } r }
            T::For(v, l, b) => {
                let mut items = vec![];
                for x in l { items.push(ev(x, e)?) }
                let mut r = vec![];
                for x in items { e[*v] = Some(x); r.push(ev(b, e)?) }
                V::List(r)
            }
            T::If(v, x, y) => match e[*v].clone()? { V::Int(i) => if i != 0 { ev(x, e)? } else { ev(y, e)? }, _ => return None },
            T::List(v) => { let mut r = vec![]; for x in v { r.push(ev(x, e)?) } V::List(r) }
        })
    }
    fn same(v: &V, x: &Expression) -> bool {
        match (v, x) {
            (V::Int(a), Expression::Integer(b)) => a == b,
            (V::None, Expression::None) => true,
            (V::List(a), Expression::List(b)) => {
                if a.len() != b.len() { return false }
                let mut ok = true;
                for i in 0..a.len() { ok &= same(&a[i], &b[i]) }
                ok
            }
            (V::Clo(..), Expression::Lambda(..)) | (V::Mac(..), Expression::Macro(..)) => true,
            _ => false,
        }
    }
    fn var() -> usize { sv::choose(2, "var") }
    fn b<X>(x: X) -> Box<X> { Box::new(x) }
    // simple expressions
    fn simple() -> T {
        match sv::choose(4, "expr") {
            0 => T::Num(5),
            k => if k == 1 { T::Var(0) } else if k == 2 { T::Var(1) } else { T::Add(b(T::Var(0)), b(T::Num(1))) },
        }
    }
    fn sum() -> T { T::Add(b(T::Var(0)), b(T::Var(1))) }
    fn body() -> T {
        match sv::choose(8, "body") {
            0 => sum(),
            1 => T::Seq(vec![T::Let(var(), b(T::Add(b(T::Var(var())), b(T::Num(1))))), sum()]),
            2 => T::App(b(T::Lam(var(), b(sum()))), vec![T::Var(var())]),
            3 => T::App(b(T::Mac(var(), b(sum()))), vec![T::Var(var())]),
            4 => T::Seq(vec![T::Let(3, b(T::Lam(var(), b(sum())))), T::Let(var(), b(T::Num(10))), T::App(b(T::Var(3)), vec![T::Num(1)])]),
            5 => T::Seq(vec![T::For(var(), vec![T::Var(0), T::Num(1)], b(sum())), sum()]),
            6 => T::App(b(T::Var(2)), vec![T::Var(var())]),
            _ => T::App(b(T::Lam(0, b(T::Lam(1, b(sum()))))), vec![T::Var(var()), T::Num(10)]),
        }
    }
    fn stmt() -> T {
        match sv::choose(6, "stmt") {
            0 => T::Let(var(), b(simple())),
            1 => T::Let(2, b(T::Lam(var(), b(body())))),
            2 => T::Let(2, b(T::Mac(var(), b(body())))),
            3 => T::Let(var(), b(T::App(b(T::Var(2)), vec![simple()]))),
            4 => T::For(var(), vec![simple(), T::Num(1)], b(T::Let(var(), b(simple())))),
            _ => T::If(var(), b(T::Let(var(), b(T::Num(5)))), b(T::Let(var(), b(T::Num(10))))),
        }
    }
    fn small() -> i64 { let x = sv::i64("v"); sv::assume((x > -(1 << 40)) & (x < (1 << 40))); x }
    fn go(prog: fn() -> Vec<T>) {
        let mut e = Environment::new();
        let full = cm::env();
        let prog = prog();
        e.define("+", full.get("+").unwrap());
        let (x, y) = (small(), small());
        let mut r: Env = vec![Some(V::Int(x)), Some(V::Int(y)), None, None, None];
        e.define("a", cm::int(x));
        e.define("b", cm::int(y));
        // f starts as a closure over the initial b
        let init = T::Let(2, b(T::Lam(0, b(sum()))));
        let mut t = vec![init];
        t.extend(prog);
        t.push(T::List(vec![T::Var(0), T::Var(1), T::App(b(T::Var(2)), vec![T::Num(10)]), T::Var(0), T::Var(1)]));
        let mut s = String::new();
        for (i, x) in t.iter().enumerate() { if i > 0 { s.push_str("; ") } show(x, &mut s) }
        sv::note(&s);
        sv::opaque(true);
        unsafe { FUEL = 300 }
        let w = ev(&T::Seq(t), &mut r);
        // unbounded recursion belongs to P11
        if unsafe { FUEL == 0 } { sv::reach("recursive"); return }
        let got = cm::run(&s, &mut e);
        match w {
            Some(w) => {
                sv::reach("defined");
                match got { Ok(x) => sv::assert(same(&w, &x), "the program has the lexically scoped value"), Err(_) => sv::assert(false, "a well-scoped program runs") }
                // and the environment afterwards
                for k in 0..3 { match (&r[k], e.get(NAMES[k])) { (Some(v), Some(x)) => sv::assert(same(v, &x), "each variable has the value last assigned in its scope"), (v, x) => sv::assert(v.is_none() && x.is_none(), "only names assigned in this scope are defined") } }
                sv::assert(e.get("g").is_some() == r[3].is_some(), "names assigned inside a function do not leak");
            }
            None => sv::reach("outside"),
        }
        std::mem::forget(e);
        std::mem::forget(full);
    }
    #[no_mangle] pub extern "C" fn hx_one() { go(|| vec![stmt()]) }
    #[no_mangle] pub extern "C" fn hx_two() { go(|| vec![stmt(), stmt()]) }
    // three statements: define a function, change a variable, use it
    #[no_mangle] pub extern "C" fn hx_three() {
        go(|| { let f = if sv::choose(2, "macro") == 1 { T::Mac(var(), b(body())) } else { T::Lam(var(), b(body())) };
        vec![T::Let(2, b(f)), T::Let(var(), b(simple())), T::Let(var(), b(T::App(b(T::Var(2)), vec![simple()])))] })
    }
    // higher-order functions and closures returned from functions
    fn higher(full: bool) -> Vec<T> {
        let mk = T::Let(3, b(T::Lam(var(), b(T::Lam(var(), b(body()))))));
        let (x, y) = if full { (simple(), simple()) } else { (T::Num(5), T::Var(0)) };
        vec![mk, T::Let(var(), b(x)), T::Let(2, b(T::App(b(T::Var(3)), vec![y]))), T::Let(var(), b(T::Num(10)))]
    }
    #[no_mangle] pub extern "C" fn hx_higher() { go(|| higher(false)) }
    #[no_mangle] pub extern "C" fn hx_higher_full() { go(|| higher(true)) }
    // the two-statement programs that start by defining f
    #[no_mangle] pub extern "C" fn hx_fun() {
        go(|| { let f = if sv::choose(2, "macro") == 1 { T::Mac(var(), b(body())) } else { T::Lam(var(), b(body())) };
        vec![T::Let(2, b(f)), stmt2()] })
    }
    fn stmt2() -> T {
        match sv::choose(3, "stmt2") {
            0 => T::Let(var(), b(T::App(b(T::Var(2)), vec![T::Num(5)]))),
            1 => T::For(var(), vec![T::Var(0), T::Num(1)], b(T::Let(var(), b(T::App(b(T::Var(2)), vec![T::Var(1)]))))),
            _ => T::If(var(), b(T::Let(var(), b(T::App(b(T::Var(2)), vec![T::Num(5)])))), b(T::Let(var(), b(T::Num(10))))),
        }
    }
    // a function captures the variables of its body wherever they stand in it
    const CTX: [&str; 34] = ["@", "(@)", "[1, @]", "{k = @}", "{ @; 1 }", "{ 1; @ }", "{ let q = @; q }", "if @ { 1 } else { 2 }", "if n { @ } else { 2 }", "if (n - n) { 1 } else { @ }", "if (n - n) { 1 } else { if n { @ } }", "for i in [@, 2] { i }", "for i in [1, 2] { @ }", "for i in @ to 9 { i }",
        "for i in 0 to @ { i }", "(z -> @) 1", "(z -> w -> @) 1 2", "(z ~> @) 1", "(z -> z) @", "(z -> w -> w) 1 @", "(z ~> z) @", "(@ - 1)", "(1 - @)", "n * @", "(@ == 1)", "!@", "@ && n", "[4, 5, 6]@(@)", "eval '@", "eval '(@ + n)", "{ let h = u -> @; h 1 }", "{ let h = u -> @ + u; let b = 7; h 1 }", "(if n { z -> @ } else { 1 }) 3", "[@, [@, {k = [@]}]]"];
    fn put(c: &str, x: &str) -> String {
        let mut o = String::new();
        let b = c.as_bytes();
        let mut i = 0;
        while i < b.len() { if b[i] == b'@' && !(i > 0 && b[i - 1] == b']') { o.push_str(x) } else { o.push(b[i] as char) } i += 1 }
        o
    }
    fn fixed(_: &mut Environment) -> i64 { let x = sv::i64("x"); sv::assume((x >= 0) & (x <= 2)); x }
    #[no_mangle] pub extern "C" fn hx_capture() {
        let mut e = cm::env();
        let (x, y) = (fixed(&mut e), 2);
        sv::opaque(true);
        let c = CTX[sv::choose(34, "ctx")];
        let body = put(c, "b");
        e.define("X", cm::int(x));
        e.define("Y", cm::int(y));
        // the body evaluated where b is x
        let want = cm::run(&format!("let n = 3; let b = X; {}", body), &mut e);
        let form = sv::choose(5, "form");
        let src = match form {
            0 => format!("let b = X; let f = n -> {}; let b = Y; f 3", body),
            1 => format!("let mk = b -> (n -> {}); let f = mk X; let b = Y; f 3", body),
            2 => format!("let b = X; let f = n -> {}; let g = b -> f n; let h = (m -> b -> m 3); let b = Y; (h f) Y", body),
            3 => format!("let b = X; let f = m -> (n -> {}); let b = Y; let g = f 1; let b = 9; g 3", body),
            _ => format!("let b = X; let fs = [n -> {}]; let b = Y; let call = b -> (fs@0) 3; call 9", body),
        };
        sv::note(&src);
        let got = cm::run(&src, &mut e);
        sv::reach("captured");
        match (want, got) { (Ok(a), Ok(b)) => sv::assert(same_value(&a, &b), "a function uses the values its variables had when it was defined"), (a, b) => sv::assert(a.is_err() && b.is_err(), "a function uses the values its variables had when it was defined") }
    }
    fn same_value(a: &Expression, b: &Expression) -> bool {
        match (a, b) {
            (Expression::Integer(a), Expression::Integer(b)) => a == b,
            (Expression::List(a), Expression::List(b)) => { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= same_value(&a[i], &b[i]) } r }
            (Expression::Map(a), Expression::Map(b)) => { if a.len() != b.len() { return false } let mut r = true; for (k, v) in a { r &= b.get(k).map_or(false, |w| same_value(v, w)) } r }
            (a, b) => a == b,
        }
    }
}
use h::*;
sv_harnesses!(hx_one hx_two hx_three hx_higher hx_higher_full hx_fun hx_capture);
