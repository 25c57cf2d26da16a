// Errors: codes, messages, err@try (P12).  Order of evaluation and error
// propagation with a failure at any point (P13).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    // ---- P12 -------------------------------------------------------------
    const KINDS: [(&str, i64); 9] = [("cannot-apply", 1), ("symbol-not-defined", 2), ("command-failed", 3), ("for-non-list", 4), ("recursion-depth", 5), ("permission-denied", 6), ("program-not-found", 7), ("syntax-error", 8), ("custom-error", 9)];
    static mut WHICH: usize = 0;
    fn make(k: usize) -> Error {
        let x = || cm::int(3);
        match k {
            0 => Error::CannotApply(x(), vec![x()]),
            1 => Error::SymbolNotDefined("s".into()),
            2 => Error::CommandFailed("s".into(), vec![x()]),
            3 => Error::ForNonList(x()),
            4 => Error::RecursionDepth(x()),
            5 => Error::PermissionDenied(x()),
            6 => Error::ProgramNotFound("s".into()),
            7 => Error::SyntaxError("s".into(), dune::SyntaxError::InternalError),
            _ => Error::CustomError("msg".into()),
        }
    }
    fn fail(_: Vec<Expression>, _: &mut Environment) -> Result<Expression, Error> { Err(make(unsafe { WHICH })) }
    fn field(e: &Expression, k: &str) -> Option<Expression> { if let Expression::Map(m) = e { m.get(k).cloned() } else { Option::None } }
    fn is_int(e: Option<Expression>, n: i64) -> bool { matches!(e, Some(Expression::Integer(x)) if x == n) }
    #[no_mangle] pub extern "C" fn hx_codes() {
        let mut e = cm::env();
        let k = sv::choose(9, "kind");
        let x = sv::i64("x");
        sv::opaque(true);
        unsafe { WHICH = k }
        e.define_builtin("fail", fail, "");
        e.define("X", cm::int(x));
        let form = sv::choose(4, "form");
        let src = ["err@try (fail X) (e -> e)", "err@try (1 + (fail X)) (e ~> e)", "err@try { let y = X; fail X } (e -> e)", "let h = e -> e; err@try (err@try (fail X) (e -> fail X)) h"][form];
        let r = cm::run(src, &mut e);
        sv::reach("caught");
        match r {
            Ok(m) => {
                sv::assert(is_int(field(&m, "code"), KINDS[k].1), "the handler receives the error's documented code");
                sv::assert(is_int(e.get("err").and_then(|m| field(&m, "codes")).and_then(|m| field(&m, KINDS[k].0)), KINDS[k].1), "err@codes lists the code under the error's name");
                sv::assert(matches!(field(&m, "message"), Some(Expression::String(s)) if s == make(k).to_string() && !s.is_empty()), "the handler receives the error's message");
                let w = cm::parse(["(fail X)", "(1 + (fail X))", "{ let y = X; fail X }", "(err@try (fail X) (e -> fail X))"][form]).unwrap();
                let w = match w { Expression::Do(v) if v.len() == 1 => v[0].clone(), w => w };
                sv::assert(field(&m, "expression").map(|x| format!("{:?}", x)) == Some(format!("{:?}", w)), "the handler receives the failed expression");
            }
            Err(_) => sv::assert(false, "err@try hands the error to its handler"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_nofail() {
        let mut e = cm::env();
        let x = sv::i64("x");
        sv::opaque(true);
        e.define("X", cm::int(x));
        let (src, add) = [("err@try X (e -> 0)", 0), ("err@try (X + 1 - 1) (e -> 0)", 0), ("err@try (err@try X (e -> 1)) (e -> 2)", 0), ("let f = z -> z; err@try (f X) (nosuch)", 0)][sv::choose(4, "form")];
        if add == 0 && !src.contains('+') { sv::reach("value"); sv::assert(matches!(cm::run(src, &mut e), Ok(Expression::Integer(v)) if v == x), "without an error err@try is the value itself") }
        else { let r = cm::run(src, &mut e); if x == i64::MAX { sv::reach("caught"); sv::assert(matches!(r, Ok(Expression::Integer(0))), "an overflow is caught") } else { sv::assert(matches!(r, Ok(Expression::Integer(v)) if v == x), "without an error err@try is the value itself") } }
    }
    // Each kind of error raised by the language itself
    #[no_mangle] pub extern "C" fn hx_raised() {
        let mut e = cm::env();
        let x = sv::i64("x");
        sv::opaque(true);
        e.define("X", cm::int(x));
        let (src, code) = [("X 1", 1), ("[X] X", 1), ("{a = X} 1", 1), ("True X", 1), ("for i in X { i }", 4), ("for i in \"ab\" { i }", 4), ("let f = y ~> f y; f X", 5), ("None 1", 1), ("for i in {let y = X; y} { i }", 4), ("(y -> y y) (y -> y y)", 5)][sv::choose(10, "prog")];
        sv::note(src);
        let s = format!("err@try {{ {} }} (e -> e@code)", src);
        let r = cm::run(&s, &mut e);
        sv::reach("raised");
        sv::assert(is_int(r.ok(), code), "the raised error has its documented code");
        // uncaught, the same error comes out of the evaluation
        let r = cm::run(src, &mut e);
        sv::assert(matches!(r, Err(ref x) if x.code() == code && !x.to_string().is_empty()), "an uncaught error is the result of the evaluation");
    }
    // the handler's own error comes out, and wrong argument counts are errors
    #[no_mangle] pub extern "C" fn hx_handler() {
        let mut e = cm::env();
        let (k, l) = (sv::choose(9, "kind"), sv::choose(9, "kind2"));
        unsafe { WHICH = k }
        e.define_builtin("fail", fail, "");
        fn fail2(a: Vec<Expression>, e: &mut Environment) -> Result<Expression, Error> { if let Expression::Integer(i) = a[0].eval(e)? { Err(make(i as usize)) } else { Ok(Expression::None) } }
        e.define_builtin("fail2", fail2, "");
        e.define("L", cm::int(l as i64));
        let r = cm::run("err@try (fail ()) (e -> { let c = e@code; fail2 L })", &mut e);
        sv::reach("handler");
        sv::assert(r == Err(make(l)), "an error in the handler is the result");
        let r = cm::run("err@try (err@try (fail ()) (e -> fail2 L)) (e -> e@code)", &mut e);
        sv::assert(is_int(r.ok(), KINDS[l].1), "an enclosing err@try catches the handler's error");
        for s in ["err@try ()", "err@try 1 2 3", "err@try (fail ())"] { sv::assert(cm::run(s, &mut e).is_err(), "err@try takes exactly two arguments") }
    }
    // ---- P13 -------------------------------------------------------------
    static mut TRACE: [u8; 64] = [0; 64];
    static mut N: usize = 0;
    static mut FAIL: i64 = -1;
    static mut VALS: [i64; 4] = [0; 4];
    // t k: records k, then fails when k is the chosen point, and otherwise has the value v_k
    fn t(a: Vec<Expression>, e: &mut Environment) -> Result<Expression, Error> {
        let k = match a[0].eval(e)? { Expression::Integer(i) => i, _ => 0 };
        unsafe {
            if N < 64 { TRACE[N] = k as u8; N += 1 }
            if FAIL == k { return Err(Error::CustomError("stop".into())) }
            Ok(Expression::Integer(VALS[k as usize & 3]))
        }
    }
    #[derive(Clone)]
    enum T { Leaf(usize), List(Vec<T>), Map(Vec<T>), Do(Vec<T>), Let(Box<T>), If(Box<T>, Box<T>, Box<T>), For(Box<T>, Box<T>), Group(Box<T>), Lam(usize, Box<T>, Box<T>), Mac(usize, Box<T>, Box<T>), Lam2(Box<T>, Box<T>), Add(Box<T>, Box<T>), Eq(Box<T>, Box<T>), Quote(Box<T>), Try(Box<T>, Box<T>), Fn(Box<T>) }
    use T::*;
    #[derive(Clone)]
    enum V { I(i64), B(bool), Nil, L(Vec<V>), Quoted, Other }
    struct S { next: usize }
    fn leaf(s: &mut S) -> Box<T> { s.next += 1; Box::new(Leaf(s.next - 1)) }
    const NC: u64 = 15;
    // construct number c with fresh leaves, or `inner` in its hole number `hole`
    fn build(c: usize, s: &mut S, holes: &[(usize, usize)]) -> T {
        let id = s.next;
        let mut i = 0;
        let mut g = |s: &mut S| -> Box<T> { i += 1; if holes.len() > 0 && i - 1 == holes[0].0 { Box::new(build(holes[0].1, s, &holes[1..])) } else { leaf(s) } };
        match c {
            0 => List(vec![*g(s), *g(s), *g(s)]),
            1 => Map(vec![*g(s), *g(s)]),
            2 => Do(vec![*g(s), *g(s), *g(s)]),
            3 => Do(vec![Let(g(s)), *g(s)]),
            4 => If(g(s), g(s), g(s)),
            5 => For(Box::new(List(vec![*g(s), *g(s)])), g(s)),
            6 => Group(g(s)),
            7 => Lam(id, g(s), g(s)),
            8 => Mac(id, g(s), g(s)),
            9 => Lam2(g(s), g(s)),
            10 => Add(g(s), g(s)),
            11 => Eq(g(s), g(s)),
            12 => Quote(g(s)),
            13 => Try(g(s), g(s)),
            _ => Fn(g(s)),
        }
    }
    fn holes(c: usize) -> u64 { [3, 2, 3, 2, 3, 3, 1, 2, 2, 2, 2, 2, 1, 2, 1][c] }
    fn show(t: &T, o: &mut String) {
        fn seq(v: &[T], sep: &str, o: &mut String) { for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(sep) } show(x, o) } }
        match t {
            Leaf(k) => { o.push_str("(t "); o.push_str(["0", "1", "2", "3", "4", "5", "6", "7"][*k]); o.push(')') }
            List(v) => { o.push('['); seq(v, ", ", o); o.push(']') }
            Map(v) => { o.push('{'); for (i, x) in v.iter().enumerate() { o.push_str([" a = ", ", b = "][i]); show(x, o) } o.push('}') }
            Do(v) => { o.push_str("{ "); seq(v, "; ", o); o.push_str(" }") }
            Let(x) => { o.push_str("let q = "); show(x, o) }
            If(c, x, y) => { o.push_str("(if "); show(c, o); o.push_str(" { "); show(x, o); o.push_str(" } else { "); show(y, o); o.push_str(" })") }
            For(l, x) => { o.push_str("(for i in "); show(l, o); o.push_str(" { "); show(x, o); o.push_str(" })") }
            Group(x) => { o.push('('); show(x, o); o.push(')') }
            Lam(i, x, y) => { let p = ["p", "pa", "pb", "pc", "pd", "pe"][*i]; o.push_str("(("); o.push_str(p); o.push_str(" -> { "); show(y, o); o.push_str("; "); o.push_str(p); o.push_str(" }) "); show(x, o); o.push(')') }
            Mac(i, x, y) => { let p = ["p", "pa", "pb", "pc", "pd", "pe"][*i]; o.push_str("(("); o.push_str(p); o.push_str(" ~> { "); show(y, o); o.push_str("; "); o.push_str(p); o.push_str(" }) "); show(x, o); o.push(')') }
            Lam2(x, y) => { o.push_str("((p -> r -> r) "); show(x, o); o.push(' '); show(y, o); o.push(')') }
            Add(x, y) => { o.push('('); show(x, o); o.push_str(" + "); show(y, o); o.push(')') }
            Eq(x, y) => { o.push('('); show(x, o); o.push_str(" == "); show(y, o); o.push(')') }
            Quote(x) => { o.push_str("('"); show(x, o); o.push(')') }
            Try(x, y) => { o.push_str("(err@try "); show(x, o); o.push_str(" (e -> { "); show(y, o); o.push_str(" }))") }
            Fn(x) => { o.push_str("(p -> "); show(x, o); o.push(')') }
        }
    }
    // Err(false): the injected failure; Err(true): some other error of the program
    fn ev(t: &T, tr: &mut Vec<u8>) -> Result<V, bool> {
        Ok(match t {
            Leaf(k) => { tr.push(*k as u8); if unsafe { FAIL } == *k as i64 { return Err(false) } V::I(unsafe { VALS[*k & 3] }) }
            List(v) => { let mut r = vec![]; for x in v { r.push(ev(x, tr)?) } V::L(r) }
            Map(v) => { for x in v { ev(x, tr)?; } V::Other }
            Do(v) => { let mut r = V::Nil; for x in v { r = ev(x, tr)? } r }
            Let(x) => { ev(x, tr)?; V::Nil }
            If(c, x, y) => {
                let c = match ev(c, tr)? { V::I(i) => i != 0, V::B(b) => b, V::Nil => false, V::L(l) => !l.is_empty(), V::Quoted => false, V::Other => true };
                if c { ev(x, tr)? } else { ev(y, tr)? }
            }
            For(l, x) => match ev(l, tr)? { V::L(l) => { let mut r = vec![]; for _ in l { r.push(ev(x, tr)?) } V::L(r) } _ => return Err(true) },
            Group(x) => ev(x, tr)?,
            Lam(_, x, y) | Mac(_, x, y) => { let p = ev(x, tr)?; ev(y, tr)?; p }
            Lam2(x, y) => { ev(x, tr)?; ev(y, tr)? }
            Add(x, y) => match (ev(x, tr)?, ev(y, tr)?) { (V::I(a), V::I(b)) => V::I(a.wrapping_add(b)), (V::L(mut a), V::L(b)) => { a.extend(b); V::L(a) } _ => return Err(true) },
            Eq(x, y) => match (ev(x, tr)?, ev(y, tr)?) { (V::I(a), V::I(b)) => V::B(a == b), _ => V::Other },
            Quote(_) => V::Quoted,
            Fn(_) => V::Other,
            Try(x, y) => match ev(x, tr) { Err(_) => ev(y, tr)?, r => r? },
        })
    }
    fn same(v: &V, x: &Expression) -> bool {
        match (v, x) {
            (V::I(a), Expression::Integer(b)) => a == b,
            (V::B(a), Expression::Boolean(b)) => a == b,
            (V::Nil, x) => *x == Expression::None,
            (V::L(a), Expression::List(b)) => { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= same(&a[i], &b[i]) } r }
            (V::Other | V::Quoted, _) => true,
            _ => false,
        }
    }
    fn order(depth: usize) {
        let mut e = cm::env();
        e.define_builtin("t", t, "");
        sv::opaque(true);
        let f = sv::i64("fail");
        sv::assume((f >= -1) & (f <= 7));
        for k in 0..4 { let v = sv::i64("v"); sv::assume((v > -(1 << 40)) & (v < (1 << 40))); unsafe { VALS[k] = v } }
        let c = sv::choose(NC, "outer");
        let mut s = S { next: 0 };
        let mut hs = vec![];
        let mut o = c;
        let mut sum = false;
        for _ in 1..depth {
            let h = sv::choose(holes(o), "hole");
            let i = sv::choose(NC, "inner");
            // + and == evaluate a quoted operand once more
            sum |= o == 10 || o == 11;
            sv::assume(!(sum && i == 12));
            hs.push((h, i));
            o = i;
        }
        let tree = build(c, &mut s, &hs);
        let mut src = String::new();
        show(&tree, &mut src);
        sv::note(&src);
        unsafe { FAIL = f; N = 0 }
        let mut tr = vec![];
        let w = ev(&tree, &mut tr);
        let r = cm::run(&src, &mut e);
        unsafe {
            sv::assert(N == tr.len(), "every operand is evaluated exactly as often as the construct says, up to the failure");
            for i in 0..N.min(tr.len()) { sv::assert(TRACE[i] == tr[i], "operands are evaluated in the construct's order") }
        }
        match (w, r) {
            (Ok(v), Ok(x)) => { sv::reach("value"); sv::assert(same(&v, &x), "the construct has its documented value") }
            (Err(false), Err(x)) => { sv::reach("propagated"); sv::assert(x == Error::CustomError("stop".into()), "an error propagates unchanged") }
            (Err(true), Err(_)) => sv::reach("other error"),
            // sums and conditions over values of other kinds are P07's and P09's
            (Err(true), Ok(_)) => {}
            _ => sv::assert(false, "the evaluation fails exactly when an evaluated operand fails"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_order() { order(1) }
    #[no_mangle] pub extern "C" fn hx_order2() { order(2) }
    #[no_mangle] pub extern "C" fn hx_order3() { order(3) }
}
use h::*;
sv_harnesses!(hx_codes hx_nofail hx_raised hx_handler hx_order hx_order2 hx_order3);
