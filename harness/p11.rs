// Recursion is bounded (P11): every unbounded recursion ends in the
// recursion-depth error after at most 801 nested evaluations, a bounded one
// never does, and the error can be caught.
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    static mut TICKS: i64 = 0;
    static mut LEFT: i64 = 0;
    // counts its calls; after 820 of them the recursion counts as unbounded
    fn tick(_: Vec<Expression>, _: &mut Environment) -> Result<Expression, Error> {
        unsafe { TICKS += 1; if TICKS > 820 { return Err(Error::CustomError("unbounded".into())) } }
        Ok(Expression::Boolean(true))
    }
    // true `LEFT` times
    fn more(_: Vec<Expression>, _: &mut Environment) -> Result<Expression, Error> {
        unsafe { TICKS += 1; if LEFT > 0 { LEFT -= 1; Ok(Expression::Boolean(true)) } else { Ok(Expression::Boolean(false)) } }
    }
    // The evaluation contexts of the language itself
    const CTX: [&str; 15] = ["@", "(@)", "[@]", "[1, @, 2]", "{ @; 1 }", "{ 1; @ }", "{ let y = @; y }", "if (@) { 1 } else { 2 }", "if True { @ } else { 2 }", "if False { 2 } else { @ }",
        "for i in (@) { i }", "for i in [1] { @ }", "(z -> z) (@)", "(z ~> z) (@)", "(z -> w -> z) (@) 2"];
    // contexts that evaluate through a builtin
    const BCTX: [&str; 10] = ["1 + (@)", "(@) == 1", "(@) && True", "!(@)", "str (@)", "fn@map (n ~> @) [1]", "eval '(@)", "err@try (@) (e -> e@code)", "[1, 2]@(@)", "fmt@bold (@)"];
    fn put(c: &str, x: &str, o: &mut String) {
        let mut i = 0;
        let b = c.as_bytes();
        while i < b.len() {
            if b[i] == b'@' && (i + 1 == b.len() || !(b[i + 1] as char).is_ascii_alphabetic()) && (i == 0 || b[i - 1] == b'(' || b[i - 1] == b' ' || b[i - 1] == b'[') { o.push_str(x) } else { o.push(b[i] as char) }
            i += 1;
        }
    }
    fn wrap(c: &str, x: &str) -> String { let mut o = String::new(); put(c, x, &mut o); o }
    fn env() -> Environment {
        let mut e = Environment::new();
        let f = cm::env();
        for n in ["+", "==", "&&", "!", "str", "list", "fn", "eval", "err", "@", "fmt", "-"] { if let Some(x) = f.get(n) { e.define(n, x) } }
        e.define_builtin("tick", tick, "");
        e.define_builtin("more", more, "");
        e
    }
    fn def(kind: usize, body: &str) -> String {
        match kind {
            // a macro that calls itself in its caller's scope
            0 => format!("let f = x ~> {{ tick (); {} }}; f X", wrap(body, "f x")),
            // a function applied to itself
            1 => format!("let f = g -> {{ tick (); {} }}; f f", wrap(body, "g g")),
            // two macros that call one another
            2 => format!("let f = x ~> {{ tick (); {} }}; let h = x ~> {{ f x }}; f X", wrap(body, "h x")),
            // a function with two parameters
            _ => format!("let f = g -> v -> {{ tick (); {} }}; f f X", wrap(body, "g g v")),
        }
    }
    fn unbounded(body: &str, kind: usize, e: &mut Environment) {
        let s = def(kind, body);
        sv::note(&s);
        sv::opaque(true);
        e.define("X", Expression::Integer(sv::i64("x")));
        match cm::run(&s, e) {
            Err(Error::RecursionDepth(_)) => { sv::reach("depth"); sv::assert(unsafe { TICKS <= 801 }, "at most 801 nested calls happen before the recursion-depth error") }
            _ => sv::assert(false, "unbounded recursion ends in the recursion-depth error"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_core() {
        let mut e = env();
        let k = sv::choose(4, "kind");
        let c = CTX[sv::choose(15, "ctx")];
        unbounded(c, k, &mut e);
        std::mem::forget(e);
    }
    // two contexts inside one another
    #[no_mangle] pub extern "C" fn hx_core2() {
        let mut e = env();
        let k = sv::choose(4, "kind");
        let (c, d) = (CTX[sv::choose(15, "ctx")], CTX[sv::choose(15, "inner")]);
        let mut inner = String::from("(");
        inner.push_str(d);
        inner.push(')');
        unbounded(&wrap(c, &inner), k, &mut e);
        std::mem::forget(e);
    }
    #[no_mangle] pub extern "C" fn hx_builtin() {
        let mut e = env();
        let c = BCTX[sv::choose(10, "ctx")];
        unbounded(c, 0, &mut e);
        std::mem::forget(e);
    }
    // A recursion of at most 30 levels never meets the limit
    #[no_mangle] pub extern "C" fn hx_bounded() {
        let mut e = env();
        let n = sv::i64("n");
        sv::assume((n >= 0) & (n <= 30));
        let c = CTX[sv::choose(15, "ctx")];
        let s = format!("let f = x ~> {{ if (more ()) {{ {} }} else {{ [x] }} }}; f X", wrap(c, "f x"));
        sv::note(&s);
        unsafe { LEFT = n }
        e.define("X", Expression::Integer(7));
        let r = cm::run(&s, &mut e);
        sv::reach("bounded");
        sv::assert(!matches!(r, Err(Error::RecursionDepth(_))), "a shallow recursion does not meet the depth limit");
        sv::assert(unsafe { TICKS } == n + 1, "every level of a bounded recursion runs exactly once");
        std::mem::forget(e);
    }
    // the error can be caught, and evaluation goes on afterwards
    #[no_mangle] pub extern "C" fn hx_caught() {
        let mut e = env();
        let x = sv::i64("x");
        e.define("X", Expression::Integer(x));
        let k = sv::choose(4, "kind");
        let c = CTX[sv::choose(15, "ctx")];
        let s = def(k, c);
        let i = s.rfind(';').unwrap();
        let s = format!("{}; [err@try (Y) (e -> e@code), X]", &s[..i]).replace("Y", &s[i + 1..]);
        sv::note(&s);
        sv::opaque(true);
        match cm::run(&s, &mut e) {
            Ok(Expression::List(v)) if v.len() == 2 => {
                sv::reach("caught");
                match (&v[0], &v[1]) { (Expression::Integer(a), Expression::Integer(b)) => { sv::assert(*a == 5, "the caught error has the recursion-depth code"); sv::assert(*b == x, "evaluation goes on after the error") } _ => sv::assert(false, "err@try returns the handler's value") }
            }
            _ => sv::assert(false, "the recursion-depth error can be caught"),
        }
        std::mem::forget(e);
    }
}
use h::*;
sv_harnesses!(hx_core hx_core2 hx_builtin hx_bounded hx_caught);
