// Quoting, eval, exec and parse@expr (P14); the environment as a map (P15).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    // programs over X (an integer), s (a string), l (a list), f (a function), m (a macro)
    const PROGS: [&str; 38] = [
        "X", "X + 1", "f X", "f (f X)", "m X", "[X, f X]", "{k = X}", "if X { 1 } else { 2 }", "for i in l { i + X }", "{ let y = X; y }",
        "let y = X", "{ let X = 5; X }", "let l = [X]", "l@0", "(a -> a + X) 1", "(a ~> let z = a) X", "a -> X", "a ~> a", "'X", "'(X + 1)",
        "X == 1", "X && s", "! X", "1 to 3", "\"lit\"", "None", "X 1", "for i in X { i }", "l + [s]", "{ m X; X }",
        "unbind s", "{ let n = 3; unbind l; unbind n; X }", "let CWD = \"/\"", "{ unbind X; let X = 4 }", "let f = l", "(a ~> unbind s) 1", "eval '(let X = 3)", "exec '(unbind l)",
    ];
    fn same(a: &Expression, b: &Expression) -> bool {
        match (a, b) {
            (Expression::Integer(a), Expression::Integer(b)) => a == b,
            (Expression::List(a), Expression::List(b)) => { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= same(&a[i], &b[i]) } r }
            (Expression::Map(a), Expression::Map(b)) => { if a.len() != b.len() { return false } let mut r = true; for (k, v) in a { r &= b.get(k).map_or(false, |w| same(v, w)) } r }
            (Expression::Lambda(p, x, _), Expression::Lambda(q, y, _)) => p == q && x == y,
            (Expression::Builtin(a), Expression::Builtin(b)) => a.name == b.name,
            (a, b) => a == b,
        }
    }
    fn same_env(a: &Environment, b: &Environment) -> bool {
        if a.bindings.len() != b.bindings.len() { return false }
        let mut r = true;
        for (k, v) in &a.bindings { r &= b.bindings.get(k).map_or(false, |w| same(v, w)) }
        r
    }
    fn small() -> (std::mem::ManuallyDrop<Environment>, i64) {
        let full = cm::env();
        let mut e = Environment::new();
        for n in ["+", "==", "&&", "!", "@", "to", "unbind", "eval", "exec", "parse", "sys", "-"] { e.define(n, full.get(n).unwrap()) }
        let x = sv::i64("x");
        sv::assume((x > -(1 << 40)) & (x < (1 << 40)));
        e.define("X", cm::int(x));
        e.define("s", cm::string("str"));
        e.define("l", Expression::List(vec![cm::int(1), cm::int(2)]));
        for (n, t) in [("f", "a -> a + 1"), ("m", "a ~> { let w = a; a }")] { let v = cm::run(t, &mut e).unwrap(); e.define(n, v) }
        std::mem::forget(full);
        sv::opaque(true);
        (std::mem::ManuallyDrop::new(e), x)
    }
    fn agree(a: &Result<Expression, Error>, b: &Result<Expression, Error>) -> bool {
        match (a, b) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a.code() == b.code(), _ => false }
    }
    #[no_mangle] pub extern "C" fn hx_eval() {
        let (e, _) = small();
        let p = PROGS[sv::choose(38, "prog")];
        let (mut a, mut b) = (e.clone(), e.clone());
        let w = cm::run(p, &mut a);
        let how = sv::choose(11, "how");
        let src = match how {
            0 => format!("eval '({})", p),
            1 => format!("exec '({})", p),
            2 => format!("eval (parse@expr T)"),
            3 => format!("exec (parse@expr T)"),
            4 => format!("let q = '({}); eval q", p),
            5 => format!("let q = '({}); exec q", p),
            6 => format!("(q ~> eval q) '({})", p),
            7 => format!("eval '(eval '({}))", p),
            8 => format!("sys@eval '({})", p),
            9 => format!("sys@exec '({})", p),
            _ => format!("sys@eval (sys@parse T)"),
        };
        // a block or assignment cannot stand in parentheses as one expression in every form
        let parses = cm::parse(&src).is_ok();
        sv::assert(parses, "every expression can be quoted in parentheses");
        b.define("T", cm::string(p));
        let before = b.clone();
        let r = cm::run(&src, &mut b);
        sv::reach("quoted");
        // a quoted quote, or a block ending in one, is evaluated once less
        sv::note(&src);
        sv::assert(agree(&w, &r), "evaluating a quoted or parsed expression is evaluating the expression");
        match how {
            0 | 2 | 7 | 8 | 10 => sv::assert(same_env(&before, &b), "eval leaves the environment unchanged"),
            1 | 3 | 9 => { a.define("T", cm::string(p)); sv::assert(same_env(&a, &b), "exec changes the environment exactly as the expression does") }
            4 | 6 => { b.undefine("q"); sv::assert(same_env(&before, &b), "eval leaves the environment unchanged") }
            _ => { b.undefine("q"); a.define("T", cm::string(p)); sv::assert(same_env(&a, &b), "exec changes the environment exactly as the expression does") }
        }
    }
    fn strip(mut x: Expression) -> Expression {
        loop { x = match x { Expression::Do(ref v) if v.len() == 1 => v[0].clone(), Expression::Group(ref y) => (**y).clone(), x => return x } }
    }
    #[no_mangle] pub extern "C" fn hx_quote() {
        let (mut e, _) = small();
        let p = PROGS[sv::choose(38, "prog")];
        let before = e.clone();
        let src = match sv::choose(3, "how") { 0 => format!("'({})", p), 1 => format!("'(({}))", p), _ => format!("'({{ {} }})", p) };
        let r = cm::run(&src, &mut e);
        let w = strip(cm::parse(p).unwrap());
        sv::reach("quote");
        // every grouping inside of it is kept, too
        let mut whole = cm::parse(&src).unwrap();
        while let Expression::Do(v) = &whole { sv::assert(v.len() == 1, "a quote is one expression"); whole = v[0].clone() }
        match (&whole, &r) { (Expression::Quote(q), Ok(x)) => sv::assert(**q == *x, "a quote is the quoted expression itself, with its grouping"), _ => sv::assert(false, "a quote has a value") }
        sv::assert(matches!(r, Ok(x) if strip(x.clone()) == w), "a quote is the quoted expression itself");
        sv::assert(same_env(&before, &e), "quoting evaluates nothing");
    }
    fn parse_builtin(s: &str) {
        let (mut e, _) = small();
        e.define("T", cm::string(s));
        let r = cm::run("parse@expr T", &mut e);
        match (cm::parse(s), r) {
            (Ok(w), Ok(x)) => { sv::reach("parsed"); sv::assert(w == x || (s.is_empty() && x == Expression::None), "parse@expr is the parser") }
            (Err(_), Err(x)) => { sv::reach("error"); sv::assert(x.code() == 8, "text that does not parse is a syntax error") }
            _ => sv::assert(s.is_empty(), "parse@expr accepts exactly what the parser accepts"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_parse2() { parse_builtin(&sv::ascii(2, "src")) }
    #[no_mangle] pub extern "C" fn hx_parse3() { parse_builtin(&sv::over(3, b"x1 ;({[]})'=\"+@-", "src")) }
    // ---- P15 ---------------------------------------------------------------
    const NAMES: [&str; 4] = ["a", "b", "CWD", "ab"];
    type M = [Option<Expression>; 4];
    fn value(kinds: u64) -> Expression {
        match sv::choose(kinds, "value") { 0 => cm::int(sv::i64("x")), 1 => Expression::None, 2 => Expression::Symbol("b".into()), 3 => Expression::Quote(Box::new(Expression::Symbol("a".into()))), 4 => cm::string(""), _ => Expression::List(vec![]) }
    }
    fn agrees(a: Option<&Expression>, b: Option<&Expression>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (a, b) => a.is_none() && b.is_none() } }
    fn env_ops(n: usize, kinds: u64) {
        let mut p = Environment::new();
        let mut e = Environment::new();
        let mut pm: M = [Option::None, Option::None, Option::None, Option::None];
        let mut m: M = [Option::None, Option::None, Option::None, Option::None];
        // an optional parent scope with its own bindings
        let parent = sv::choose(2, "parent") == 1;
        if parent {
            for k in [0, 2] { let x = cm::int(sv::i64("px")); p.define(NAMES[k], x.clone()); pm[k] = Some(x) }
            e.set_parent(p.clone());
        }
        let mut cwd: Option<&str> = Option::None;
        let mut text = false;
        for _ in 0..n {
            let k = sv::choose(4, "name");
            match sv::choose(3, "op") {
                0 => { let x = value(kinds); e.define(NAMES[k], x.clone()); if k == 2 { cwd = Option::None; text = matches!(x, Expression::String(_)) } m[k] = Some(x) }
                1 => { e.undefine(NAMES[k]); m[k] = Option::None; if k == 2 { cwd = Option::None; text = false } }
                _ => if k == 0 { e.set_cwd("/tmp/x"); m[2] = Some(cm::string("/tmp/x")); cwd = Some("/tmp/x"); text = false } else { e = e.clone() },
            }
        }
        sv::reach("ops");
        for k in 0..4 {
            let want = m[k].as_ref().or(pm[k].as_ref());
            sv::assert(agrees(e.get(NAMES[k]).as_ref(), want), "a name has the value last defined in its scope, or its parent's");
            sv::assert(e.is_defined(NAMES[k]) == want.is_some(), "is_defined agrees with get");
            sv::assert(agrees(e.bindings.get(NAMES[k]), m[k].as_ref()), "the scope's own bindings are exactly its definitions");
        }
        sv::assert(e.get("zz").is_none() && e.get("").is_none(), "other names are undefined");
        if !text { sv::assert(e.get_cwd() == cwd.unwrap_or("/"), "the current directory is the one last set, or /") }
        if parent { sv::assert(agrees(p.get("a").as_ref(), pm[0].as_ref()) && p.get("b").is_none() && p.get("ab").is_none() && agrees(p.get("CWD").as_ref(), pm[2].as_ref()), "the parent scope is unchanged") }
    }
    #[no_mangle] pub extern "C" fn hx_env2() { env_ops(2, 6) }
    #[no_mangle] pub extern "C" fn hx_env3() { env_ops(3, 3) }
    #[no_mangle] pub extern "C" fn hx_env4() { env_ops(4, 1) }
    // the same from the language: let, unbind, vars, sys@set and the like
    fn lang_ops(n: usize, vals: &[&str]) {
        let full = cm::env();
        let mut e = Environment::new();
        for k in ["unbind", "vars", "eval", "exec", "len", "sys", "fn", "@"] { e.define(k, full.get(k).unwrap()) }
        let mut m: [Option<Expression>; 3] = [Option::None, Option::None, Option::None];
        const N: [&str; 3] = ["a", "b", "c"];
        let mut s = String::new();
        // Start with none of the three defined, or with all: an alias then names a variable that exists.
        let vars = e.bindings.len();
        if sv::choose(2, "defined") == 1 { for k in 0..3 { let v = cm::int(100 + k as i64); e.define(N[k], v.clone()); m[k] = Some(v) } }
        sv::opaque(true);
        for i in 0..n {
            let k = sv::choose(3, "name");
            let x = cm::int(sv::i64("x"));
            let xi = ["X0", "X1", "X2", "X3"][i];
            e.define(xi, x.clone());
            let op = sv::choose(16, "op");
            let (v, x) = if matches!(op, 0 | 3 | 4) { match vals[sv::choose(vals.len() as u64, "kind")] { "X" => (xi, x), "None" => ("None", Expression::None), "[]" => ("[]", Expression::List(vec![])), t => (t, Expression::Symbol(t[1..].into())) } } else { (xi, x) };
            let (t, eff) = match op {
                0 => (format!("let {} = {}", N[k], v), Some(Some(x))),
                1 => (format!("unbind {}", N[k]), Some(Option::None)),
                2 => (format!("unbind \"{}\"", N[k]), Some(Option::None)),
                3 => (format!("eval '(let {} = {})", N[k], v), Option::None),
                4 => (format!("exec '(let {} = {})", N[k], v), Some(Some(x))),
                5 => (format!("(u -> let {} = u) {}", N[k], v), Option::None),
                6 => (format!("(u -> unbind {}) {}", N[k], v), Option::None),
                7 => (format!("eval '(unbind {})", N[k]), Option::None),
                8 => (format!("exec '(unbind {})", N[k]), Some(Option::None)),
                9 => (format!("sys@set {} 7", N[k]), Some(Some(cm::int(7)))),
                10 => (format!("sys@unset {}", N[k]), Some(Option::None)),
                11 => (format!("sys@eval '(let {} = {})", N[k], v), Option::None),
                12 => (format!("sys@exec '(let {} = {})", N[k], v), Some(Some(x))),
                13 => (format!("for {} in [1, {}] {{ {} }}", N[k], v, N[k]), Some(Some(x))),
                14 => (format!("fn@map (u -> let {} = u) [{}]", N[k], v), Option::None),
                // a macro runs in the scope of its caller
                _ => { m[(k + 1) % 3] = Some(cm::int(1)); (format!("({} ~> let {} = {}) 1", N[(k + 1) % 3], N[k], v), Some(Some(x))) }
            };
            if let Some(x) = eff { m[k] = x }
            s.push_str(&t);
            s.push_str("; ");
        }
        let count = vars + n;
        s.push_str("[vars (), sys@env (), sys@defined? a, sys@defined? b, sys@defined? c]");
        sv::note(&s);
        let r = cm::run(&s, &mut e);
        sv::reach("vars");
        match r {
            Ok(Expression::List(l)) => {
                for t in &l[..2] {
                    if let Expression::Map(v) = t {
                        let mut n = count;
                        for k in 0..3 { sv::assert(agrees(v.get(N[k]), m[k].as_ref()), "vars lists each variable with its value, and no other"); if m[k].is_some() { n += 1 } }
                        sv::assert(v.len() == n, "vars lists exactly the defined variables");
                    } else { sv::assert(false, "vars is the table of variables") }
                }
                for k in 0..3 { sv::assert(matches!(l[k + 2], Expression::Boolean(b) if b == m[k].is_some()), "a variable is defined exactly when assigned and not unbound since") }
            }
            _ => sv::assert(false, "vars is the table of variables"),
        }
        for k in 0..3 { sv::assert(agrees(e.get(N[k]).as_ref(), m[k].as_ref()), "a variable has the value last assigned, and none when unbound since") }
    }
    #[no_mangle] pub extern "C" fn hx_lang2() { lang_ops(2, &["X", "None", "'b", "[]"]) }
    #[no_mangle] pub extern "C" fn hx_lang3() { lang_ops(3, &["X", "'b"]) }
}
use h::*;
sv_harnesses!(hx_eval hx_quote hx_parse2 hx_parse3 hx_env2 hx_env3 hx_env4 hx_lang2 hx_lang3);
