// Comparison and equality (P08), truthiness (P09).
include!("sv.rs");
include!("cm.inc.rs");
include!("val.inc.rs");
mod h {
    use super::*;
    use std::cmp::Ordering;
    fn holds(r: Result<Expression, Error>, want: bool, m: &str) {
        match r { Ok(Expression::Boolean(b)) => sv::assert(b == want, m), _ => sv::assert(false, "a comparison yields a boolean") }
    }
    const SRC: [&str; 6] = ["x == y", "x != y", "x < y", "x <= y", "x > y", "x >= y"];
    fn want(op: usize, x: &Expression, y: &Expression) -> bool {
        if op == 0 { return val::eq(x, y) }
        if op == 1 { return !val::eq(x, y) }
        match val::cmp(x, y) {
            None => false,
            Some(o) => match op { 2 => o == Ordering::Less, 3 => o != Ordering::Greater, 4 => o == Ordering::Greater, _ => o != Ordering::Less },
        }
    }
    // every pair of kinds, every operator
    #[no_mangle] pub extern "C" fn hx_pairs() {
        let mut e = cm::env();
        sv::opaque(true);
        let op = sv::choose(6, "op");
        let x = val::any("x");
        let y = val::any("y");
        e.define("x", x.clone());
        e.define("y", y.clone());
        sv::reach("pair");
        let w = want(op, &x, &y);
        holds(cm::run(SRC[op], &mut e), w, "the comparison has the documented value");
    }
    // lists of up to three integers and strings of up to three bytes
    #[no_mangle] pub extern "C" fn hx_seqs() {
        let mut e = cm::env();
        sv::opaque(true);
        let op = sv::choose(6, "op");
        let what = sv::choose(2, "what");
        let (n, m) = (sv::choose(4, "n"), sv::choose(4, "m"));
        let mk = |n: usize, name: &str| if what == 0 { Expression::List((0..n).map(|_| cm::int(sv::i64(name))).collect()) } else { cm::string(&sv::ascii(n, name)) };
        let (x, y) = (mk(n, "x"), mk(m, "y"));
        e.define("x", x.clone());
        e.define("y", y.clone());
        sv::reach("pair");
        let w = want(op, &x, &y);
        holds(cm::run(SRC[op], &mut e), w, "sequences compare element by element");
    }
    // laws on three integers
    #[no_mangle] pub extern "C" fn hx_laws() {
        let mut e = cm::env();
        sv::opaque(true);
        for n in ["x", "y", "z"] { e.define(n, cm::int(sv::i64(n))) }
        let mut t = |s: &str| cm::run(s, &mut e) == Ok(Expression::Boolean(true));
        let (xy, yz, xz) = (t("x < y"), t("y < z"), t("x < z"));
        sv::assert(!(xy & yz) | xz, "< is transitive");
        let (le, gt) = (t("x <= y"), t("x > y"));
        sv::assert(le != gt, "<= is the negation of > on integers");
        let (eq, ge) = (t("x == y"), t("x >= y"));
        sv::assert(eq == (le & ge), "equal exactly when neither is smaller");
        sv::reach("laws");
    }

    // truthiness means the same wherever a condition is tested
    const COND: [&str; 12] = [
        "if x 1 else 0", "if x { 1 } else { 0 }", "fn@? x 1 0",
        "x && True", "True && x", "x || False", "False || x", "! x", "! (! x)",
        "(len (fn@filter (v -> v) [x])) == 1", "(len (fn@filter (v -> v) [1, x, 0])) == 2", "fn@? (! x) 0 1",
    ];
    #[no_mangle] pub extern "C" fn hx_truthy() {
        let mut e = cm::env();
        sv::opaque(true);
        let c = sv::choose(COND.len() as u64, "context");
        let x = val::any("x");
        e.define("x", x.clone());
        let mut w = val::truthy(&x);
        // the elements of a list literal and the result of a lambda are evaluated values
        if c == 7 { w = !w }
        sv::reach("truthy");
        match cm::run(COND[c], &mut e) {
            Ok(Expression::Integer(b)) => sv::assert(b == w as i64, "the condition selects the branch its truthiness says"),
            Ok(Expression::Boolean(b)) => sv::assert(b == w, "the condition has its documented truthiness"),
            _ => sv::assert(false, "every value can be tested"),
        }
    }
    // && || and ! over several operands
    #[no_mangle] pub extern "C" fn hx_logic() {
        let mut e = cm::env();
        sv::opaque(true);
        let x = val::scalar("x");
        let y = val::scalar("y");
        let (a, b) = (val::truthy(&x), val::truthy(&y));
        e.define("x", x);
        e.define("y", y);
        let z = sv::i64("z");
        e.define("z", cm::int(z));
        let c = z != 0;
        let k = sv::choose(8, "form");
        let (s, w) = match k {
            0 => ("x && y", a & b),
            1 => ("x || y", a | b),
            2 => ("x && y || z", (a & b) | c),
            3 => ("x || y && z", (a | b) & c),
            4 => ("! (x && y)", !(a & b)),
            5 => ("x && (y || z)", a & (b | c)),
            6 => ("(! x) || (! y)", !(a & b)),
            _ => ("if (x && y) { z == 0 } else { z != 0 }", if a & b { !c } else { c }),
        };
        sv::reach("logic");
        holds(cm::run(s, &mut e), w, "boolean operators follow their truth tables");
    }
}
use h::*;
sv_harnesses!(hx_pairs hx_seqs hx_laws hx_truthy hx_logic);
