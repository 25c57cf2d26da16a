// Integer arithmetic is exact or an error (P07); comparisons (P08); truthiness (P09).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    fn call(op: &str, args: Vec<Expression>, e: &mut Environment) -> Result<Expression, Error> {
        Expression::Apply(Box::new(Expression::Symbol(op.to_string())), args).eval(e)
    }
    fn exact(r: Result<Expression, Error>, want: Option<i64>) {
        match r {
            Ok(Expression::Integer(x)) => {
                sv::reach("value");
                match want { Some(w) => sv::assert(x == w, "the result is the exact integer"), None => sv::assert(false, "a result that does not fit, or a division by zero, is an error") }
            }
            Ok(_) => sv::assert(false, "integer arithmetic yields an integer"),
            Err(_) => { sv::reach("error"); sv::assert(want.is_none(), "a result that fits is not an error") }
        }
    }
    fn reference(op: usize, a: i64, b: i64) -> Option<i64> {
        match op {
            0 => a.checked_add(b),
            1 => a.checked_sub(b),
            2 => a.checked_mul(b),
            3 => a.checked_div(b),
            _ => a.checked_rem(b),
        }
    }
    const OPS: [&str; 5] = ["+", "-", "*", "//", "%"];
    #[no_mangle] pub extern "C" fn hx_int2() {
        let mut e = cm::env();
        sv::opaque(true);
        let op = sv::choose(5, "op");
        let (a, b) = (sv::i64("a"), sv::i64("b"));
        let r = call(OPS[op], vec![cm::int(a), cm::int(b)], &mut e);
        exact(r, reference(op, a, b));
    }
    // through source text and variables
    #[no_mangle] pub extern "C" fn hx_int_src() {
        let mut e = cm::env();
        sv::opaque(true);
        let op = sv::choose(5, "op");
        let (a, b) = (sv::i64("a"), sv::i64("b"));
        e.define("a", cm::int(a));
        e.define("b", cm::int(b));
        let src = ["a + b", "a - b", "a * b", "a // b", "a % b"][op];
        exact(cm::run(src, &mut e), reference(op, a, b));
        sv::assert(e.get("a") == Some(cm::int(a)) && e.get("b") == Some(cm::int(b)), "arithmetic leaves its operands alone");
    }
    // left fold over three operands, chained and n-ary
    #[no_mangle] pub extern "C" fn hx_int3() {
        let mut e = cm::env();
        sv::opaque(true);
        let how = sv::choose(6, "how");
        let (a, b, c) = (sv::i64("a"), sv::i64("b"), sv::i64("c"));
        e.define("a", cm::int(a));
        e.define("b", cm::int(b));
        e.define("c", cm::int(c));
        let (r, want) = match how {
            0 => (call("+", vec![cm::int(a), cm::int(b), cm::int(c)], &mut e), a.checked_add(b).and_then(|x| x.checked_add(c))),
            1 => (call("-", vec![cm::int(a), cm::int(b), cm::int(c)], &mut e), a.checked_sub(b).and_then(|x| x.checked_sub(c))),
            2 => (cm::run("a - b + c", &mut e), a.checked_sub(b).and_then(|x| x.checked_add(c))),
            3 => (cm::run("a - (b + c)", &mut e), b.checked_add(c).and_then(|x| a.checked_sub(x))),
            4 => (cm::run("(+ a) b", &mut e), b.checked_add(a)),
            _ => (cm::run("(x -> y -> x - y) a b", &mut e), a.checked_sub(b)),
        };
        exact(r, want);
    }
    #[no_mangle] pub extern "C" fn hx_neg() {
        let mut e = cm::env();
        sv::opaque(true);
        let a = sv::i64("a");
        exact(call("-", vec![cm::int(a)], &mut e), a.checked_neg());
    }
    // operand kinds that do not combine are errors, never a wrong value
    fn other(k: usize) -> Expression {
        match k {
            0 => Expression::None,
            1 => Expression::Boolean(true),
            2 => Expression::Map(Default::default()),
            3 => Expression::Bytes(vec![1]),
            4 => Expression::Macro("x".into(), Box::new(Expression::None)),
            5 => cm::string("s"),
            _ => Expression::List(vec![cm::int(1)]),
        }
    }
    #[no_mangle] pub extern "C" fn hx_kinds() {
        let mut e = cm::env();
        sv::opaque(true);
        let op = sv::choose(5, "op");
        let k = sv::choose(7, "kind");
        let swap = sv::choose(2, "swap") == 1;
        let a = sv::i64("a");
        let (x, y) = if swap { (other(k), cm::int(a)) } else { (cm::int(a), other(k)) };
        // repetition and list indexing by subtraction are defined elsewhere
        if op == 2 && k >= 5 { return }
        if op == 1 && k == 6 && swap { return }
        let r = call(OPS[op], vec![x, y], &mut e);
        sv::reach("kinds");
        sv::assert(r.is_err(), "operands that do not combine are an error");
    }
    // repetition of strings and lists
    #[no_mangle] pub extern "C" fn hx_repeat() {
        let mut e = cm::env();
        sv::opaque(true);
        let swap = sv::choose(2, "swap") == 1;
        let list = sv::choose(2, "list") == 1;
        let n = sv::i64("n");
        sv::assume(n <= 5);
        let c = sv::u8("c");
        sv::assume(c < 0x80);
        let v = if list { Expression::List(vec![cm::int(c as i64), cm::int(7)]) } else { cm::string(unsafe { std::str::from_utf8_unchecked(&[c, b'-']) }) };
        let args = if swap { vec![cm::int(n), v] } else { vec![v, cm::int(n)] };
        let k = if n < 0 { 0 } else { sv::conc(n as u64) as usize };
        match call("*", args, &mut e) {
            Ok(Expression::String(s)) => {
                sv::reach("string");
                sv::assert(!list && s.len() == 2 * k, "a repeated string has n copies");
                for i in 0..s.len() / 2 { sv::assert(s.as_bytes()[2 * i] == c && s.as_bytes()[2 * i + 1] == b'-', "every copy equals the original") }
            }
            Ok(Expression::List(l)) => {
                sv::reach("list");
                sv::assert(list && l.len() == 2 * k, "a repeated list has n copies");
                for i in 0..l.len() / 2 { sv::assert(l[2 * i] == cm::int(c as i64) && l[2 * i + 1] == cm::int(7), "every copy equals the original") }
            }
            _ => sv::assert(n < 0, "repetition by a count of at least zero succeeds"),
        }
    }
    // concatenation
    #[no_mangle] pub extern "C" fn hx_concat() {
        let mut e = cm::env();
        sv::opaque(true);
        let k = sv::choose(3, "kind");
        let (a, b) = (sv::ascii(2, "a"), sv::ascii(2, "b"));
        let mut w: Vec<u8> = a.clone().into_bytes();
        w.extend_from_slice(b.as_bytes());
        let r = match k {
            0 => call("+", vec![cm::string(&a), cm::string(&b)], &mut e),
            1 => call("+", vec![Expression::Bytes(a.into_bytes()), Expression::Bytes(b.into_bytes())], &mut e),
            _ => call("+", vec![Expression::List(a.bytes().map(|c| cm::int(c as i64)).collect()), Expression::List(b.bytes().map(|c| cm::int(c as i64)).collect())], &mut e),
        };
        match r {
            Ok(Expression::String(s)) => sv::assert(k == 0 && s.as_bytes() == &w[..], "strings concatenate"),
            Ok(Expression::Bytes(s)) => sv::assert(k == 1 && s == w, "bytes concatenate"),
            Ok(Expression::List(s)) => { sv::assert(k == 2 && s.len() == 4, "lists concatenate"); for i in 0..4 { sv::assert(s[i] == cm::int(w[i] as i64), "lists concatenate in order") } }
            _ => sv::assert(false, "like sequences concatenate"),
        }
        sv::reach("concat");
    }
}
use h::*;
sv_harnesses!(hx_int2 hx_int_src hx_int3 hx_neg hx_kinds hx_repeat hx_concat);
