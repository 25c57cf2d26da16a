// Mathematics (P21).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    fn start() -> Env { let e = cm::env(); sv::opaque(true); e }
    fn gives(src: &str, e: &mut Environment, want: Option<X>, what: &str) {
        sv::note(src);
        match (cm::run(src, e), want) {
            (Ok(v), Some(w)) => {
                sv::reach("value");
                sv::assert(match (&v, &w) { (X::Integer(a), X::Integer(b)) => a == b, (X::Boolean(a), X::Boolean(b)) => a == b, (X::Float(a), X::Float(b)) => a == b || (a.is_nan() && b.is_nan()), _ => false }, what)
            }
            (Err(x), Option::None) => { sv::reach("error"); sv::assert(x.code() == 9, "what has no 64-bit result is an error") }
            (Ok(_), Option::None) => sv::assert(false, "what has no 64-bit result is an error"),
            (Err(_), Some(_)) => sv::assert(false, "a valid call does not fail"),
        }
    }
    // the value of a sum or a product, whether it comes as a whole number or as a float
    fn amounts(src: &str, e: &mut Environment, want: f64, what: &str) {
        sv::note(src);
        match cm::run(src, e) {
            Ok(v) => { sv::reach("value"); sv::assert(match v { X::Integer(a) => a as f64 == want, X::Float(a) => a == want, _ => false }, what) }
            Err(_) => sv::assert(false, "a valid call does not fail"),
        }
    }
    fn i(x: i64) -> Option<X> { Some(cm::int(x)) }
    fn b(x: bool) -> Option<X> { Some(X::Boolean(x)) }
    #[no_mangle] pub extern "C" fn hx_one() {
        let mut e = start();
        let x = sv::i64("x");
        e.define("x", cm::int(x));
        match sv::choose(9, "fn") {
            0 => gives("math@abs x", &mut e, if x == i64::MIN { Option::None } else { i(if x < 0 { -x } else { x }) }, "abs is the distance from zero"),
            1 => gives("math@isodd x", &mut e, b(x & 1 == 1), "isodd is true for odd numbers"),
            2 => gives("math@iseven x", &mut e, b(x & 1 == 0), "iseven is true for even numbers"),
            3 => gives("math@floor x", &mut e, i(x), "a whole number is its own floor"),
            4 => gives("math@ceil x", &mut e, i(x), "a whole number is its own ceiling"),
            5 => gives("math@round x", &mut e, i(x), "a whole number is its own rounding"),
            6 => gives("math@trunc x", &mut e, i(x), "a whole number is its own truncation"),
            7 => gives("int x", &mut e, i(x), "a whole number is itself"),
            _ => {
                let (mut r, mut k) = (Some(1i64), 1);
                if x < 0 || x > 20 { r = Option::None } else { while k <= x { r = r.and_then(|p| p.checked_mul(k)); k += 1 } }
                gives("math@fact x", &mut e, r.map(cm::int), "fact is the product of the numbers up to its argument")
            }
        }
    }
    #[no_mangle] pub extern "C" fn hx_two() {
        let mut e = start();
        let (x, y) = (sv::i64("x"), sv::i64("y"));
        e.define("x", cm::int(x)); e.define("y", cm::int(y));
        let ok = y >= 0 && y < 64;
        let (l, a, s) = if ok { (i(((x as u64) >> (y as u64)) as i64), i(x >> y), i(x << y)) } else { (Option::None, Option::None, Option::None) };
        match sv::choose(12, "fn") {
            0 => gives("math@l-rsh x y", &mut e, l, "l-rsh shifts zeros in"),
            1 => gives("(math@l-rsh x) y", &mut e, l, "l-rsh shifts zeros in"),
            2 => gives("math@a-rsh x y", &mut e, a, "a-rsh keeps the sign"),
            3 => gives("math@rsh x y", &mut e, a, "rsh keeps the sign"),
            4 => gives("math@lsh x y", &mut e, s, "lsh shifts zeros in"),
            5 => gives("math@max x y", &mut e, i(if x > y { x } else { y }), "max is the larger"),
            6 => gives("math@min x y", &mut e, i(if x < y { x } else { y }), "min is the smaller"),
            7 => gives("(math@max x) y", &mut e, i(if x > y { x } else { y }), "max is the larger"),
            8 => gives("let m = math@min y; m x", &mut e, i(if x < y { x } else { y }), "min is the smaller"),
            9 => gives("(math@max x y) == (math@max y x)", &mut e, b(true), "max does not depend on the order"),
            10 => gives("math@min x (math@max x y)", &mut e, i(x), "the smaller of a number and a larger one is the number"),
            _ => gives("[math@max x y, math@min x y] == [x, y] || [math@max x y, math@min x y] == [y, x]", &mut e, b(true), "max and min are the two numbers"),
        }
    }
    fn fold(mul: bool) {
        let mut e = start();
        let n = sv::choose(4, "len");
        let mut v = vec![];
        // in a product of three, two factors are among a few values
        for k in 0..n { v.push(if mul && n == 3 && k > 0 { [0, 1, -1, 3][sv::choose(4, "factor")] } else { sv::i64("v") }) }
        if mul && n == 3 && sv::choose(2, "turn") == 1 { v.swap(0, 2) }
        let mut l = vec![];
        for x in &v { l.push(cm::int(*x)) }
        e.define("L", X::List(l));
        let names = ["a", "b", "c"];
        for k in 0..n { e.define(names[k], cm::int(v[k])) }
        let mut want = Some(if mul { 1i64 } else { 0 });
        for x in &v { want = want.and_then(|s| if mul { s.checked_mul(*x) } else { s.checked_add(*x) }) }
        let args = ["L", "a", "a b", "a b c"][n];
        let (name, what) = if mul { ("product", "the product is exact") } else { ("sum", "the sum is exact") };
        match sv::choose(if n == 3 { 3 } else { 2 }, "form") {
            0 => gives(&format!("math@{} L", name), &mut e, want.map(cm::int), what),
            1 => gives(&format!("math@{} {}", name, args), &mut e, want.map(cm::int), what),
            _ => gives(&format!("math@{} [a, b] c", name), &mut e, want.map(cm::int), what),
        }
    }
    #[no_mangle] pub extern "C" fn hx_sum() { fold(false) }
    #[no_mangle] pub extern "C" fn hx_product() { fold(true) }
    #[no_mangle] pub extern "C" fn hx_pow() {
        let mut e = start();
        match sv::choose(3, "form") {
            0 => {
                // every base whose power fits by far, small exponents
                let x = sv::i64("x");
                let k = sv::choose(4, "k");
                if k == 3 { sv::assume((x > -100) & (x < 100)) }
                e.define("x", cm::int(x)); e.define("k", cm::int(k as i64));
                let want = match k { 0 => Some(1), 1 => Some(x), 2 => x.checked_mul(x), _ => Some(x * (x * x)) };
                gives("math@pow x k", &mut e, want.map(cm::int), "pow is the repeated product")
            }
            1 => {
                // every exponent, for the bases whose power never overflows
                let x = sv::choose(3, "x") as i64 - 1;
                let k = sv::i64("k");
                sv::assume((k < 0) | (k >= 1 << 32));
                e.define("x", cm::int(x)); e.define("k", cm::int(k));
                let even = k & 1 == 0;
                let want = match x { 0 => if k > 0 { i(0) } else { Option::None }, 1 => i(1), _ => i(if even { 1 } else { -1 }) };
                gives("math@pow x k", &mut e, want, "pow is the repeated product")
            }
            _ => {
                let x = sv::choose(13, "x") as i64 - 6;
                const K: [i64; 22] = [-1, 0, 1, 2, 3, 7, 20, 31, 32, 33, 62, 63, 64, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 40) + 3, i64::MAX, i64::MIN, i64::MIN + 2];
                let k = K[sv::choose(22, "k")];
                e.define("x", cm::int(x)); e.define("k", cm::int(k));
                let mut want = Some(1i64);
                if x > 1 || x < -1 {
                    if k < 0 || k > 63 { want = Option::None } else { for _ in 0..k { want = want.and_then(|p| p.checked_mul(x)) } }
                } else { want = match x { 0 => if k == 0 { Some(1) } else if k > 0 { Some(0) } else { Option::None }, 1 => Some(1), _ => Some(if k & 1 == 0 { 1 } else { -1 }) } }
                gives("math@pow x k", &mut e, want.map(cm::int), "pow is the repeated product")
            }
        }
    }
    const F: [f64; 12] = [0.0, 0.5, -0.5, 1.5, -1.5, 2.5, 3.0, -3.0, 1e9, -7.25, 2.0, 4.0];
    fn f(x: f64) -> Option<X> { Some(X::Float(x)) }
    #[no_mangle] pub extern "C" fn hx_float() {
        let mut e = start();
        let x = F[sv::choose(12, "x")];
        e.define("x", X::Float(x));
        let whole = (x as i64) as f64;
        match sv::choose(11, "fn") {
            0 => gives("math@abs x", &mut e, f(if x < 0.0 { -x } else { x }), "abs is the distance from zero"),
            1 => gives("math@floor x", &mut e, f(if x < whole { whole - 1.0 } else { whole }), "floor is the whole number below"),
            2 => gives("math@ceil x", &mut e, f(if x > whole { whole + 1.0 } else { whole }), "ceil is the whole number above"),
            3 => gives("math@trunc x", &mut e, f(whole), "trunc drops the fraction"),
            4 => gives("math@round x", &mut e, f(((x + if x < 0.0 { -0.5 } else { 0.5 }) as i64) as f64), "round is the nearest whole number"),
            5 => gives("math@isodd x", &mut e, b((x as i64) & 1 == 1), "isodd is true for odd numbers"),
            6 => gives("math@iseven x", &mut e, b((x as i64) & 1 == 0), "iseven is true for even numbers"),
            7 => gives("math@sqrt (x * x)", &mut e, f(if x < 0.0 { -x } else { x }), "sqrt is the inverse of squaring"),
            8 => gives("int x", &mut e, i(x as i64), "int drops the fraction"),
            9 => gives("- x", &mut e, f(-x), "negation changes the sign"),
            _ => {
                let k = sv::choose(11, "k");
                let mut r = 1.0;
                for j in 0..k { r *= (j + 1) as f64 }
                e.define("x", X::Float(k as f64));
                gives("math@fact x", &mut e, f(r), "fact is the product of the numbers up to its argument")
            }
        }
    }
    #[no_mangle] pub extern "C" fn hx_float2() {
        let mut e = start();
        let (x, y) = (F[sv::choose(12, "x")], F[sv::choose(12, "y")]);
        e.define("x", X::Float(x)); e.define("y", X::Float(y));
        match sv::choose(8, "fn") {
            0 => gives("math@max x y", &mut e, f(if x > y { x } else { y }), "max is the larger"),
            1 => gives("math@min x y", &mut e, f(if x < y { x } else { y }), "min is the smaller"),
            2 => amounts("math@sum x y", &mut e, x + y, "the sum is that of the machine"),
            3 => amounts("math@product x y", &mut e, x * y, "the product is that of the machine"),
            4 => gives("x * y", &mut e, f(x * y), "float products are those of the machine"),
            5 => gives("x + y", &mut e, f(x + y), "float sums are those of the machine"),
            6 => gives("x - y", &mut e, f(x - y), "float differences are those of the machine"),
            _ => gives("x // y", &mut e, f(x / y), "float quotients are those of the machine"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_mixed() {
        let mut e = start();
        let x = F[sv::choose(12, "x")];
        let n = sv::choose(7, "n") as i64 - 3;
        let m = n as f64;
        e.define("x", X::Float(x)); e.define("n", cm::int(n));
        match sv::choose(10, "fn") {
            0 => gives("x + n", &mut e, f(x + m), "a whole number counts as the float of its value"),
            1 => gives("n - x", &mut e, f(m - x), "a whole number counts as the float of its value"),
            2 => gives("x - n", &mut e, f(x - m), "a whole number counts as the float of its value"),
            3 => gives("n * x", &mut e, f(x * m), "a whole number counts as the float of its value"),
            4 => gives("n // x", &mut e, f(m / x), "a whole number counts as the float of its value"),
            5 => gives("x // n", &mut e, f(x / m), "a whole number counts as the float of its value"),
            6 => amounts("math@sum x n", &mut e, x + m, "a whole number counts as the float of its value"),
            7 => amounts("math@product n x", &mut e, x * m, "a whole number counts as the float of its value"),
            8 => amounts("math@sum [n, x] n", &mut e, m + x + m, "a whole number counts as the float of its value"),
            _ => amounts("math@product [x] n n", &mut e, x * m * m, "a whole number counts as the float of its value"),
        }
    }
}
use h::*;
sv_harnesses!(hx_one hx_two hx_sum hx_product hx_pow hx_float hx_float2 hx_mixed);
