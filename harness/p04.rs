// Operator precedence and associativity (P04).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    const OPS: [&[u8; 2]; 13] = [b"+ ", b"- ", b"* ", b"//", b"% ", b"==", b"!=", b"<=", b">=", b"< ", b"> ", b"&&", b"||"];
    fn prec(o: &[u8; 2]) -> u8 {
        match o {
            b"* " | b"//" | b"% " => 3,
            b"+ " | b"- " => 2,
            b"&&" | b"||" => 0,
            _ => 1,
        }
    }
    fn op(name: &str) -> [u8; 2] {
        let mut o = [0u8; 2];
        sv::fill(&mut o, name);
        let mut ok = false;
        for p in OPS { ok |= (o[0] == p[0]) & (o[1] == p[1]) }
        sv::assume(ok);
        o
    }
    // the tree the documented precedence prescribes: split at the last operator of the loosest level
    fn reference(vals: &[Expression], ops: &[[u8; 2]]) -> Expression {
        if ops.is_empty() { return vals[0].clone() }
        let mut k = 0;
        for i in 1..ops.len() { if prec(&ops[i]) <= prec(&ops[k]) { k = i } }
        let name = if ops[k][1] == b' ' { vec![ops[k][0]] } else { ops[k].to_vec() };
        let name = unsafe { String::from_utf8_unchecked(name) };
        Expression::Apply(Box::new(Expression::Symbol(name)), vec![reference(&vals[..k + 1], &ops[..k]), reference(&vals[k + 1..], &ops[k + 1..])])
    }
    // parentheses carry no meaning once the tree is built
    fn canon(e: &Expression) -> Expression {
        match e {
            Expression::Group(x) => canon(x),
            Expression::Apply(f, a) => Expression::Apply(Box::new(canon(f)), a.iter().map(canon).collect()),
            Expression::Do(v) if v.len() == 1 => canon(&v[0]),
            Expression::List(v) => Expression::List(v.iter().map(canon).collect()),
            x => x.clone(),
        }
    }
    fn check(src: &str, want: &Expression) {
        match cm::parse(src) {
            Ok(e) => { sv::reach("parsed"); sv::assert(canon(&e) == *want, "operators group by precedence, left to right"); }
            Err(_) => sv::assert(false, "an operator expression parses"),
        }
    }
    fn atom(i: usize) -> (&'static str, Expression) {
        match i {
            0 => ("7", Expression::Integer(7)),
            1 => ("x", Expression::Symbol("x".into())),
            2 => ("\"s\"", Expression::String("s".into())),
            3 => ("y", Expression::Symbol("y".into())),
            _ => ("5", Expression::Integer(5)),
        }
    }
    fn push(s: &mut String, o: &[u8; 2]) {
        s.push(' ');
        s.push_str(unsafe { std::str::from_utf8_unchecked(o) });
        s.push(' ');
    }
    fn flat(n: usize, wrap: usize) {
        let names = ["op0", "op1", "op2", "op3"];
        let ops: Vec<[u8; 2]> = (0..n).map(|i| op(names[i])).collect();
        let vals: Vec<Expression> = (0..n + 1).map(|i| atom(i).1).collect();
        let mut s = String::new();
        for i in 0..n + 1 {
            s.push_str(atom(i).0);
            if i < n { push(&mut s, &ops[i]) }
        }
        let want = reference(&vals, &ops);
        match wrap {
            0 => check(&s, &want),
            1 => check(&format!("({})", s), &want),
            _ => check(&format!("[{}, {}]", s, s), &Expression::List(vec![want.clone(), want])),
        }
    }
    #[no_mangle] pub extern "C" fn hx_two() { flat(2, sv::choose(3, "wrap")) }
    #[no_mangle] pub extern "C" fn hx_three() { flat(3, 0) }
    #[no_mangle] pub extern "C" fn hx_four() { flat(4, 0) }
    // explicit parentheses override
    #[no_mangle] pub extern "C" fn hx_paren() {
        let ops = [op("op0"), op("op1"), op("op2")];
        let mut s = String::new();
        let v: Vec<Expression> = (0..4).map(|i| atom(i).1).collect();
        let app = |o: &[u8; 2], a: Expression, b: Expression| reference(&[a, b], &[*o]);
        let k = sv::choose(3, "shape");
        let want = match k {
            0 => { s.push_str("7 "); push(&mut s, &ops[0]); s.push_str("(x"); push(&mut s, &ops[1]); s.push_str("\"s\")"); push(&mut s, &ops[2]); s.push_str("y");
                   let inner = app(&ops[1], v[1].clone(), v[2].clone()); reference(&[v[0].clone(), inner, v[3].clone()], &[ops[0], ops[2]]) }
            1 => { s.push_str("7"); push(&mut s, &ops[0]); s.push_str("(x"); push(&mut s, &ops[1]); s.push_str("\"s\""); push(&mut s, &ops[2]); s.push_str("y)");
                   let inner = reference(&[v[1].clone(), v[2].clone(), v[3].clone()], &[ops[1], ops[2]]); app(&ops[0], v[0].clone(), inner) }
            _ => { s.push_str("(7"); push(&mut s, &ops[0]); s.push_str("x)"); push(&mut s, &ops[1]); s.push_str("(\"s\""); push(&mut s, &ops[2]); s.push_str("y)");
                   let a = app(&ops[0], v[0].clone(), v[1].clone()); let b = app(&ops[2], v[2].clone(), v[3].clone()); app(&ops[1], a, b) }
        };
        check(&s, &want);
    }
    // `@` binds tighter than any operator; application arguments reach over arithmetic and comparison
    #[no_mangle] pub extern "C" fn hx_tight() {
        let o = op("op0");
        let sy = |n: &str| Expression::Symbol(n.to_string());
        let idx = Expression::Apply(Box::new(sy("@")), vec![sy("m"), sy("k")]);
        let mut s;
        let want;
        match sv::choose(4, "shape") {
            0 => { s = String::from("m@k"); push(&mut s, &o); s.push('7'); want = reference(&[idx, Expression::Integer(7)], &[o]) }
            1 => { s = String::from("7"); push(&mut s, &o); s.push_str("m@k"); want = reference(&[Expression::Integer(7), idx], &[o]) }
            2 => {
                sv::assume(prec(&o) > 0);
                s = String::from("f x"); push(&mut s, &o); s.push_str("7");
                want = Expression::Apply(Box::new(sy("f")), vec![reference(&[sy("x"), Expression::Integer(7)], &[o])])
            }
            _ => {
                sv::assume(prec(&o) > 0);
                s = String::from("f y x"); push(&mut s, &o); s.push_str("7 z");
                want = Expression::Apply(Box::new(sy("f")), vec![sy("y"), reference(&[sy("x"), Expression::Integer(7)], &[o]), sy("z")])
            }
        }
        check(&s, &want);
    }
    // the pipe is the loosest operator, ! covers one operand, lambdas extend to the right, ranges sit between sums
    #[no_mangle] pub extern "C" fn hx_loose() {
        let o = op("op0");
        let sy = |n: &str| Expression::Symbol(n.to_string());
        let i = |n| Expression::Integer(n);
        let two = |o: &[u8; 2], a: Expression, b: Expression| reference(&[a, b], &[*o]);
        let mut s = String::new();
        let want;
        match sv::choose(7, "shape") {
            0 => { s.push_str("1"); push(&mut s, &o); s.push_str("2 | f"); want = Expression::Apply(Box::new(sy("|")), vec![two(&o, i(1), i(2)), sy("f")]) }
            1 => { s.push_str("g | 1"); push(&mut s, &o); s.push_str("2"); want = Expression::Apply(Box::new(sy("|")), vec![sy("g"), two(&o, i(1), i(2))]) }
            2 => { s.push_str("x -> 1"); push(&mut s, &o); s.push_str("2"); want = Expression::Lambda("x".into(), Box::new(two(&o, i(1), i(2))), Environment::new()) }
            3 => { s.push_str("let x = 1"); push(&mut s, &o); s.push_str("2"); want = Expression::Assign("x".into(), Box::new(two(&o, i(1), i(2)))) }
            4 => { sv::assume(prec(&o) >= 2); s.push_str("1"); push(&mut s, &o); s.push_str("2 to 9"); want = Expression::Apply(Box::new(sy("to")), vec![two(&o, i(1), i(2)), i(9)]) }
            5 => { sv::assume(prec(&o) >= 2); s.push_str("0 to 1"); push(&mut s, &o); s.push_str("2"); want = Expression::Apply(Box::new(sy("to")), vec![i(0), two(&o, i(1), i(2))]) }
            _ => { sv::assume(prec(&o) >= 2); s.push_str("f (! x)"); push(&mut s, &o); s.push_str("2"); want = Expression::Apply(Box::new(sy("f")), vec![two(&o, Expression::Apply(Box::new(sy("!")), vec![sy("x")]), i(2))]) }
        }
        match cm::parse(&s) {
            Ok(e) => {
                sv::reach("parsed");
                let e = match canon(&e) {
                    Expression::Lambda(p, b, v) => Expression::Lambda(p, Box::new(canon(&b)), v),
                    Expression::Assign(p, b) => Expression::Assign(p, Box::new(canon(&b))),
                    e => e,
                };
                sv::assert(e == want, "pipes, lambdas, let, ranges and application reach as far as documented");
            }
            Err(_) => sv::assert(false, "the expression parses"),
        }
    }
    sv_harnesses! {hx_two hx_three hx_four hx_paren hx_tight hx_loose}
}
