// Symbolic values of every kind, and reference order / equality / truthiness.
#[allow(dead_code)]
mod val {
    use super::*;
    use std::cmp::Ordering;
    use std::collections::BTreeMap;
    pub const SCALARS: u64 = 6;
    pub const KINDS: u64 = 14;
    const FLOATS: [f64; 5] = [0.0, -0.0, 1.5, -2.0, f64::NAN];
    pub fn text(n: usize, name: &str) -> String { sv::ascii(n, name) }
    pub fn scalar(name: &str) -> Expression { kind(sv::choose(SCALARS, "scalar"), name) }
    pub fn any(name: &str) -> Expression { kind(sv::choose(KINDS, "kind"), name) }
    pub fn kind(k: usize, name: &str) -> Expression {
        match k {
            0 => Expression::None,
            1 => Expression::Integer(sv::i64(name)),
            2 => Expression::Boolean(sv::bool(name)),
            3 => Expression::String(text(sv::choose(3, "len"), name)),
            4 => Expression::Bytes(sv::bytes(sv::choose(3, "len"), name)),
            5 => Expression::Float(FLOATS[sv::choose(5, "float")]),
            6 => Expression::List(vec![]),
            7 => Expression::List(vec![Expression::Integer(sv::i64(name))]),
            8 => Expression::List(vec![Expression::Integer(sv::i64(name)), Expression::String(text(1, name))]),
            9 => Expression::Map(BTreeMap::new()),
            10 => { let mut m = BTreeMap::new(); m.insert(text(1, name), Expression::Integer(sv::i64(name))); Expression::Map(m) }
            11 => Expression::Symbol(String::from(["p", "q"][sv::choose(2, "sym")])),
            12 => Expression::Lambda(String::from(["p", "q"][sv::choose(2, "param")]), Box::new(Expression::None), Environment::new()),
            _ => Expression::Macro(String::from(["p", "q"][sv::choose(2, "param")]), Box::new(Expression::None)),
        }
    }
    pub fn bytes_cmp(a: &[u8], b: &[u8]) -> Ordering {
        let mut i = 0;
        while i < a.len() && i < b.len() {
            if a[i] < b[i] { return Ordering::Less }
            if a[i] > b[i] { return Ordering::Greater }
            i += 1;
        }
        if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }
    }
    fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() { return false }
        let mut ok = true;
        for i in 0..a.len() { ok &= a[i] == b[i] }
        ok
    }
    /// order: numbers, text, bytes, lists and maps of one kind; everything else is unordered
    pub fn cmp(a: &Expression, b: &Expression) -> Option<Ordering> {
        use Expression::*;
        match (a, b) {
            (Integer(x), Integer(y)) => Some(if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal }),
            (Float(x), Float(y)) => if x < y { Some(Ordering::Less) } else if x > y { Some(Ordering::Greater) } else if x == y { Some(Ordering::Equal) } else { Option::None },
            (String(x), String(y)) => Some(bytes_cmp(x.as_bytes(), y.as_bytes())),
            (Bytes(x), Bytes(y)) => Some(bytes_cmp(x, y)),
            (List(x), List(y)) => {
                let mut i = 0;
                while i < x.len() && i < y.len() {
                    match cmp(&x[i], &y[i]) { Some(Ordering::Equal) => (), o => return o }
                    i += 1;
                }
                Some(if x.len() < y.len() { Ordering::Less } else if x.len() > y.len() { Ordering::Greater } else { Ordering::Equal })
            }
            (Map(x), Map(y)) => {
                let (mut i, mut j) = (x.iter(), y.iter());
                loop {
                    match (i.next(), j.next()) {
                        (Some((k, v)), Some((l, w))) => {
                            match bytes_cmp(k.as_bytes(), l.as_bytes()) { Ordering::Equal => (), o => return Some(o) }
                            match cmp(v, w) { Some(Ordering::Equal) => (), o => return o }
                        }
                        (Option::None, Option::None) => return Some(Ordering::Equal),
                        (Option::None, _) => return Some(Ordering::Less),
                        _ => return Some(Ordering::Greater),
                    }
                }
            }
            _ => Option::None,
        }
    }

    /// structural equality
    pub fn eq(a: &Expression, b: &Expression) -> bool {
        use Expression::*;
        match (a, b) {
            (None, None) => true,
            (Integer(x), Integer(y)) => x == y,
            (Float(x), Float(y)) => x == y,
            (Boolean(x), Boolean(y)) => x == y,
            (String(x), String(y)) | (Symbol(x), Symbol(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
            (Bytes(x), Bytes(y)) => bytes_eq(x, y),
            (List(x), List(y)) => {
                if x.len() != y.len() { return false }
                let mut ok = true;
                for i in 0..x.len() { ok &= eq(&x[i], &y[i]) }
                ok
            }
            (Map(x), Map(y)) => {
                if x.len() != y.len() { return false }
                let mut ok = true;
                for ((k, v), (l, w)) in x.iter().zip(y.iter()) { ok &= bytes_eq(k.as_bytes(), l.as_bytes()) & eq(v, w) }
                ok
            }
            (Lambda(p, _, _), Lambda(q, _, _)) | (Macro(p, _), Macro(q, _)) => p == q,
            (Quote(x), Quote(y)) | (Group(x), Group(y)) => eq(x, y),
            _ => false,
        }
    }
    pub fn truthy(v: &Expression) -> bool {
        use Expression::*;
        match v {
            Integer(x) => *x != 0,
            Float(x) => *x != 0.0,
            Boolean(x) => *x,
            String(x) => x.len() > 0,
            Bytes(x) => x.len() > 0,
            List(x) => x.len() > 0,
            Map(x) => x.len() > 0,
            Lambda(..) | Macro(..) | Builtin(_) => true,
            _ => false,
        }
    }
}
