// Literals denote exactly the value written (P06).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    fn text(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
    // the value of one expression, stripped of the enclosing block
    fn value(s: &str) -> Result<Expression, Error> {
        let mut e = Environment::new();
        cm::run(s, &mut e)
    }
    fn digits(n: usize, name: &str) -> Vec<u8> {
        let d = sv::bytes(n, name);
        let mut ok = true;
        for i in 0..n { ok &= (d[i] >= b'0') & (d[i] <= b'9') }
        sv::assume(ok);
        d
    }
    fn int(d: Vec<u8>, neg: bool) {
        let n = d.len();
        let mut s = vec![];
        if neg { s.push(b'-') }
        // a leading zero is a number of its own
        if n > 1 { sv::assume(d[0] != b'0') }
        s.extend_from_slice(&d);
        // reference: Horner from the sign's side, and the decimal comparison with the largest magnitude
        let mut w: i64 = 0;
        for i in 0..n {
            let k = (d[i] as u32).wrapping_sub(48) as i64;
            w = w.wrapping_mul(10);
            w = if neg { w.wrapping_sub(k) } else { w.wrapping_add(k) };
        }
        let max: &[u8] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
        let mut fits = n < 19;
        if n == 19 {
            let (mut lt, mut eq) = (false, true);
            for i in 0..19 { lt |= eq & (d[i] < max[i]); eq &= d[i] == max[i] }
            fits = lt | eq;
        }
        match value(text(&s)) {
            Ok(Expression::Integer(x)) => { sv::reach("value"); sv::assert(fits, "an integer literal out of range is rejected"); sv::assert(x == w, "an integer literal denotes the number written") }
            Ok(_) => sv::assert(false, "an integer literal denotes an integer"),
            Err(_) => { sv::reach("error"); sv::assert(!fits, "a representable integer literal is accepted") }
        }
    }
    #[no_mangle] pub extern "C" fn hx_int_small() { int(digits(1 + sv::choose(18, "len"), "digits"), sv::choose(2, "neg") == 1) }
    // around the limits: fixed prefix, symbolic tail; and symbolic head, fixed tail
    #[no_mangle] pub extern "C" fn hx_int_limit() {
        let neg = sv::choose(2, "neg") == 1;
        let mut v = vec![];
        match sv::choose(4, "shape") {
            0 => { v.extend_from_slice(b"922337203685477"); v.extend(digits(4, "tail")) }
            1 => { v.extend(digits(2, "head")); v.extend_from_slice(b"23372036854775807") }
            2 => { v.extend(digits(2, "head")); v.extend_from_slice(b"00000000000000000"); v.extend(digits(1, "tail")) }
            _ => { v.extend_from_slice(b"1844674407370955"); v.extend(digits(4, "tail")) }
        }
        int(v, neg)
    }

    fn push(out: &mut Vec<u8>, c: u32) -> bool {
        match char::from_u32(c) {
            Some(c) => { let mut b = [0; 4]; out.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); true }
            None => false,
        }
    }
    // reference unescape: None when the literal is malformed
    fn unescape(b: &[u8]) -> Option<Vec<u8>> {
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' { return None }
            if b[i] != b'\\' { out.push(b[i]); i += 1; continue }
            if i + 1 >= b.len() { return None }
            match b[i + 1] {
                b'n' => out.push(b'\n'),
                b't' => out.push(b'\t'),
                b'r' => out.push(b'\r'),
                b'b' => out.push(8),
                b'f' => out.push(12),
                b'\\' => out.push(b'\\'),
                b'"' => out.push(b'"'),
                b'u' => {
                    if i + 2 >= b.len() || b[i + 2] != b'{' { return None }
                    let mut j = i + 3;
                    let mut v = 0u32;
                    while j < b.len() && b[j] != b'}' {
                        let c = b[j];
                        let h = if (c >= b'0') & (c <= b'9') { c - b'0' } else if (c >= b'a') & (c <= b'f') { c - b'a' + 10 } else if (c >= b'A') & (c <= b'F') { c - b'A' + 10 } else { return None };
                        v = v * 16 + h as u32;
                        j += 1;
                    }
                    if j >= b.len() || j == i + 3 || j > i + 8 || !push(&mut out, v) { return None }
                    i = j + 1;
                    continue;
                }
                _ => return None,
            }
            i += 2;
        }
        Some(out)
    }
    fn string(body: &[u8]) {
        let mut s = vec![b'"'];
        s.extend_from_slice(body);
        s.push(b'"');
        let want = unescape(body);
        match value(text(&s)) {
            Ok(Expression::String(x)) => {
                sv::reach("value");
                match want { Some(w) => sv::assert(x.as_bytes() == &w[..], "a string literal denotes the unescaped text"), None => sv::assert(false, "a malformed string literal is rejected") }
            }
            Ok(_) => sv::assert(want.is_none(), "a string literal denotes a string"),
            Err(_) => { sv::reach("error"); sv::assert(want.is_none(), "a well-formed string literal is accepted") }
        }
    }
    fn no_quote(b: &[u8]) {
        // an unescaped quote would end the literal; that case belongs to the lexical grammar
        let mut ok = true;
        let mut esc = false;
        for &c in b {
            if esc { esc = false; continue }
            if c == b'\\' { esc = true; continue }
            ok &= c != b'"';
        }
        sv::assume(ok && !esc);
    }
    #[no_mangle] pub extern "C" fn hx_str_any2() { let v = sv::ascii(2, "body"); no_quote(v.as_bytes()); string(v.as_bytes()) }
    #[no_mangle] pub extern "C" fn hx_str_any3() { let v = sv::ascii(3, "body"); no_quote(v.as_bytes()); string(v.as_bytes()) }
    #[no_mangle] pub extern "C" fn hx_str_esc() {
        let v = sv::over(5, b"\\\"nt0x ", "body");
        no_quote(v.as_bytes());
        string(v.as_bytes())
    }
    #[no_mangle] pub extern "C" fn hx_str_u() {
        let mut s = b"\\u{".to_vec();
        let n = sv::choose(6, "digits") ;
        let d = sv::bytes(n, "hex");
        let mut ok = true;
        for i in 0..n { let c = d[i]; ok &= ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F')) | (c == b'g') }
        sv::assume(ok);
        s.extend_from_slice(&d);
        s.extend_from_slice(b"}z");
        string(&s)
    }
    // two- and three-byte characters pass through
    #[no_mangle] pub extern "C" fn hx_str_utf8() {
        let n = 2 + sv::choose(2, "len");
        let v = sv::bytes(n, "body");
        sv::assume(v[0] >= 0x80);
        sv::assume(std::str::from_utf8(&v).is_ok());
        no_quote(&v);
        string(&v)
    }
    #[no_mangle] pub extern "C" fn hx_words() {
        let k = sv::choose(6, "which");
        let want = [Expression::Boolean(true), Expression::Boolean(false), Expression::None, Expression::List(vec![]), Expression::None, Expression::Float(1.5)][k].clone();
        match value(["True", "False", "None", "[]", "()", "1.5"][k]) {
            Ok(x) => { sv::reach("value"); sv::assert(x == want, "literal words denote their values") }
            Err(_) => sv::assert(false, "literal words are accepted"),
        }
    }
    // floating point: d.dd with symbolic digits, against the decimal value computed in integers
    #[no_mangle] pub extern "C" fn hx_float() {
        let neg = sv::choose(2, "neg") == 1;
        let d = sv::bytes(3, "digits");
        let mut ok = true;
        for i in 0..3 { ok &= (d[i] >= b'0') & (d[i] <= b'9') }
        sv::assume(ok);
        // the decimal-to-binary conversion works on concrete digits
        let d: Vec<u8> = d.iter().map(|&c| sv::conc(c as u64) as u8).collect();
        let n = (d[0] - b'0') as u64 * 100 + (d[1] - b'0') as u64 * 10 + (d[2] - b'0') as u64;
        let mut s = vec![];
        if neg { s.push(b'-') }
        s.extend_from_slice(&[d[0], b'.', d[1], d[2]]);
        let w = n as f64 / 100.0;
        let w = if neg { -w } else { w };
        match value(text(&s)) {
            Ok(Expression::Float(x)) => { sv::reach("value"); sv::assert(x == w, "a decimal literal denotes the nearest double") }
            _ => sv::assert(false, "a decimal literal denotes a floating point number"),
        }
    }
    // literals keep their order and values inside lists and maps
    #[no_mangle] pub extern "C" fn hx_compound() {
        let d = sv::bytes(3, "d");
        let mut ok = true;
        for i in 0..3 { ok &= (d[i] >= b'0') & (d[i] <= b'9') }
        sv::assume(ok);
        let v = |i: usize| Expression::Integer((d[i] - b'0') as i64);
        let t = |i: usize| (d[i] as char).to_string();
        let mut e = Environment::new();
        match sv::choose(2, "kind") {
            0 => {
                let r = cm::run(&format!("[{}, [{}], {}]", t(0), t(1), t(2)), &mut e);
                sv::reach("value");
                sv::assert(r == Ok(Expression::List(vec![v(0), Expression::List(vec![v(1)]), v(2)])), "a list literal denotes its elements in order");
            }
            _ => {
                let r = cm::run(&format!("{{b = {}, a = {}, c = [{}]}}", t(0), t(1), t(2)), &mut e);
                let mut m = std::collections::BTreeMap::new();
                m.insert("b".to_string(), v(0));
                m.insert("a".to_string(), v(1));
                m.insert("c".to_string(), Expression::List(vec![v(2)]));
                sv::assert(r == Ok(Expression::Map(m)), "a map literal denotes its entries");
            }
        }
    }
    sv_harnesses! {hx_int_small hx_int_limit hx_str_any2 hx_str_any3 hx_str_esc hx_str_u hx_str_utf8 hx_words hx_float hx_compound}
}
