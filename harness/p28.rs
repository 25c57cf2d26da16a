// Reading JSON and TOML (P29).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    use std::collections::BTreeMap;
    type Env = std::mem::ManuallyDrop<Environment>;
    /// a JSON text read by the grammar of RFC 8259
    struct J<'a> { b: &'a [u8], i: usize }
    impl<'a> J<'a> {
        fn peek(&self) -> u8 { if self.i < self.b.len() { self.b[self.i] } else { 0 } }
        fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1 } }
        fn word(&mut self, w: &str) -> bool { let k = w.len(); if self.i + k > self.b.len() { return false } for j in 0..k { if self.b[self.i + j] != w.as_bytes()[j] { return false } } self.i += k; true }
        fn digits(&mut self) -> usize { let s = self.i; while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1 } self.i - s }
        fn hex4(&mut self) -> Option<u32> {
            let mut v = 0;
            for _ in 0..4 { let c = self.peek(); let d = if c.is_ascii_digit() { c - b'0' } else if (b'a'..=b'f').contains(&c) { c - b'a' + 10 } else if (b'A'..=b'F').contains(&c) { c - b'A' + 10 } else { return Option::None }; v = v * 16 + d as u32; self.i += 1 }
            Some(v)
        }
        fn string(&mut self) -> Option<String> {
            let mut r = Vec::new();
            self.i += 1;
            loop {
                if self.i >= self.b.len() { return Option::None }
                let c = self.b[self.i];
                self.i += 1;
                if c == b'"' { return String::from_utf8(r).ok() }
                if c < 0x20 { return Option::None }
                if c != b'\\' { r.push(c); continue }
                let c = self.peek();
                self.i += 1;
                match c {
                    b'"' | b'\\' | b'/' => r.push(c), b'b' => r.push(8), b'f' => r.push(12), b'n' => r.push(10), b'r' => r.push(13), b't' => r.push(9),
                    b'u' => {
                        let mut v = self.hex4()?;
                        if v >= 0xd800 && v < 0xdc00 { if !self.word("\\u") { return Option::None } let w = self.hex4()?; if !(0xdc00..0xe000).contains(&w) { return Option::None } v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00) }
                        let mut t = [0; 4];
                        for x in char::from_u32(v)?.encode_utf8(&mut t).bytes() { r.push(x) }
                    }
                    _ => return Option::None,
                }
            }
        }
        fn value(&mut self) -> Option<X> {
            self.ws();
            let r = match self.peek() {
                b'n' => if self.word("null") { X::None } else { return Option::None },
                b't' => if self.word("true") { X::Boolean(true) } else { return Option::None },
                b'f' => if self.word("false") { X::Boolean(false) } else { return Option::None },
                b'"' => X::String(self.string()?),
                b'[' => {
                    let mut l = vec![];
                    self.i += 1; self.ws();
                    if self.peek() == b']' { self.i += 1 } else { loop { l.push(self.value()?); match self.peek() { b',' => self.i += 1, b']' => { self.i += 1; break } _ => return Option::None } } }
                    X::List(l)
                }
                b'{' => {
                    let mut m = BTreeMap::new();
                    self.i += 1; self.ws();
                    if self.peek() == b'}' { self.i += 1 } else { loop { self.ws(); if self.peek() != b'"' { return Option::None } let k = self.string()?; self.ws(); if self.peek() != b':' { return Option::None } self.i += 1; let v = self.value()?; m.insert(k, v); match self.peek() { b',' => self.i += 1, b'}' => { self.i += 1; break } _ => return Option::None } } }
                    X::Map(m)
                }
                _ => {
                    let s = self.i;
                    if self.peek() == b'-' { self.i += 1 }
                    if self.peek() == b'0' { self.i += 1 } else if self.digits() == 0 { return Option::None }
                    if self.peek() == b'.' { self.i += 1; if self.digits() == 0 { return Option::None } }
                    if self.peek() == b'e' || self.peek() == b'E' { self.i += 1; if self.peek() == b'-' || self.peek() == b'+' { self.i += 1 } if self.digits() == 0 { return Option::None } }
                    X::Float(std::str::from_utf8(&self.b[s..self.i]).unwrap().parse().unwrap())
                }
            };
            self.ws();
            Some(r)
        }
    }
    fn same(a: &X, b: &X) -> bool {
        match (a, b) {
            (X::None, X::None) => true, (X::Boolean(x), X::Boolean(y)) => x == y, (X::Integer(x), X::Integer(y)) => x == y, (X::Float(x), X::Float(y)) => x.to_bits() == y.to_bits(),
            (X::String(x), X::String(y)) => { let (x, y) = (x.as_bytes(), y.as_bytes()); if x.len() != y.len() { return false } let mut r = true; for i in 0..x.len() { r &= x[i] == y[i] } r }
            (X::List(x), X::List(y)) => { if x.len() != y.len() { return false } for i in 0..x.len() { if !same(&x[i], &y[i]) { return false } } true }
            (X::Map(x), X::Map(y)) => { if x.len() != y.len() { return false } for ((k, v), (l, w)) in x.iter().zip(y) { if k.as_bytes() != l.as_bytes() || !same(v, w) { return false } } true }
            _ => false,
        }
    }
    fn json(mut e: Env, t: String) {
        let call = cm::parse("parse@json t").unwrap();
        // the decimal-to-binary conversion works on concrete digits
        let b: Vec<u8> = t.bytes().map(|c| if c.is_ascii_digit() { sv::conc(c as u64) as u8 } else { c }).collect();
        let t = unsafe { String::from_utf8_unchecked(b) };
        // whether vertical tabs and form feeds are blanks is left open
        let mut ok = true;
        for c in t.bytes() { ok &= (c != 11) & (c != 12) }
        sv::assume(ok);
        e.define("t", X::String(t.clone()));
        let r = call.eval(&mut e);
        let mut j = J { b: t.as_bytes(), i: 0 };
        let w = match j.value() { Some(v) if j.i == t.len() => Some(v), _ => Option::None };
        match w {
            Some(v) => { sv::reach("value"); sv::assert(matches!(&r, Ok(x) if same(x, &v)), "a JSON text gives the value it describes") }
            _ => { sv::reach("error"); sv::assert(r.is_err(), "what is not JSON is an error") }
        }
    }
    #[no_mangle] pub extern "C" fn hx_json1() {
        // no text is no value
        let n = sv::choose(2, "n");
        let mut e = cm::env();
        if n == 1 { json(e, sv::ascii(1, "t")); return }
        e.define("t", X::String(String::new()));
        sv::assert(matches!(cm::run("parse@json t", &mut e), Ok(X::None)), "no JSON text is no value");
    }
    /// characters of any size in strings, keys and outside
    #[no_mangle] pub extern "C" fn hx_jsonw() { let e = cm::env(); let f = ["\"#\"", "\"a\\n#\\u00e9b#\"", "{\"#\":\"#x\"}", "[1#]", "\"\\#\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa#\"", "#"][sv::choose(7, "form")]; json(e, fill(f, &sv::text(1, "c"))) }
    #[no_mangle] pub extern "C" fn hx_json2() { json(cm::env(), sv::ascii(2, "t")) }
    #[no_mangle] pub extern "C" fn hx_json3() { json(cm::env(), sv::ascii(3, "t")) }
    #[no_mangle] pub extern "C" fn hx_json5() { json(cm::env(), sv::ascii(5, "t")) }
    #[no_mangle] pub extern "C" fn hx_json4() { json(cm::env(), sv::ascii(4, "t")) }
    fn fill(t: &str, c: &str) -> String { let mut r = String::new(); for x in t.chars() { if x == '#' { r.push_str(c) } else { r.push(x) } } r }
    const FORMS: [&str; 34] = ["12345678901234567#", "0.1000000000000000055511#", "#e-310", "[1e#0]", "-#.0", "123456789#123456789e-5", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa#\"", "[[[[[#]]]]]", "{\"\":#,\"a\":\"\"}", "[\"\",[],{},null,false,#]", "{\"b\":#,\"a\":2,\"b\":[1]}", "1.7976931348623157e30#", "\"#\"", "\"a\\#b\"", "\"\\u00#9\"", "\"\\ud83d\\ude#0\"", "[1,#]", "[#1]", "[[]#", "{\"a\":#}", "{#:1}", "{\"a\":1#\"b\":2}", "{\"a\":1,\"#\":2}", "tru#", "1#5", "-#", "1.#", "2e#", "#1", "[true,false#null]", " # ", "\"\u{e9}#\u{1F600}\"", "{\"k\":{\"l\":[null,\"#\"]}}", "\"\\#"];
    #[no_mangle] pub extern "C" fn hx_jsonx() { let e = cm::env(); let f = FORMS[sv::choose(34, "form")]; json(e, fill(f, &sv::ascii(1, "c"))) }
    #[no_mangle] pub extern "C" fn hx_jsonx2() { let e = cm::env(); let f = FORMS[sv::choose(34, "form")]; json(e, fill(f, &sv::ascii(2, "c"))) }
    // ---- TOML ----------------------------------------------------------------
    fn toml(t: &str, e: &mut Env) -> Result<X, Error> { e.define("t", X::String(t.to_string())); cm::run("parse@toml t", e) }
    fn map(l: Vec<(&str, X)>) -> X { let mut m = BTreeMap::new(); for (k, v) in l { m.insert(k.to_string(), v); } X::Map(m) }
    fn digit(name: &str) -> (String, i64) { let c = sv::u8(name); sv::assume((c >= b'0') & (c <= b'9')); (String::from_utf8(vec![c]).unwrap(), (c - b'0') as i64) }
    #[no_mangle] pub extern "C" fn hx_toml() {
        let mut e = cm::env();
        let (d, n) = digit("d");
        let (f, m) = digit("f");
        let s = |t: &str| X::String(t.into());
        let i = |n: i64| X::Integer(n);
        let (t, w) = match sv::choose(19, "form") {
            12 => (format!("a = 12345678901234567{}\nb = -900719925474099{}\n", d, f), map(vec![("a", i(123456789012345670 + n)), ("b", i(-9007199254740990 - m))])),
            13 => (format!("a = [[{}], [], [\"\", \"x\"], [[{}, 1]]]\n", d, f), map(vec![("a", X::List(vec![X::List(vec![i(n)]), X::List(vec![]), X::List(vec![s(""), s("x")]), X::List(vec![X::List(vec![i(m), i(1)])])]))])),
            14 => ("a = false\nb = ''\nc = {}\nd = \"\"\"\nx\ny\"\"\"\ne = '''a\\b'''\nf = \"\\t\\u00e9\\U0001F600\\\"\"\n".into(), map(vec![("a", X::Boolean(false)), ("b", s("")), ("c", map(vec![])), ("d", s("x\ny")), ("e", s("a\\b")), ("f", s("\t\u{e9}\u{1F600}\""))])),
            15 => (format!("a = 1979-05-27T07:32:0{}Z\nb = 1979-05-27T00:32:00.5-07:00\nc = 07:32:0{}\n", d, f), map(vec![("a", X::String(format!("1979-05-27T07:32:0{}Z", d))), ("b", s("1979-05-27T00:32:00.5-07:00")), ("c", X::String(format!("07:32:0{}", f)))])),
            16 => ("a = 0.1\nb = 1e308\nc = -0.0\nd = 3.141592653589793\ne = inf\nf = 5e-324\n".into(), map(vec![("a", X::Float(0.1)), ("b", X::Float(1e308)), ("c", X::Float(-0.0)), ("d", X::Float(3.141592653589793)), ("e", X::Float(f64::INFINITY)), ("f", X::Float(5e-324))])),
            17 => (format!("\"a b\" = {}\n'c.d' = {}\n", d, f), map(vec![("a b", i(n)), ("c.d", i(m))])),
            18 => (format!("# only\n\n[a]\n[b]\nx = {}\n[c.d]\n[a.e]\ny = [\n 1, # one\n {},\n]\n", d, f), map(vec![("a", map(vec![("e", map(vec![("y", X::List(vec![i(1), i(m)]))]))])), ("b", map(vec![("x", i(n))])), ("c", map(vec![("d", map(vec![]))]))])),
            0 => (format!("a = {}\nb = \"x\"\n", d), map(vec![("a", i(n)), ("b", s("x"))])),
            1 => (format!("a = -1{}\n", d), map(vec![("a", i(-10 - n))])),
            2 => (format!("a = [{}, {}]\n", d, f), map(vec![("a", X::List(vec![i(n), i(m)]))])),
            3 => (format!("[t]\na = {}\n[t.u]\nb = {}\n", d, f), map(vec![("t", map(vec![("a", i(n)), ("u", map(vec![("b", i(m))]))]))])),
            4 => (format!("a.b = {}\n", d), map(vec![("a", map(vec![("b", i(n))]))])),
            5 => (format!("[[l]]\na = {}\n[[l]]\na = {}\n", d, f), map(vec![("l", X::List(vec![map(vec![("a", i(n))]), map(vec![("a", i(m))])]))])),
            6 => (format!("a = {{ x = {}, y = true }} # note\n", d), map(vec![("a", map(vec![("x", i(n)), ("y", X::Boolean(true))]))])),
            7 => (format!("a = 1_{}{}\n", d, f), map(vec![("a", i(100 + n * 10 + m))])),
            8 => ("a = 0x1F\nb = 0b101\nc = 0o17\n".into(), map(vec![("a", i(31)), ("b", i(5)), ("c", i(15))])),
            9 => ("a = 9223372036854775807\nb = -9223372036854775808\n".into(), map(vec![("a", i(i64::MAX)), ("b", i(i64::MIN))])),
            10 => ("d = 2020-01-02\nx = 0.5\ny = -2.5e1\n".into(), map(vec![("d", s("2020-01-02")), ("x", X::Float(0.5)), ("y", X::Float(-25.0))])),
            _ => (String::new(), map(vec![])),
        };
        sv::note(&t);
        let r = toml(&t, &mut e);
        sv::reach("value");
        sv::assert(matches!(&r, Ok(x) if same(x, &w)), "a TOML text gives the value it describes");
    }
    #[no_mangle] pub extern "C" fn hx_tomlstr() {
        // a character inside a basic string and a literal string
        let mut e = cm::env();
        let c = sv::chr("c");
        let b = c.as_bytes()[0];
        let lit = sv::choose(2, "literal") == 1;
        let t = if lit { format!("a = 'x{}'", c) } else { format!("a = \"x{}\"", c) };
        let r = toml(&t, &mut e);
        let bad = (b < 32 && b != 9) || b == 127 || if lit { b == b'\'' } else { b == b'"' || b == b'\\' };
        if bad { sv::reach("error"); sv::assert(r.is_err(), "what is not TOML is an error") }
        else { let mut s = String::from("x"); s.push_str(&c); sv::reach("value"); sv::assert(matches!(&r, Ok(x) if same(x, &map(vec![("a", X::String(s))]))), "a TOML text gives the value it describes") }
    }
    #[no_mangle] pub extern "C" fn hx_tomlbad() {
        let mut e = cm::env();
        let t = ["a", "a =", "= 1", "a = 1 2", "a = 01", "a = [1", "a = {x = 1", "[t", "a = 1\na = 2", "[t]\n[t]", "a = 9223372036854775808", "a = \"x", "a = truE", "a = 1__0", "a = _1", "a = 'x\ny'"][sv::choose(16, "text")];
        sv::assert(toml(t, &mut e).is_err(), "what is not TOML is an error");
        sv::reach("error");
    }
}
use h::*;
sv_harnesses!(hx_json1 hx_jsonw hx_json2 hx_json3 hx_json4 hx_json5 hx_jsonx hx_jsonx2 hx_toml hx_tomlstr hx_tomlbad);
