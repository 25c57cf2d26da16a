// Maps (P19) and text (P20).
include!("sv.rs");
include!("cm.inc.rs");
include!("val.inc.rs");
mod h {
    use super::*;
    use std::collections::BTreeMap;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    fn same(a: &X, b: &X) -> bool { val::eq(a, b) }
    fn start() -> Env { let e = cm::env(); sv::opaque(true); e }
    fn gives(src: &str, e: &mut Environment, want: X, what: &str) {
        sv::note(src);
        match cm::run(src, e) {
            Ok(v) => { sv::reach("value"); sv::assert(same(&v, &want), what) }
            Err(_) => sv::assert(false, "a valid call does not fail"),
        }
    }
    fn fails(src: &str, e: &mut Environment) {
        sv::note(src);
        match cm::run(src, e) {
            Ok(_) => sv::assert(false, "an argument it cannot use is an error"),
            Err(x) => { sv::reach("error"); sv::assert(x.code() == 9, "an argument it cannot use is an error") }
        }
    }
    // ---- P19 ---------------------------------------------------------------
    type M = Vec<(String, X)>;
    fn key(name: &str) -> String { match sv::choose(3, "key") { 0 => String::new(), 1 => "ab".into(), _ => sv::over(1, b"abcdef", name) } }
    fn key1(name: &str) -> String { sv::over(1, b"abcdef", name) }
    fn get(m: &M, k: &str) -> Option<X> { let mut r = Option::None; for (l, v) in m { if l == k { r = Some(v.clone()) } } r }
    fn put(m: &mut M, k: &str, v: X) { for e in m.iter_mut() { if e.0 == k { e.1 = v; return } } m.push((k.to_string(), v)) }
    fn del(m: &mut M, k: &str) { m.retain(|e| e.0 != k) }
    fn sorted(m: &M) -> M {
        let mut r: M = vec![];
        for (k, v) in m { let mut i = 0; while i < r.len() && val::bytes_cmp(r[i].0.as_bytes(), k.as_bytes()) == std::cmp::Ordering::Less { i += 1 } r.insert(i, (k.clone(), v.clone())) }
        r
    }
    fn expr(m: &M) -> X { let mut r = BTreeMap::new(); for (k, v) in m { r.insert(k.clone(), v.clone()); } X::Map(r) }
    /// any integers; the first value may be of another kind, the first key of another length
    fn map(n: usize, name: &str) -> M {
        let mut m = vec![];
        for i in 0..n {
            let k = if i == 0 { key(name) } else { key1(name) };
            let x = cm::int(sv::i64(name));
            let x = if i > 0 { x } else { match sv::choose(6, "other") { 0 => x, 1 => X::None, 2 => X::List(vec![x]), 3 => X::Boolean(false), 4 => cm::string(""), _ => expr(&vec![("b".into(), x)]) } };
            put(&mut m, &k, x)
        }
        m
    }
    fn two(a: X, b: X) -> X { X::List(vec![a, b]) }
    fn dict(max: u64) {
        let mut e = start();
        let a = sorted(&map(sv::choose(max, "len"), "a"));
        let k = key("k");
        let x = sv::i64("x");
        let x = [cm::int(x), X::None][sv::choose(2, "none")].clone();
        e.define("A", expr(&a)); e.define("k", cm::string(&k)); e.define("x", x.clone());
        let (mut ins, mut rem) = (a.clone(), a.clone());
        put(&mut ins, &k, x.clone()); del(&mut rem, &k);
        let (mut items, mut keys, mut vals) = (vec![], vec![], vec![]);
        for (k, v) in &a { items.push(two(cm::string(k), v.clone())); keys.push(cm::string(k)); vals.push(v.clone()) }
        let n = cm::int(a.len() as i64);
        let at = match get(&a, &k) { Some(v) => v, _ => X::None };
        let has = X::Boolean(get(&a, &k).is_some());
        match sv::choose(19, "fn") {
            0 => gives("dict@items A", &mut e, X::List(items), "items are the pairs in key order"),
            1 => gives("dict@keys A", &mut e, X::List(keys), "keys are the keys in order"),
            2 => gives("dict@values A", &mut e, X::List(vals), "values are the values in key order"),
            3 => gives("keys A", &mut e, X::List(keys), "keys are the keys in order"),
            4 => gives("vals A", &mut e, X::List(vals), "values are the values in key order"),
            5 => gives("dict@len A", &mut e, n, "the length is the number of entries"),
            6 => gives("len A", &mut e, n, "the length is the number of entries"),
            7 => gives("dict@insert A k x", &mut e, expr(&ins), "insert sets exactly that key"),
            8 => gives("insert A k x", &mut e, expr(&ins), "insert sets exactly that key"),
            9 => gives("dict@remove A k", &mut e, expr(&rem), "remove removes exactly that key"),
            10 => gives("dict@has? A k", &mut e, has, "has? tells whether the key is there"),
            11 => gives("A@(k)", &mut e, at, "@ gives the value under the key, or None"),
            12 => gives("dict@from-items (dict@items A)", &mut e, expr(&a), "from-items is the inverse of items"),
            13 => { let mut w = vec![]; for v in vals { match v { X::List(l) => for v in l { w.push(v) }, X::Map(m) => for v in m.values() { w.push(v.clone()) }, v => w.push(v) } } gives("dict@flatten A", &mut e, X::List(w), "flatten gives the values in key order") }
            14 => gives("(dict@insert A k x)@(k)", &mut e, x, "an inserted value is found again"),
            15 => gives("dict@has? (dict@remove A k) k", &mut e, X::Boolean(false), "a removed key is gone"),
            16 => gives("dict@from-items [[k, 1], [k, x]]", &mut e, expr(&vec![(k.clone(), x)]), "the last of equal keys wins"),
            17 => if get(&a, &k).is_some() { gives("A - k", &mut e, at, "a key taken from a map gives its value") } else { fails("A - k", &mut e) },
            _ => { if k.len() == 0 { return } let l = format!("A@{}", k); gives(&l, &mut e, at, "@ gives the value under the key, or None") }
        }
        sv::assert(same(&e.get("A").unwrap(), &expr(&a)), "the argument is not changed");
    }
    #[no_mangle] pub extern "C" fn hx_dict() { dict(3) }
    #[no_mangle] pub extern "C" fn hx_dict3() { dict(4) }
    fn sets(max: u64) {
        let mut e = start();
        let a = sorted(&map(sv::choose(max, "len"), "a"));
        let b = sorted(&map(sv::choose(max, "len"), "b"));
        e.define("A", expr(&a)); e.define("B", expr(&b));
        let (mut u, mut i, mut d) = (a.clone(), vec![], vec![]);
        for (k, v) in &b { put(&mut u, k, v.clone()) }
        for (k, v) in &a { if get(&b, k).is_some() { i.push((k.clone(), v.clone())) } else { d.push((k.clone(), v.clone())) } }
        match sv::choose(6, "fn") {
            0 => gives("dict@union A B", &mut e, expr(&u), "union has every entry, the second map's where both have the key"),
            1 => gives("dict@intersect A B", &mut e, expr(&i), "intersect keeps the first map's entries whose key the second has"),
            2 => gives("dict@difference A B", &mut e, expr(&d), "difference keeps the first map's entries whose key the second lacks"),
            3 => gives("dict@union (dict@difference A B) (dict@intersect A B)", &mut e, expr(&a), "difference and intersect split the map"),
            4 => gives("[A, {b = B}]@0", &mut e, expr(&a), "a map in a list is the map"),
            _ => gives("{a = A, b = B}@b", &mut e, expr(&b), "a map in a map is the map"),
        }
        sv::assert(same(&e.get("A").unwrap(), &expr(&a)) & same(&e.get("B").unwrap(), &expr(&b)), "the arguments are not changed");
    }
    #[no_mangle] pub extern "C" fn hx_sets() { sets(3) }
    #[no_mangle] pub extern "C" fn hx_sets3() { sets(4) }
    #[no_mangle] pub extern "C" fn hx_dictbad() {
        let mut e = start();
        let x = sv::i64("x");
        e.define("x", cm::int(x)); e.define("L", X::List(vec![cm::int(x)])); e.define("A", expr(&vec![("a".into(), cm::int(x))]));
        match sv::choose(22, "fn") {
            0 => gives("dict@items L", &mut e, X::List(vec![two(cm::int(0), cm::int(x))]), "the items of a list are its elements with their positions"),
            1 => gives("dict@len L", &mut e, cm::int(1), "the length is the number of elements"),
            2 => gives("dict@flatten [L, [[x], {b = x}], x]", &mut e, X::List(vec![cm::int(x), cm::int(x), cm::int(x), cm::int(x)]), "flatten leaves no nesting"),
            3 => gives("dict@flatten x", &mut e, X::List(vec![cm::int(x)]), "flatten of one value is a list of it"),
            4 => gives("x@a", &mut e, X::None, "@ of what has no elements is None"),
            5 => gives("L@a", &mut e, X::None, "@ of a list with a key is None"),
            6 => gives("A@0", &mut e, X::None, "@ of a map with a position is None"),
            7 => gives("{a = {b = x}}@a@b", &mut e, cm::int(x), "@ chains to the left"),
            8 => gives("A@a@b", &mut e, X::None, "@ of what has no elements is None"),
            9 => gives("dict@keys x", &mut e, X::None, "the keys of what is no map are None"),
            10 => gives("dict@insert L 0 x", &mut e, X::None, "inserting into what is no map is None"),
            11 => gives("dict@union A L", &mut e, X::None, "the union with what is no map is None"),
            12 => fails("keys L", &mut e),
            13 => fails("vals x", &mut e),
            14 => fails("len x", &mut e),
            15 => fails("insert A 0 x", &mut e),
            16 => fails("dict@keys A A", &mut e),
            17 => fails("dict@insert A", &mut e),
            18 => fails("dict@union A", &mut e),
            19 => fails("dict@has? A", &mut e),
            20 => gives("dict@from-items [x, [x], [\"b\", x, x], [\"a\", x]]", &mut e, expr(&vec![("a".into(), cm::int(x))]), "from-items takes exactly the pairs"),
            _ => gives("dict@insert A 5 x", &mut e, expr(&vec![("5".into(), cm::int(x)), ("a".into(), cm::int(x))]), "a key that is no string is its text"),
        }
    }
    // ---- P20 ---------------------------------------------------------------
    fn strs(v: &[String]) -> X { let mut r = vec![]; for x in v { r.push(X::String(x.clone())) } X::List(r) }
    fn st(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
    fn at(t: &[u8], p: &[u8], i: usize) -> bool { if i + p.len() > t.len() { return false } let mut r = true; for j in 0..p.len() { r &= t[i + j] == p[j] } r }
    /// positions of the non-overlapping occurrences of p, from the left
    fn cut(t: &[u8], p: &[u8]) -> Vec<usize> { let (mut r, mut i) = (vec![], 0); while i + p.len() <= t.len() { if at(t, p, i) { r.push(i); i += p.len() } else { i += 1 } } r }
    fn pieces(t: &[u8], p: &[u8]) -> Vec<String> { let (mut r, mut from) = (vec![], 0); for i in cut(t, p) { r.push(st(&t[from..i])); from = i + p.len() } r.push(st(&t[from..])); r }
    fn ws(c: u8) -> bool { c == 32 || (c >= 9 && c <= 13) }
    fn low(c: u8) -> bool { c >= b'a' && c <= b'z' }
    fn upp(c: u8) -> bool { c >= b'A' && c <= b'Z' }
    fn dig(c: u8) -> bool { c >= b'0' && c <= b'9' }
    fn find(n: usize, alpha: &[u8]) {
        let mut e = start();
        let t = sv::over(sv::choose(n as u64 + 1, "len"), alpha, "t");
        let p = sv::over(1 + sv::choose(2, "plen"), alpha, "p");
        e.define("T", cm::string(&t)); e.define("P", cm::string(&p));
        let (tb, pb) = (t.as_bytes(), p.as_bytes());
        let mut any = false;
        for i in 0..=tb.len() { any |= at(tb, pb, i) }
        match sv::choose(11, "fn") {
            0 => gives("string@split P T", &mut e, strs(&pieces(tb, pb)), "split cuts at every separator"),
            1 => gives("(string@split P) T", &mut e, strs(&pieces(tb, pb)), "split cuts at every separator"),
            2 => gives("let s = string@split P; s T", &mut e, strs(&pieces(tb, pb)), "split cuts at every separator"),
            3 => gives("string@join (string@split P T) P", &mut e, cm::string(&t), "join is the inverse of split"),
            4 => { let mut w = String::new(); for (i, q) in pieces(tb, pb).iter().enumerate() { if i > 0 { w.push_str("<>") } w.push_str(q) } gives("string@replace T P \"<>\"", &mut e, X::String(w), "replace replaces every occurrence") }
            5 => { let mut w = String::new(); for q in pieces(tb, pb).iter() { w.push_str(q) } gives("string@replace T P \"\"", &mut e, X::String(w), "replace replaces every occurrence") }
            6 => gives("string@contains? T P", &mut e, X::Boolean(any), "contains? finds an occurrence anywhere"),
            7 => gives("string@starts-with? T P", &mut e, X::Boolean(at(tb, pb, 0)), "starts-with? looks at the start"),
            8 => gives("string@ends-with? T P", &mut e, X::Boolean(tb.len() >= pb.len() && at(tb, pb, tb.len() - pb.len())), "ends-with? looks at the end"),
            9 => gives("string@starts-with? (T + P) T", &mut e, X::Boolean(true), "starts-with? looks at the start"),
            _ => gives("string@ends-with? (P + T) T", &mut e, X::Boolean(true), "ends-with? looks at the end"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_find() { find(4, b"ab,") }
    #[no_mangle] pub extern "C" fn hx_find6() { find(6, b"ab") }
    fn parts(n: usize) {
        let mut e = start();
        let which = sv::choose(10, "fn");
        let alpha: &[u8] = match which { 0 | 1 | 7 => b"ab\n\r", 2 | 3 => b"a\nb", 4 => b"a b\t\n", _ => b"a b\n" };
        let t = sv::over(sv::choose(n as u64 + 1, "len"), alpha, "t");
        e.define("T", cm::string(&t));
        let b = t.as_bytes();
        let mut lines = pieces(b, b"\n");
        if lines[lines.len() - 1].is_empty() { lines.pop(); }
        let k = lines.len();
        for i in 0..k { if (i + 1 < k || (b.len() > 0 && b[b.len() - 1] == b'\n')) && lines[i].ends_with('\r') { lines[i].pop(); } }
        let mut words: Vec<String> = vec![];
        let mut inside = false;
        for &c in b { if ws(c) { inside = false } else { if !inside { words.push(String::new()) } let w = words.len() - 1; words[w].push(c as char); inside = true } }
        let (mut i, mut j) = (0, b.len());
        while i < j && ws(b[i]) { i += 1 }
        let ls = i;
        while j > i && ws(b[j - 1]) { j -= 1 }
        let mut te = b.len();
        while te > 0 && ws(b[te - 1]) { te -= 1 }
        match which {
            0 => gives("string@lines T", &mut e, strs(&lines), "lines are what line ends separate"),
            1 => gives("lines T", &mut e, strs(&lines), "lines are what line ends separate"),
            2 => gives("string@paragraphs T", &mut e, strs(&pieces(b, b"\n\n")), "paragraphs are what blank lines separate"),
            3 => { let mut w = 0; for l in pieces(b, b"\n") { if l.len() > w { w = l.len() } } gives("string@get-width T", &mut e, cm::int(w as i64), "the width is that of the widest line") }
            4 => gives("string@words T", &mut e, strs(&words), "words are what blanks separate"),
            5 => gives("string@trim T", &mut e, X::String(st(&b[i..j])), "trim removes the blanks at both ends"),
            6 => gives("string@trim-start T", &mut e, X::String(st(&b[ls..])), "trim-start removes the blanks at the start"),
            7 => gives("string@trim-end T", &mut e, X::String(st(&b[..te])), "trim-end removes the blanks at the end"),
            8 => gives("string@trim-start (string@trim-end T)", &mut e, X::String(st(&b[i..j])), "trim is both"),
            _ => gives("string@is-whitespace? T", &mut e, X::Boolean(i == b.len()), "is-whitespace? is true for blanks only"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_parts() { parts(4) }
    #[no_mangle] pub extern "C" fn hx_parts6() { parts(6) }
    // characters: each symbolic ASCII or one of two multi-byte letters
    fn mixed(n: usize) -> (String, Vec<String>) {
        let mut cs = vec![];
        for _ in 0..n { cs.push(match sv::choose(3, "char") { 0 => sv::ascii(1, "c"), 1 => "\u{e9}".to_string(), _ => "\u{65e5}".to_string() }) }
        let mut t = String::new();
        for c in &cs { t.push_str(c) }
        (t, cs)
    }
    #[no_mangle] pub extern "C" fn hx_chars() {
        let mut e = start();
        let (t, cs) = mixed(sv::choose(4, "len"));
        let n = sv::i64("n");
        e.define("T", cm::string(&t)); e.define("n", cm::int(n));
        let len = cm::int(cs.len() as i64);
        let mut rev = String::new();
        for c in cs.iter().rev() { rev.push_str(c) }
        match sv::choose(12, "fn") {
            0 => gives("string@chars T", &mut e, strs(&cs), "chars are the characters in order"),
            1 => gives("string@len T", &mut e, len, "the length is the number of characters"),
            2 => gives("len T", &mut e, len, "the length is the number of characters"),
            3 => gives("list@len T", &mut e, len, "the length is the number of characters"),
            4 => gives("dict@len T", &mut e, len, "the length is the number of characters"),
            5 => gives("string@rev T", &mut e, X::String(rev), "rev reverses the characters"),
            6 => gives("string@rev (string@rev T)", &mut e, cm::string(&t), "rev is its own inverse"),
            7 => gives("string@join (string@chars T) \"\"", &mut e, cm::string(&t), "joining the characters gives the text"),
            8 => gives("string@to-string T", &mut e, cm::string(&t), "text is its own text"),
            9 => gives("str T", &mut e, cm::string(&t), "text is its own text"),
            10 => {
                // positions that lie on a character
                let (mut ok, mut i) = (false, 0);
                for k in 0..=cs.len() { ok |= n == i; if k < cs.len() { i += cs[k].len() as i64 } }
                if ok { let k = sv::conc(n as u64) as usize; gives("string@split-at T n", &mut e, strs(&[st(&t.as_bytes()[..k]), st(&t.as_bytes()[k..])]), "split-at cuts the text in two") } else { fails("string@split-at T n", &mut e) }
            }
            _ => {
                let (mut ok, mut i) = (false, 0);
                for k in 0..=cs.len() { ok |= n == i; if k < cs.len() { i += cs[k].len() as i64 } }
                if ok { let k = sv::conc(n as u64) as usize; let mut w = t.clone(); w.insert_str(k, "<>"); gives("insert T n \"<>\"", &mut e, X::String(w), "insert puts the text in that place") } else { fails("insert T n \"<>\"", &mut e) }
            }
        }
    }
    fn letters(n: usize) {
        let mut e = start();
        let t = sv::ascii(sv::choose(n as u64 + 1, "len"), "t");
        let b = t.as_bytes().to_vec();
        let which = sv::choose(12, "fn");
        let s = if which == 11 { [0, 1, 13, 25, 26, 27, -1, -40, i64::MAX][sv::choose(9, "shift")] } else { sv::i64("s") };
        e.define("T", cm::string(&t)); e.define("s", cm::int(s)); e.define("r", cm::int(s.wrapping_neg()));
        sv::assume(s != i64::MIN);
        let (mut lo, mut up, mut ti) = (b.clone(), b.clone(), b.clone());
        let mut start_of_word = true;
        for i in 0..b.len() {
            if upp(b[i]) { lo[i] = b[i] + 32 }
            if low(b[i]) { up[i] = b[i] - 32 }
            ti[i] = if start_of_word { up[i] } else { lo[i] };
            start_of_word = if ws(b[i]) { true } else { false };
        }
        let all = |f: &dyn Fn(u8) -> bool| { let mut r = true; for &c in &b { r &= f(c) } X::Boolean(r) };
        match which {
            0 => gives("string@to-lower T", &mut e, X::String(st(&lo)), "to-lower changes exactly the capital letters"),
            1 => gives("string@to-upper T", &mut e, X::String(st(&up)), "to-upper changes exactly the small letters"),
            2 => gives("string@to-title T", &mut e, X::String(st(&ti)), "to-title capitalises exactly the first letters of words"),
            3 => gives("string@is-title (string@to-title T)", &mut e, X::Boolean(true), "to-title gives title case"),
            4 => gives("string@is-title T", &mut e, X::Boolean(val::bytes_cmp(&b, &ti) == std::cmp::Ordering::Equal), "is-title? tells title case"),
            5 => gives("string@is-lower T", &mut e, all(&low), "is-lower is true for small letters only"),
            6 => gives("string@is-upper T", &mut e, all(&upp), "is-upper is true for capital letters only"),
            7 => gives("string@is-alpha? T", &mut e, all(&|c| low(c) | upp(c)), "is-alpha? is true for letters only"),
            8 => gives("string@is-numeric? T", &mut e, all(&dig), "is-numeric? is true for digits only"),
            9 => gives("string@is-alphanumeric? T", &mut e, all(&|c| low(c) | upp(c) | dig(c)), "is-alphanumeric? is true for letters and digits only"),
            10 => {
                let k = s.rem_euclid(26) as u8;
                let mut w = b.clone();
                for i in 0..b.len() { let base = if low(b[i]) { b'a' } else if upp(b[i]) { b'A' } else { 0 }; if base != 0 { let o = b[i] - base + k; w[i] = base + if o >= 26 { o - 26 } else { o } } }
                gives("string@caesar T s", &mut e, X::String(st(&w)), "every letter moves by the shift within its alphabet")
            }
            _ => gives("string@caesar (string@caesar T s) r", &mut e, cm::string(&t), "shifting back gives the text"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_letters() { letters(2) }
    #[no_mangle] pub extern "C" fn hx_letters3() { letters(3) }
    // text, lower, upper, is lower, is upper, letter, digit, blank
    const WIDE: [(&str, &str, &str, u8); 10] = [("a", "a", "A", 5), ("B", "b", "B", 6), ("1", "1", "1", 8), (" ", " ", " ", 16), ("\u{e9}", "\u{e9}", "\u{c9}", 5), ("\u{c9}", "\u{e9}", "\u{c9}", 6), ("\u{65e5}", "\u{65e5}", "\u{65e5}", 4), ("\u{df}", "\u{df}", "SS", 5), ("\u{3000}", "\u{3000}", "\u{3000}", 16), ("\u{663}", "\u{663}", "\u{663}", 8)];
    fn wide(n: usize) {
        let mut e = start();
        let (mut t, mut lo, mut up, mut ti, mut trim, mut rest, mut words) = (String::new(), String::new(), String::new(), String::new(), String::new(), String::new(), vec![String::new()]);
        let mut ks = vec![];
        for _ in 0..sv::choose(n as u64 + 1, "len") { ks.push(sv::choose(10, "char")) }
        let mut first = true;
        let mut all = 31;
        let sep = ["\u{e9}", "a", "\u{65e5}", " "][sv::choose(4, "sep")];
        let (mut cut, mut pieces, mut swapped) = (false, vec![String::new()], String::new());
        for &k in &ks {
            let (c, l, u, f) = WIDE[k];
            t.push_str(c); lo.push_str(l); up.push_str(u); ti.push_str(if first { u } else { l });
            first = f == 16;
            all &= f;
            if f == 16 { if words[words.len() - 1].len() > 0 { words.push(String::new()) } } else { let i = words.len() - 1; words[i].push_str(c) }
            if c == sep { cut = true; pieces.push(String::new()); swapped.push_str("--") } else { let i = pieces.len() - 1; pieces[i].push_str(c); swapped.push_str(c) }
            rest.push_str(c);
            if f != 16 || trim.len() > 0 { trim.push_str(c) }
        }
        if words[words.len() - 1].len() == 0 { words.pop(); }
        let start = trim.clone();
        let (mut end, mut i) = (t.clone(), ks.len());
        while i > 0 && WIDE[ks[i - 1]].3 == 16 { i -= 1; let w = WIDE[ks[i]].0.len(); end.truncate(end.len() - w); if trim.len() > 0 { let m = trim.len() - w; trim.truncate(m) } }
        e.define("T", cm::string(&t)); e.define("S", cm::string(sep));
        let st_ = |s: &str| X::String(s.to_string());
        match sv::choose(18, "fn") {
            0 => gives("string@to-lower T", &mut e, X::String(lo), "to-lower changes exactly the capital letters"),
            1 => gives("string@to-upper T", &mut e, X::String(up), "to-upper changes exactly the small letters"),
            2 => gives("string@to-title T", &mut e, X::String(ti), "to-title capitalises exactly the first letters of words"),
            3 => { let w = X::Boolean(t == ti); gives("string@is-title T", &mut e, w, "is-title tells title case") }
            4 => gives("string@is-lower T", &mut e, X::Boolean(all & 1 != 0), "is-lower is true for small letters only"),
            5 => gives("string@is-upper T", &mut e, X::Boolean(all & 2 != 0), "is-upper is true for capital letters only"),
            6 => gives("string@is-alpha? T", &mut e, X::Boolean(all & 4 != 0), "is-alpha? is true for letters only"),
            7 => gives("string@is-numeric? T", &mut e, X::Boolean(all & 8 != 0), "is-numeric? is true for digits only"),
            8 => { let mut r = true; for &k in &ks { r &= WIDE[k].3 & 12 != 0 } gives("string@is-alphanumeric? T", &mut e, X::Boolean(r), "is-alphanumeric? is true for letters and digits only") }
            9 => gives("string@is-whitespace? T", &mut e, X::Boolean(all & 16 != 0), "is-whitespace? is true for blanks only"),
            10 => gives("string@words T", &mut e, strs(&words), "words are what blanks separate"),
            11 => gives("string@trim T", &mut e, X::String(trim), "trim removes the blanks at both ends"),
            12 => gives("string@trim-start T", &mut e, X::String(start), "trim-start removes the blanks at the start"),
            13 => gives("string@trim-end T", &mut e, X::String(end), "trim-end removes the blanks at the end"),
            14 => gives("string@get-width T", &mut e, cm::int(ks.len() as i64), "the width is that of the widest line"),
            15 => gives("string@split S T", &mut e, strs(&pieces), "split cuts at every separator"),
            16 => gives("string@replace T S \"--\"", &mut e, X::String(swapped), "replace replaces every occurrence"),
            _ => gives("[string@contains? T S, string@caesar T 0, string@starts-with? (S + T) S, string@ends-with? (T + S) S]", &mut e, X::List(vec![X::Boolean(cut), st_(&t), X::Boolean(true), X::Boolean(true)]), "text of several bytes a character is text"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_wide2() { wide(2) }
    #[no_mangle] pub extern "C" fn hx_wide3() { wide(3) }
    #[no_mangle] pub extern "C" fn hx_convert() {
        let mut e = cm::env();
        let n = 1 + sv::choose(4, "len");
        let t = sv::over(n, b"0123456789-+ a", "t");
        e.define("T", cm::string(&t));
        let b = t.as_bytes();
        let sign = b[0] == b'-' || b[0] == b'+';
        let from = if sign { 1 } else { 0 };
        let mut ok = from < n;
        for i in from..n { ok &= dig(b[i]) }
        if ok {
            let mut v = 0i64;
            for i in from..n { v = v * 10 + (b[i] - b'0') as i64 }
            if b[0] == b'-' { v = -v }
            gives("int T", &mut e, cm::int(v), "the number the text shows")
        } else { fails("int T", &mut e) }
    }
    fn text_of(x: &X) -> String { if let X::String(s) = x { s.clone() } else { String::new() } }
    #[no_mangle] pub extern "C" fn hx_str() {
        let mut e = cm::env();
        let x = sv::i64("x");
        sv::assume((x > -1000) & (x < 10000));
        e.define("x", cm::int(x));
        e.define("t", X::String(sv::over(2, b"a\" \n", "t")));
        let t = e.get("t").unwrap();
        match sv::choose(14, "fn") {
            0 => gives("int (str x)", &mut e, cm::int(x), "a number survives being written and read"),
            1 => gives("int (string@to-string x)", &mut e, cm::int(x), "a number survives being written and read"),
            2 => gives("eval (parse@expr (str x))", &mut e, cm::int(x), "a number survives being written and read"),
            3 => gives("str None", &mut e, cm::string("None"), "a value has its text"),
            4 => gives("[str True, str False]", &mut e, two(cm::string("True"), cm::string("False")), "a value has its text"),
            5 => gives("str 'sym", &mut e, cm::string("sym"), "a value has its text"),
            6 => gives("str t", &mut e, t, "text is its own text"),
            7 => gives("string@to-string t", &mut e, t, "text is its own text"),
            8 => gives("eval (parse@expr (string@join [\"[\", x, \", True]\"] \"\"))", &mut e, two(cm::int(x), X::Boolean(true)), "a number survives being written and read"),
            9 => gives("string@join [t, None, True] \"\"", &mut e, { let mut w = text_of(&t); w.push_str("NoneTrue"); X::String(w) }, "join joins the texts of the values"),
            10 => gives("string@join [None, t] t", &mut e, { let mut w = String::from("None"); w.push_str(&text_of(&t)); w.push_str(&text_of(&t)); X::String(w) }, "join joins the texts of the values"),
            11 => gives("string@join [] t", &mut e, cm::string(""), "joining nothing is empty"),
            12 => gives("string@join [t] x", &mut e, t, "joining one text is that text"),
            _ => gives("(int x) == x && (int (str x)) == (int x)", &mut e, X::Boolean(true), "a number is its own number"),
        }
    }
}
use h::*;
sv_harnesses!(hx_dict hx_dict3 hx_sets hx_sets3 hx_dictbad hx_find hx_find6 hx_parts hx_parts6 hx_chars hx_letters hx_letters3 hx_wide2 hx_wide3 hx_convert hx_str);
