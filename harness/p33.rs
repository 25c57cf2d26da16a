// The printed form of values (P33).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    use std::collections::BTreeMap;
    use Expression as X;
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    fn chars(s: &str) -> usize { let mut n = 0; for b in s.bytes() { if b & 0xc0 != 0x80 { n += 1 } } n }
    fn lines(s: &str) -> Vec<String> { let mut r = vec![]; let mut c = vec![]; for b in s.bytes() { if b == b'\n' { r.push(unsafe { String::from_utf8_unchecked(std::mem::take(&mut c)) }) } else { c.push(b) } } if c.len() > 0 { r.push(unsafe { String::from_utf8_unchecked(c) }) } r }
    fn digits(mut n: i64) -> String { let mut d = vec![]; let neg = n < 0; if neg { n = -n } loop { d.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break } } if neg { d.push(b'-') } d.reverse(); unsafe { String::from_utf8_unchecked(d) } }
    /// the one-line form
    fn dbg(v: &X) -> String {
        match v {
            X::None => "None".into(),
            X::Integer(i) => digits(*i),
            X::Float(_) => "1.5".into(),
            X::Boolean(b) => if *b { "True".into() } else { "False".into() },
            X::Symbol(s) => s.clone(),
            X::String(s) => { let mut r = vec![b'"']; for b in s.bytes() { match b { b'\n' => r.extend_from_slice(b"\\n"), b'"' | b'\\' => { r.push(b'\\'); r.push(b) } _ => r.push(b) } } r.push(b'"'); unsafe { String::from_utf8_unchecked(r) } }
            X::Bytes(b) => { let mut r = String::from("b["); for (i, x) in b.iter().enumerate() { if i > 0 { r.push_str(", ") } r.push_str(&digits(*x as i64)) } r.push(']'); r }
            X::List(l) => { let mut r = String::from("["); for (i, x) in l.iter().enumerate() { if i > 0 { r.push_str(", ") } r.push_str(&dbg(x)) } r.push(']'); r }
            X::Map(m) => { let mut r = String::from("{"); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { r.push_str(", ") } r.push_str(k); r.push_str(": "); r.push_str(&dbg(x)) } r.push('}'); r }
            X::Quote(q) => { let mut r = String::from("'"); r.push_str(&dbg(q)); r }
            _ => "?".into(),
        }
    }
    fn table(rows: &[Vec<String>], hs: [&str; 3], v: &str, top: [&str; 3], mid: [&str; 3], bot: [&str; 3]) -> String {
        let n = if rows.len() > 0 { rows[0].len() } else { 0 };
        let mut w = vec![0; n];
        for r in rows { for (i, c) in r.iter().enumerate() { for l in lines(c) { if chars(&l) > w[i] { w[i] = chars(&l) } } } }
        let rule = |h: &str, e: [&str; 3], out: &mut String| { out.push_str(e[0]); for (i, k) in w.iter().enumerate() { if i > 0 { out.push_str(e[1]) } for _ in 0..k + 2 { out.push_str(h) } } out.push_str(e[2]); out.push('\n') };
        let mut out = String::new();
        rule(hs[0], top, &mut out);
        for (j, r) in rows.iter().enumerate() {
            if j > 0 { rule(hs[1], mid, &mut out) }
            let cells: Vec<Vec<String>> = r.iter().map(|c| lines(c)).collect();
            let mut height = 1;
            for c in &cells { if c.len() > height { height = c.len() } }
            for y in 0..height {
                out.push_str(v);
                for (i, c) in cells.iter().enumerate() {
                    if i > 0 { out.push_str(v) }
                    out.push(' ');
                    let t = if y < c.len() { c[y].as_str() } else { "" };
                    out.push_str(t);
                    for _ in chars(t)..w[i] { out.push(' ') }
                    out.push(' ');
                }
                out.push_str(v);
                out.push('\n');
            }
        }
        rule(hs[2], bot, &mut out);
        out
    }
    /// the boxed form
    fn show(v: &X) -> String {
        match v {
            X::String(s) => s.clone(),
            X::List(l) => table(&[l.iter().map(|x| if let X::String(_) = x { dbg(x) } else { show(x) }).collect()], ["━"; 3], "┃", ["┏", "┳", "┓"], ["┣", "╋", "┫"], ["┗", "┻", "┛"]),
            X::Map(m) => { let mut rows = vec![]; for (k, x) in m { rows.push(vec![k.clone(), match x { X::List(_) | X::Map(_) => show(x), _ => dbg(x) }]) } table(&rows, ["═", "─", "─"], "│", ["╒", "╤", "╕"], ["├", "┼", "┤"], ["└", "┴", "┘"]) }
            _ => dbg(v),
        }
    }
    fn text(n: usize) -> String { sv::over(n, b"a z-\"\\\n_", "text") }
    fn item(kinds: &[usize]) -> X {
        match kinds[sv::choose(kinds.len() as u64, "kind")] {
            0 => X::None,
            1 => { let i = sv::i64("int"); sv::assume(i > -100 && i < 1000); cm::int(i) }
            2 => X::Boolean(sv::bool("bool")),
            3 => X::String(text(sv::choose(3, "len"))),
            4 => X::Float(1.5),
            5 => X::Symbol("sym".into()),
            6 => X::Bytes(vec![7, 200]),
            7 => X::List(vec![cm::int(5), X::String(text(1))]),
            8 => X::List(vec![]),
            9 => { let mut m = BTreeMap::new(); m.insert("key".into(), X::String(text(1))); X::Map(m) }
            12 => X::String(text(1)),
            10 => X::Quote(Box::new(X::Symbol("q".into()))),
            _ => X::List(vec![X::List(vec![X::Boolean(true)])]),
        }
    }
    fn check(v: X) {
        let (s, d) = (std::mem::ManuallyDrop::new(v.to_string()), format!("{:?}", v));
        sv::assert(same(d.as_bytes(), dbg(&v).as_bytes()), "the one-line form shows every part in order");
        let boxed = same(s.as_bytes(), show(&v).as_bytes());
        sv::assert(boxed || (matches!(v, X::List(_)) && same(s.as_bytes(), d.as_bytes())), "the printed form shows every part in order");
        sv::reach(if boxed { "boxed" } else { "line" });
        std::mem::forget(v);
    }
    const ALL: [usize; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    fn list(n: usize, kinds: &[usize]) { let mut l = vec![]; for _ in 0..n { l.push(item(kinds)) } check(X::List(l)) }
    fn map(n: usize, kinds: &[usize]) { let mut m = BTreeMap::new(); for i in 0..n { m.insert(String::from(["a", "", "key", "b c"][(i + sv::choose(2, "key")) % 4]), item(kinds)); } check(X::Map(m)) }
    #[no_mangle] pub extern "C" fn hx_one() { check(item(&ALL)) }
    #[no_mangle] pub extern "C" fn hx_list1() { list(1, &ALL) }
    #[no_mangle] pub extern "C" fn hx_list2() { list(2, &ALL) }
    #[no_mangle] pub extern "C" fn hx_list3() { list(3, &[2, 5, 7, 12]) }
    #[no_mangle] pub extern "C" fn hx_map1() { map(1, &ALL) }
    #[no_mangle] pub extern "C" fn hx_map2() { map(2, &[0, 2, 3, 5, 7, 9]) }
    /// as many elements as a number says: it fits, or it is one line
    #[no_mangle] pub extern "C" fn hx_long() { let n = 1 + sv::choose(70, "n"); let b = sv::bool("b"); let mut l = vec![]; for i in 0..n { l.push(if i % 3 == 0 { X::Boolean(b) } else { cm::int(i as i64) }) } check(X::List(l)) }
}
use h::*;
sv_harnesses!(hx_one hx_list1 hx_list2 hx_list3 hx_map1 hx_map2 hx_long);
