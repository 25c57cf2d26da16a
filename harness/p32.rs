// Random choices, the console and the keyboard (P32).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use std::io::Write;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    static mut SEED: u8 = 0;
    /// the system's random bytes
    unsafe fn random(p: *mut u8, n: usize) { for i in 0..n { SEED = SEED.wrapping_mul(5).wrapping_add(i as u8 + 3); *p.add(i) = SEED } }
    #[no_mangle] pub unsafe extern "C" fn syscall(nr: i64, p: *mut u8, n: usize, _: i64, _: i64, _: i64, _: i64) -> i64 { if nr == 318 { random(p, n); n as i64 } else { -1 } }
    #[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize { random(p, n); n as isize }
    fn seed(n: u64) { let s = sv::choose(n, "seed"); unsafe { SEED = s as u8 } }
    fn call(e: &mut Env, f: &str, args: Vec<X>) -> Result<X, Error> { X::Apply(Box::new(cm::parse(f).ok().unwrap()), args).eval(e) }
    #[no_mangle] pub extern "C" fn hx_int() {
        let mut e = cm::env();
        let f = cm::parse("rand@int").ok().unwrap();
        seed(16);
        sv::opaque(true);
        let l = sv::i64("from");
        let w: i64 = [1, 2, 3, 10, 255, 1 << 32, (1 << 62) + 1, i64::MAX, 0, -1, i64::MIN][sv::choose(11, "width")];
        let h = match l.checked_add(w) { Some(h) => h, _ => { sv::assume(false); 0 } };
        match X::Apply(Box::new(f), vec![cm::int(l), cm::int(h)]).eval(&mut e) {
            Ok(X::Integer(n)) => { sv::assert(w > 0 && l <= n && n < h, "a random integer is in its range"); sv::reach("number") }
            Ok(_) => sv::assert(false, "a random integer is an integer"),
            Err(x) => { sv::assert(w <= 0, "a range which is not empty has a random integer"); sv::reach("empty"); std::mem::forget(x) }
        }
    }
    fn items(n: usize) -> Vec<X> { let mut l = vec![]; for i in 0..n { l.push(X::List(vec![cm::int(i as i64), cm::int(sv::i64("item"))])) } l }
    fn find(l: &[X], k: usize) -> Option<i64> { let mut r = Option::None; for x in l { if let X::List(p) = x { if let (X::Integer(i), X::Integer(v)) = (&p[0], &p[1]) { if *i == k as i64 { if r.is_some() { return Option::None } r = Some(*v) } } } } r }
    fn list(n: usize) {
        let mut e = cm::env();
        let (c, s) = (cm::parse("rand@choose").ok().unwrap(), cm::parse("rand@shuffle").ok().unwrap());
        seed(8);
        sv::opaque(true);
        let l = items(n);
        match X::Apply(Box::new(s), vec![X::List(l.clone())]).eval(&mut e) {
            Ok(X::List(m)) => {
                sv::assert(m.len() == n, "shuffling keeps the number of elements");
                for k in 0..n { sv::assert(find(&m, k).is_some() && find(&m, k) == find(&l, k), "shuffling keeps every element") }
                sv::reach("shuffled");
            }
            _ => sv::assert(false, "a list is shuffled to a list"),
        }
        match X::Apply(Box::new(c), vec![X::List(l.clone())]).eval(&mut e) {
            Ok(v) => { let mut ok = false; let v = vec![v]; for k in 0..n { ok |= find(&v, k).is_some() && find(&v, k) == find(&l, k) } sv::assert(ok, "an element is chosen"); sv::reach("chosen") }
            Err(x) => { sv::assert(n == 0, "a list which is not empty has an element to choose"); sv::reach("empty"); std::mem::forget(x) }
        }
    }
    #[no_mangle] pub extern "C" fn hx_list() { list(sv::choose(5, "n")) }
    #[no_mangle] pub extern "C" fn hx_list8() { list(8) }
    #[no_mangle] pub extern "C" fn hx_sleep() {
        let mut e = cm::env();
        let f = cm::parse("time@sleep").ok().unwrap();
        sv::opaque(true);
        let n = sv::i64("ms");
        sv::assume(n < 1 << 13);
        let r = X::Apply(Box::new(f), vec![cm::int(n)]).eval(&mut e);
        sv::assert(matches!(r, Ok(X::None)), "sleeping gives nothing");
        sv::assert(os::get().slept == if n > 0 { (n / 1000, n % 1000 * 1_000_000) } else { (0, 0) }, "the shell sleeps for the time it is told");
        sv::reach("slept");
    }
    fn num(n: i64, out: &mut Vec<u8>) { out.extend_from_slice(n.to_string().as_bytes()) }
    fn small(name: &str) -> i64 { let n = sv::i64(name); sv::assume(n >= 0 && n < 100); n }
    fn out() -> &'static Vec<u8> { let _ = std::io::stdout().flush(); &os::get().out }
    const MOVES: [(&str, &str); 4] = [("console@cursor@move-up", "A"), ("console@cursor@move-down", "B"), ("console@cursor@move-right", "C"), ("console@cursor@move-left", "D")];
    const PLAIN: [(&str, &str); 7] = [("console@cursor@save-position", "\x1b[s"), ("console@cursor@restore-position", "\x1b[u"), ("console@cursor@hide", "\x1b[?25l"), ("console@cursor@show", "\x1b[?25h"), ("console@mode@alternate", "\x1b[?1049h"), ("console@mode@normal", "\x1b[?1049l"), ("console@flush", "")];
    #[no_mangle] pub extern "C" fn hx_cursor() {
        let mut e = cm::env();
        let mut want = vec![];
        match sv::choose(3, "what") {
            0 => { let (f, c) = MOVES[sv::choose(4, "move")]; let n = small("n"); want.extend_from_slice(b"\x1b["); num(n, &mut want); want.extend_from_slice(c.as_bytes()); sv::assert(call(&mut e, f, vec![cm::int(n)]).is_ok(), "the cursor moves") }
            1 => { let (x, y) = (small("x"), small("y")); want.extend_from_slice(b"\x1b["); num(y, &mut want); want.push(b';'); num(x, &mut want); want.push(b'f'); sv::assert(call(&mut e, "console@cursor@move-to", vec![cm::int(x), cm::int(y)]).is_ok(), "the cursor moves") }
            _ => { let (f, s) = PLAIN[sv::choose(7, "plain")]; want.extend_from_slice(s.as_bytes()); sv::assert(call(&mut e, f, vec![X::None]).is_ok(), "the console obeys") }
        }
        sv::assert(same(out(), &want), "the console is sent exactly the command");
        sv::reach("command");
    }
    #[no_mangle] pub extern "C" fn hx_write() {
        let mut e = cm::env();
        let (x, y) = (small("x"), small("y"));
        let t = sv::over(sv::choose(4, "len"), b"ab \n", "text");
        let mut want = vec![];
        let mut lines: Vec<Vec<u8>> = vec![];
        let mut c = vec![];
        for b in t.bytes() { if b == b'\n' { lines.push(std::mem::take(&mut c)) } else { c.push(b) } }
        if c.len() > 0 { lines.push(c) }
        for (i, l) in lines.iter().enumerate() {
            want.extend_from_slice(b"\x1b[s");
            for end in [b"H", b"f"] { want.extend_from_slice(b"\x1b["); num(y + i as i64, &mut want); want.push(b';'); num(x, &mut want); want.extend_from_slice(end) }
            want.extend_from_slice(l);
            want.extend_from_slice(b"\x1b[u");
        }
        sv::assert(call(&mut e, "console@write", vec![cm::int(x), cm::int(y), X::String(t)]).is_ok(), "text is written");
        sv::assert(same(out(), &want), "each line is written in its own row");
        sv::reach("written");
    }
    #[no_mangle] pub extern "C" fn hx_title() {
        let mut e = cm::env();
        let t = sv::ascii(sv::choose(3, "len"), "text");
        let mut want = b"\x1b]2;".to_vec();
        want.extend_from_slice(t.as_bytes());
        want.extend_from_slice(b"\x1b[0m");
        sv::assert(call(&mut e, "console@title", vec![X::String(t)]).is_ok(), "the title is set");
        sv::assert(same(out(), &want), "the title is the text");
        sv::reach("titled");
    }
    fn typed(n: usize, calls: usize) {
        let mut e = cm::env();
        let f = cm::parse("console@keyboard@read-line").ok().unwrap();
        let t = sv::bytes(n, "typed");
        let mut ok = true;
        for &b in &t { ok &= b < 128 || b == 0xc3 || b == 0xa9 || b == 0xff }
        sv::assume(ok);
        os::get().input = t.clone();
        let mut at = 0;
        for _ in 0..calls {
            let mut l = vec![];
            while at < n { l.push(t[at]); at += 1; if t[at - 1] == b'\n' { break } }
            match X::Apply(Box::new(f.clone()), vec![X::None]).eval(&mut e) {
                Ok(X::String(s)) => { sv::assert(same(s.as_bytes(), &l), "the line read is the line typed"); sv::reach("line") }
                Ok(_) => sv::assert(false, "a line read is text"),
                Err(x) => { sv::assert(std::str::from_utf8(&l).is_err(), "only what is no text is an error"); sv::reach("error"); std::mem::forget(x) }
            }
        }
    }
    #[no_mangle] pub extern "C" fn hx_typed2() { typed(2, 3) }
    #[no_mangle] pub extern "C" fn hx_typed4() { typed(4, 3) }
}
use h::*;
sv_harnesses!(hx_int hx_list hx_list8 hx_sleep hx_cursor hx_write hx_title hx_typed2 hx_typed4);
