// Styled text (P27) and widgets (P28).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    /// the text without the escape sequences ESC [ ... m
    fn plain(t: &str) -> Option<Vec<u8>> {
        let b = t.as_bytes();
        let (mut r, mut i) = (vec![], 0);
        while i < b.len() {
            if b[i] == 0x1b {
                if i + 1 >= b.len() || b[i + 1] != b'[' { return Option::None }
                i += 2;
                while i < b.len() && b[i] != b'm' { if !(b[i].is_ascii_digit() || b[i] == b';') { return Option::None } i += 1 }
                if i >= b.len() { return Option::None }
            } else { r.push(b[i]) }
            i += 1;
        }
        Some(r)
    }
    fn off(t: &str) -> bool {
        // the last sequence turns the style off
        let b = t.as_bytes();
        let mut last = b.len();
        for i in 0..b.len() { if b[i] == 0x1b { last = i } }
        if last == b.len() { return true }
        let r = &b[last..];
        (r.len() >= 3 && same(&r[..3], b"\x1b[m")) || (r.len() >= 4 && same(&r[..4], b"\x1b[0m"))
    }
    fn highlight(t: String) {
        let r = super::syntax_highlight(&t);
        let p = plain(&r);
        sv::assert(p.is_some(), "only complete style sequences are added");
        sv::assert(same(&p.unwrap(), t.as_bytes()), "highlighting shows every character of the line, once and in order");
        sv::assert(off(&r), "highlighting leaves no style on");
        sv::reach("shown");
    }
    fn free(t: &str) { let mut ok = true; for c in t.bytes() { ok &= c != 0x1b } sv::assume(ok) }
    #[no_mangle] pub extern "C" fn hx_high2() { let t = sv::ascii(2, "t"); free(&t); highlight(t) }
    #[no_mangle] pub extern "C" fn hx_highw() { let n = 1 + sv::choose(2, "n"); let t = sv::text(n, "t"); free(&t); highlight(t) }
    #[no_mangle] pub extern "C" fn hx_high3() { let t = sv::ascii(3, "t"); free(&t); highlight(t) }
    #[no_mangle] pub extern "C" fn hx_high4() { let t = sv::ascii(4, "t"); free(&t); highlight(t) }
    #[no_mangle] pub extern "C" fn hx_highx() {
        // a symbolic character at a place in a longer line
        let l = ["echo #5 \"a\\n\" True", "let x = 1#2", "\"a\\#b\" | f", "if True { None# }", "x# -> y @ z", "\"open#", "1.5e#", "# comment\n#", "\"\\u{#}\"", "\u{e9}#\u{1F600}", "cd \"#\" >>> f", "12#34.5"][sv::choose(12, "line")];
        let c = sv::ascii(1, "c");
        free(&c);
        let mut t = String::new();
        let k = if l.starts_with('#') { 1 } else { 0 };
        for (i, x) in l.char_indices() { if x == '#' && i >= k { t.push_str(&c) } else { t.push(x) } }
        highlight(t)
    }
    const STYLES: [(&str, &str); 23] = [("bold", "1"), ("faint", "2"), ("italics", "3"), ("underline", "4"), ("blink", "5"), ("invert", "7"), ("strike", "9"), ("black", "90"), ("red", "91"), ("green", "92"), ("yellow", "93"), ("blue", "94"), ("magenta", "95"), ("cyan", "96"), ("white", "97"), ("dark@black", "30"), ("dark@red", "31"), ("dark@green", "32"), ("dark@yellow", "33"), ("dark@blue", "34"), ("dark@magenta", "35"), ("dark@cyan", "36"), ("dark@white", "37")];
    #[no_mangle] pub extern "C" fn hx_style() {
        let mut e = cm::env();
        let (name, code) = STYLES[sv::choose(23, "style")];
        let n = sv::choose(5, "n");
        let t = if n < 4 { sv::ascii(n, "t") } else { sv::text(1, "t") };
        e.define("t", X::String(t.clone()));
        let r = cm::run(&format!("fmt@{} t", name), &mut e);
        let s = match r { Ok(X::String(s)) => s, _ => { sv::assert(false, "a style gives text"); return } };
        let mut want = vec![0x1b, b'['];
        want.extend_from_slice(code.as_bytes());
        want.push(b'm');
        want.extend_from_slice(t.as_bytes());
        let b = s.as_bytes();
        sv::assert(b.len() >= want.len() && same(&b[..want.len()], &want), "a style puts its own sequence before the text");
        sv::assert(same(&b[want.len()..], b"\x1b[m\x1b[0m") || same(&b[want.len()..], b"\x1b[m") || same(&b[want.len()..], b"\x1b[0m"), "a style is turned off after the text");
        // stripping gives the text back
        let mut esc = false;
        for c in t.bytes() { esc |= c == 0x1b }
        if !esc { e.define("s", X::String(s)); sv::reach("stripped"); sv::assert(matches!(cm::run("fmt@strip s", &mut e), Ok(X::String(x)) if same(x.as_bytes(), t.as_bytes())), "strip removes the styles and nothing else") }
    }
    #[no_mangle] pub extern "C" fn hx_strip() {
        // texts between sequences come out unchanged
        let mut e = cm::env();
        let wide = sv::bool("wide");
        let (a, b) = if wide { (sv::text(1, "a"), sv::text(1, "b")) } else { (sv::ascii(2, "a"), sv::ascii(2, "b")) };
        free(&a); free(&b);
        let q = ["\x1b[m", "\x1b[0m", "\x1b[38;5;208m", "\x1b[1m\x1b[91m"][sv::choose(4, "q")];
        let mut t = a.clone(); t.push_str(q); t.push_str(&b); t.push_str("\u{e9}"); t.push_str(q);
        let mut want = a.clone(); want.push_str(&b); want.push_str("\u{e9}");
        e.define("t", X::String(t));
        sv::assert(matches!(cm::run("fmt@strip t", &mut e), Ok(X::String(x)) if same(x.as_bytes(), want.as_bytes())), "strip removes the styles and nothing else");
        sv::reach("stripped");
    }
    /// the lines are the text broken at blanks and line ends, and within words too long for a line; a text cut short if not all
    /// goes past a break at i: at a line end, at blanks where the line does not fit, or inside a word that fits no line
    fn brk(t: &[u8], i: &mut usize, w: usize) -> bool {
        let mut blank = false;
        while *i < t.len() && t[*i] == b' ' { *i += 1; blank = true }
        if *i == t.len() { return false }
        if t[*i] == b'\n' { *i += 1; return true }
        let (mut x, mut y) = (*i, *i);
        while x > 0 && t[x - 1] != b'\n' { x -= 1 }
        while y < t.len() && t[y] != b'\n' { y += 1 }
        while y > x && t[y - 1] == b' ' { y -= 1 }
        if y - x <= w { return false }
        if blank { return true }
        let (mut x, mut y) = (*i, *i);
        while x > 0 && t[x - 1] != b'\n' && t[x - 1] != b' ' { x -= 1 }
        while y < t.len() && t[y] != b'\n' && t[y] != b' ' { y += 1 }
        y - x > w
    }
    fn broken(t: &[u8], lines: &[Vec<u8>], w: usize, all: bool) -> bool {
        let mut i = 0;
        for (k, l) in lines.iter().enumerate() {
            if k > 0 && !brk(t, &mut i, w) { return !all && i == t.len() && lines[k..].iter().all(|l| l.is_empty()) }
            for c in l { if i < t.len() && t[i] == *c { i += 1 } else { return false } }
        }
        while i < t.len() && t[i] == b' ' && all { i += 1 }
        i == t.len() || (!all && brk(t, &mut i, w))
    }
    fn wrap(max: u64) {
        let mut e = cm::env();
        let n = sv::choose(max + 1, "n");
        let t = sv::over(n, b"ab \n", "t");
        let w = 1 + sv::choose(5, "w");
        let v = match sv::choose(3, "value") { 0 => X::String(t.clone()), 1 => X::Symbol(t.clone()), _ => X::List(vec![X::String(t.clone()), cm::int(12)]) };
        let list = matches!(v, X::List(_));
        let text = if list { v.to_string() } else { t.clone() };
        if list && n > 1 { return }
        e.define("t", v); e.define("w", cm::int(if list { 200 } else { w as i64 }));
        let r = match cm::run("fmt@wrap t w", &mut e) { Ok(X::String(s)) => s, _ => { sv::assert(false, "wrapping gives text"); return } };
        if list { sv::assert(same(r.trim_end().as_bytes(), text.trim_end().as_bytes()), "text that fits is unchanged"); return }
        let mut ls = vec![vec![]];
        for c in r.bytes() { if c == b'\n' { ls.push(vec![]) } else { let k = ls.len() - 1; ls[k].push(c) } }
        for l in &ls { sv::assert(l.len() <= w, "a wrapped line fits the columns") }
        sv::assert(broken(text.as_bytes(), &ls, w, true), "wrapping breaks lines at blanks, and changes nothing else");
        sv::reach("wrapped");
    }
    #[no_mangle] pub extern "C" fn hx_wrap() { wrap(5) }
    #[no_mangle] pub extern "C" fn hx_wrap7() { wrap(7) }
    // ---- P28 -----------------------------------------------------------------
    fn lines(s: &str) -> Vec<Vec<char>> { let mut r = vec![vec![]]; for c in s.chars() { if c == '\n' { r.push(vec![]) } else { let k = r.len() - 1; r[k].push(c) } } r }
    fn widget(text: usize) {
        let mut e = cm::env();
        let a = ["T", "", "ab", "\u{e9}\u{4e16}", "abcd", "title"][sv::choose(6, "title")].to_string();
        let b = sv::ascii(sv::choose(text as u64 + 1, "bn"), "text");
        let mut ok = true;
        for c in b.bytes() { ok &= (c == b'a') | (c == b' ') | (c == b'\n') }
        sv::assume(ok);
        let (w, h) = (5 + sv::choose(3, "w") as i64, 3 + sv::choose(3, "h") as i64);
        e.define("a", X::String(a.clone())); e.define("b", X::String(b.clone())); e.define("w", cm::int(w)); e.define("h", cm::int(h));
        let r = cm::run("widget@create a b w h", &mut e);
        if a.chars().count() as i64 > w - 2 { sv::reach("refused"); sv::assert(r.is_err(), "a title that does not fit is an error"); return }
        let s = match r { Ok(X::String(s)) => s, _ => { sv::assert(false, "a widget is text"); return } };
        let l = lines(&s);
        sv::assert(l.len() == h as usize, "a widget has exactly its height");
        for x in &l { sv::assert(x.len() == w as usize, "every line of a widget has exactly its width") }
        sv::assert(l[0][0] == '\u{250c}' && l[0][w as usize - 1] == '\u{2510}' && l[h as usize - 1][0] == '\u{2514}' && l[h as usize - 1][w as usize - 1] == '\u{2518}', "a widget has its corners");
        let mut top = vec![];
        for c in &l[0][1..w as usize - 1] { if *c != '\u{2500}' { top.push(*c) } }
        sv::assert(top.len() == a.chars().count() && top.iter().zip(a.chars()).all(|(x, y)| *x == y), "a widget shows its title");
        // the text, broken into lines, as far as it fits
        let mut rows: Vec<Vec<u8>> = vec![];
        for m in &l[1..h as usize - 1] {
            sv::assert(m[0] == ' ' && m[w as usize - 1] == ' ', "a widget keeps its margins");
            let mut x = vec![];
            for c in &m[1..] { x.push(*c as u8) }
            while x.last() == Some(&b' ') { x.pop(); }
            rows.push(x)
        }
        let mut t = b.as_bytes().to_vec();
        while t.last() == Some(&b' ') { t.pop(); }
        sv::assert(broken(&t, &rows, w as usize - 2, false), "a widget shows its text in order, as far as there are lines");
        sv::reach("drawn");
    }
    #[no_mangle] pub extern "C" fn hx_widget() { widget(3) }
    #[no_mangle] pub extern "C" fn hx_widget5() { widget(5) }
    #[no_mangle] pub extern "C" fn hx_size() {
        // any size: a widget or an error, never a crash
        let mut e = cm::env();
        let (mut w, mut h) = (sv::choose(4, "width") as i64 + 4, sv::choose(4, "height") as i64 + 2);
        sv::opaque(true);
        if w == 4 { w = sv::i64("w"); sv::assume(w <= 4) }
        if h == 2 { h = sv::i64("h"); sv::assume(h <= 2) }
        e.define("w", cm::int(w)); e.define("h", cm::int(h));
        let r = cm::run("widget@create \"ab\" \"x\" w h", &mut e);
        let ok = (w > 4) & (h >= 3);
        if r.is_ok() { sv::reach("drawn"); sv::assert(ok, "a size that is too small is an error") } else { sv::reach("refused"); sv::assert(!ok, "a size that is large enough is accepted") }
    }
    fn join(texts: Vec<String>) {
        let mut e = cm::env();
        let across = sv::choose(2, "across") == 1;
        let mut src = String::from(if across { "widget@joinx" } else { "widget@joiny" });
        for (i, t) in texts.iter().enumerate() { let n = ["a", "b", "c"][i]; e.define(n, X::String(t.clone())); src.push(' '); src.push_str(n) }
        let r = cm::run(&src, &mut e);
        let ls = |s: &str| -> Vec<Vec<u8>> { let mut r = vec![]; let mut l = vec![]; for c in s.bytes() { if c == b'\n' { r.push(std::mem::take(&mut l)) } else { l.push(c) } } if !l.is_empty() { r.push(l) } r };
        if across {
            let mut t = vec![];
            for x in &texts { t.push(ls(x)) }
            for x in &t { if x.len() != t[0].len() { sv::reach("refused"); sv::assert(r.is_err(), "widgets of different heights are not joined side by side"); return } }
            let mut want = vec![];
            for i in 0..t[0].len() { for x in &t { want.extend_from_slice(&x[i]) } want.push(b'\n') }
            sv::reach("joined");
            sv::assert(matches!(r, Ok(X::String(s)) if same(s.as_bytes(), &want)), "joined side by side, every line is the lines of the widgets in order");
        } else {
            let trim = |s: &str| -> Vec<u8> { let b = s.as_bytes(); let (mut i, mut j) = (0, b.len()); while i < j && b[i] == b'\n' { i += 1 } while j > i && b[j - 1] == b'\n' { j -= 1 } b[i..j].to_vec() };
            let first = |b: &[u8]| -> usize { let mut n = 0; for c in b { if *c == b'\n' { break } if *c & 0xc0 != 0x80 { n += 1 } } n };
            let mut t = vec![];
            for x in &texts { t.push(trim(x)) }
            for x in &t { if first(x) != first(&t[0]) { sv::reach("refused"); sv::assert(r.is_err(), "widgets of different widths are not joined one above the other"); return } }
            if t[0].is_empty() { return }
            let mut want = vec![];
            for x in &t { if !want.is_empty() { want.push(b'\n') } want.extend_from_slice(x) }
            sv::reach("joined");
            sv::assert(matches!(r, Ok(X::String(s)) if same(s.as_bytes(), &want)), "joined one above the other, the widgets follow each other unchanged");
        }
    }
    #[no_mangle] pub extern "C" fn hx_join() {
        let mut t = vec![];
        for n in ["x", "y"] { let k = sv::choose(4, "n"); t.push(sv::over(k, b"pq\n", n)) }
        join(t)
    }
    #[no_mangle] pub extern "C" fn hx_join3() {
        let mut t = vec![];
        for n in ["x", "y", "z"] { let k = sv::choose(3, "n"); let mut s = sv::over(k, b"p\n", n); if sv::bool("wide") { s.push('\u{2502}') } t.push(s) }
        join(t)
    }
    /// widgets drawn by create, joined: still a rectangle, with every line of each
    #[no_mangle] pub extern "C" fn hx_boxes() {
        let mut e = cm::env();
        let c = sv::ascii(1, "c");
        let b = c.as_bytes()[0];
        sv::assume((b > b' ') & (b < 0x7f));
        e.define("c", X::String(c.clone()));
        let mut size = vec![];
        for n in ["x", "y", "z"] {
            let (w, h) = (6 + sv::choose(2, "w"), 3 + sv::choose(2, "h"));
            size.push((w, h));
            let v = cm::run(&format!("widget@create \"{}\" c {} {}", n, w, h), &mut e).unwrap();
            e.define(n, v);
        }
        let get = |e: &Environment, n: &str| -> Vec<Vec<char>> { match e.get(n) { Some(X::String(s)) => lines(&s), _ => vec![] } };
        let across = sv::choose(2, "across") == 1;
        let r = cm::run(if across { "widget@joinx x y z" } else { "widget@joiny x y z" }, &mut e);
        let fit = (0..3).all(|i| if across { size[i].1 == size[0].1 } else { size[i].0 == size[0].0 });
        if !fit { sv::reach("refused"); sv::assert(r.is_err(), "widgets that do not fit together are refused"); return }
        let s = match r { Ok(X::String(s)) => s, _ => { sv::assert(false, "widgets that fit together are joined"); return } };
        let mut want: Vec<Vec<char>> = vec![];
        for n in ["x", "y", "z"] { for (i, l) in get(&e, n).into_iter().enumerate() { if across && i < want.len() { want[i].extend(l) } else { want.push(l) } } }
        let mut got = lines(&s);
        if across { got.pop(); }
        sv::assert(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)), "joined widgets have every line of each");
        sv::reach("joined");
    }
}
use h::*;
sv_harnesses!(hx_high2 hx_highw hx_high3 hx_high4 hx_highx hx_style hx_strip hx_wrap hx_wrap7 hx_widget hx_widget5 hx_size hx_join hx_join3 hx_boxes);
