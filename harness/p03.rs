// Parsing and error reporting are total (P03).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    fn total(s: &str) {
        match cm::parse(s) {
            Ok(e) => { sv::reach("ok"); std::mem::drop(e) }
            Err(e) => {
                sv::reach("err");
                let m = e.to_string();
                sv::assert(!m.is_empty(), "the rendered error is not empty");
            }
        }
    }
    fn strip(s: &str) -> Vec<u8> {
        let b = s.as_bytes();
        let mut o = Vec::with_capacity(b.len());
        let mut i = 0;
        while i < b.len() {
            if b[i] == 0x1b {
                while b[i] != b'm' { i += 1 }
                i += 1;
                continue;
            }
            o.push(b[i]);
            i += 1;
        }
        o
    }
    // the report of a one-line error quotes the line it is on, with its number
    fn located(s: &str) {
        let (at, hint) = match dune::parse_script(s) {
            Err(nom::Err::Error(dune::SyntaxError::Expected { input, hint, .. })) | Err(nom::Err::Failure(dune::SyntaxError::Expected { input, hint, .. })) => (input, hint),
            Err(nom::Err::Failure(dune::SyntaxError::TokenizationErrors(d))) => match d[d.len() - 1] {
                dune::Diagnostic::IllegalChar(r) | dune::Diagnostic::InvalidNumber(r) => (r, None),
                _ => return,
            },
            _ => return,
        };
        let b = s.as_bytes();
        let mut line = 1;
        let mut from = 0;
        for i in 0..at.start() {
            if b[i] == b'\n' { line += 1; from = i + 1 }
        }
        for i in at.start()..at.end() {
            if b[i] == b'\n' { return }
        }
        let mut to = at.end();
        while to < b.len() && b[to] != b'\n' { to += 1 }
        let mut want = format!("      |\n{:>5} | ", line).into_bytes();
        want.extend_from_slice(&b[from..to]);
        want.extend_from_slice(b"\n      |\n");
        if let Some(h) = hint { want.extend_from_slice(format!("    hint: {}\n", h).as_bytes()) }
        let got = strip(&cm::parse(s).unwrap_err().to_string());
        sv::reach("located");
        if line > 1 { sv::reach("located after line 1") }
        sv::assert(got.len() >= want.len(), "report shows the offending line");
        sv::assert(got[got.len() - want.len()..] == want[..], "report shows the offending line and its number");
    }
    #[no_mangle] pub extern "C" fn hx_line4() { located(&sv::over(4, b"()[];=a1* \n", "src")) }
    #[no_mangle] pub extern "C" fn hx_line5() { located(&sv::over(5, b"()[];=a1* \n", "src")) }
    #[no_mangle] pub extern "C" fn hx_line6() { located(&sv::over(6, b"()[];=a1* \n", "src")) }
    #[no_mangle] pub extern "C" fn hx_line_tpl() { tpl(4) }
    #[no_mangle] pub extern "C" fn hx_line_tpl3() { tpl(3) }
    fn tpl(n: usize) {
        let mut s = String::from(["let a = 1;\n", "f x;\n\n", "# c\nlet b = ", "for i in\n", "{\n"][sv::choose(5, "lead")]);
        s.push_str(&sv::over(n, b"()];=a1* \n", "rest"));
        located(&s)
    }
    fn utf8(n: usize) -> String {
        let v = sv::bytes(n, "src");
        // ASCII, or é € as representatives of two- and three-byte characters
        let mut ok = true;
        for i in 0..n { let c = v[i]; ok &= (c < 0x80) | (c == 0xc3) | (c == 0xa9) | (c == 0xe2) | (c == 0x82) | (c == 0xac) }
        sv::assume(ok);
        let ok = std::str::from_utf8(&v).is_ok();
        sv::assume(ok);
        unsafe { String::from_utf8_unchecked(v) }
    }
    #[no_mangle] pub extern "C" fn hx_any2() { total(&utf8(2)) }
    #[no_mangle] pub extern "C" fn hx_any3() { total(&utf8(3)) }
    #[no_mangle] pub extern "C" fn hx_any4() { total(&utf8(4)) }
    #[no_mangle] pub extern "C" fn hx_punct5() { total(&sv::over(5, b"()[]{}',;=|@!a1\" \n", "src")) }
    #[no_mangle] pub extern "C" fn hx_punct6() { total(&sv::over(6, b"()[]{}',;=|@!a1\" \n", "src")) }
    #[no_mangle] pub extern "C" fn hx_kw() {
        // keyword-led forms with symbolic continuations
        let mut s = String::from(["let ", "for x ", "for x in ", "if ", "if a b else ", "x -> ", "x ~> ", "a << ", "a | ", "'", "{a = ", "1 to ", "a@"][sv::choose(13, "lead")]);
        s.push_str(&sv::over(3, b"()[]{}',;=|@!a1\" \n+-", "rest"));
        total(&s)
    }
    // a long line before and after the offending token
    #[no_mangle] pub extern "C" fn hx_wide() {
        let n = [0, 1, 70, 71, 72, 73, 74, 80, 150][sv::choose(9, "before")];
        let m = [0, 1, 71, 72, 73, 90][sv::choose(6, "after")];
        let mut s = String::new();
        for _ in 0..n { s.push('a') }
        s.push_str(&sv::over(2, b"=];\"\n)[ ", "mid"));
        for _ in 0..m { s.push('b') }
        total(&s)
    }
    // an error whose range spans several lines
    #[no_mangle] pub extern "C" fn hx_multiline() {
        let n = [0, 1, 70, 71, 72, 73, 100][sv::choose(7, "len")];
        let mut s = String::from(["a", "let", "for", "for x in 1", "for x", "(1", "{a = 1", "x -> let"][sv::choose(8, "lead")]);
        s.push_str(&sv::over(1, b"\n \"", "c0"));
        s.push_str("\"");
        for _ in 0..n { s.push('b') }
        s.push_str(&sv::over(3, b"\n\\\"x\r", "mid"));
        for _ in 0..n { s.push('b') }
        s.push_str(&sv::over(2, b"\"\n\\u{", "end"));
        total(&s)
    }
    sv_harnesses! {hx_any2 hx_any3 hx_any4 hx_punct5 hx_punct6 hx_kw hx_wide hx_multiline hx_line4 hx_line5 hx_line6 hx_line_tpl hx_line_tpl3}
}
