// Tokenizer: lossless tiling (P01) and lexical classification (P02).
include!("sv.rs");
include!("lex.inc.rs");
mod h {
    use super::*;
    fn utf8(n: usize) -> String {
        let v = sv::bytes(n, "src");
        let ok = std::str::from_utf8(&v).is_ok();
        sv::assume(ok);
        unsafe { String::from_utf8_unchecked(v) }
    }
    fn tiling(s: &str) {
        let (toks, diags) = dune::tokenize(s);
        let mut at = 0;
        let mut ok = true;
        for t in &toks {
            ok &= t.range.start() == at && t.range.end() > at;
            at = t.range.end();
            ok &= s.is_char_boundary(at);
        }
        sv::assert(ok, "tokens are contiguous, non-empty and end on character boundaries");
        sv::assert(at == s.len(), "tokens cover the whole input");
        sv::assert(diags.len() == toks.len(), "one diagnostic per token");
        if toks.len() > 1 { sv::reach("several tokens") } else { sv::reach("one token") }
    }
    #[no_mangle]
    pub extern "C" fn hx_utf8_2() { tiling(&utf8(2)) }
    #[no_mangle]
    pub extern "C" fn hx_utf8_3() { tiling(&utf8(3)) }
    #[no_mangle]
    pub extern "C" fn hx_utf8_4() { tiling(&utf8(4)) }
    fn lit(n: usize) {
        // inside a string literal: the escape sub-language
        let mut s = String::from("\"");
        let v = sv::bytes(n, "body");
        let mut ok = true;
        for i in 0..n {
            let c = v[i];
            ok &= c == b'"' || c == b'\\' || c == b'u' || c == b'{' || c == b'}' || c == b'd' || c == b'8' || c == b'n' || c == b'x' || c == 0xc3 || c == 0xa9;
        }
        sv::assume(ok);
        sv::assume(std::str::from_utf8(&v).is_ok());
        s.push_str(unsafe { std::str::from_utf8_unchecked(&v) });
        tiling(&s);
    }
    #[no_mangle]
    pub extern "C" fn hx_lit_5() { lit(5) }
    #[no_mangle]
    pub extern "C" fn hx_lit_8() { lit(8) }

    fn classify(s: &str) {
        let b = s.as_bytes();
        let (toks, diags) = dune::tokenize(s);
        let mut i = 0;
        let mut k = 0;
        while i < b.len() {
            let (kind, len, diag) = lex::next(b, i);
            if k >= toks.len() {
                sv::assert(false, "too few tokens");
                return;
            }
            let t = &toks[k];
            sv::assert(t.range.start() == i && t.range.end() == i + len, "token extent");
            sv::assert(lex::kind_code(t.kind) == kind, "token kind");
            let d = match &diags[k] {
                dune::Diagnostic::Valid => 0,
                dune::Diagnostic::InvalidStringEscapes(_) => 1,
                dune::Diagnostic::InvalidNumber(_) => 2,
                dune::Diagnostic::IllegalChar(_) => 3,
                dune::Diagnostic::NotTokenized(_) => 4,
            };
            sv::assert(d == diag, "diagnostic");
            match kind { 0 => sv::reach("punct"), 1 => sv::reach("op"), 3 => sv::reach("string"), 4 => sv::reach("int"), 7 => sv::reach("symbol"), 8 => sv::reach("ws"), _ => () }
            k += 1;
            i += len;
        }
        sv::assert(k == toks.len(), "too many tokens");
    }
    #[no_mangle]
    pub extern "C" fn hx_class_3() { classify(&sv::ascii(3, "src")) }
    #[no_mangle]
    pub extern "C" fn hx_class_4() { classify(&sv::ascii(4, "src")) }
    #[no_mangle]
    pub extern "C" fn hx_class_num() {
        // number grammar, longer words
        classify(&sv::over(6, b"-0159.a \n", "src"))
    }
    #[no_mangle]
    pub extern "C" fn hx_class_op() { classify(&sv::over(5, b"<>=!|&/-~*+%@a1 ", "src")) }
    #[no_mangle]
    pub extern "C" fn hx_class_op6() { classify(&sv::over(6, b"<>=!|&/-~*+%@a1 ", "src")) }
    #[no_mangle]
    pub extern "C" fn hx_class_kw() {
        // keywords with a symbolic neighbour on each side
        let w = ["None", "then", "else", "let", "for", "if", "in", "True", "False", "to"][sv::choose(10, "word")];
        let mut s = String::new();
        s.push_str(&sv::ascii(1, "left"));
        s.push_str(w);
        s.push_str(&sv::ascii(1, "right"));
        classify(&s)
    }
    #[no_mangle]
    pub extern "C" fn hx_class_str() {
        let mut s = String::from("\"");
        s.push_str(&sv::over(6, b"\"\\u{}d8nx ", "body"));
        classify(&s)
    }
    #[no_mangle]
    pub extern "C" fn hx_class_u() {
        let mut s = String::from("\"\\u{");
        s.push_str(&sv::ascii(5, "body"));
        s.push('}');
        classify(&s)
    }
    #[no_mangle]
    pub extern "C" fn hx_class_uhex() {
        let n = sv::choose(6, "digits") + 1;
        let mut s = String::from("\"\\u{");
        s.push_str(&sv::over(n, b"018adDfFg", "body"));
        s.push_str(["}", "", "}\""][sv::choose(3, "end")]);
        classify(&s)
    }
    sv_harnesses! {hx_class_uhex hx_utf8_2 hx_utf8_3 hx_utf8_4 hx_lit_5 hx_lit_8 hx_class_3 hx_class_4 hx_class_num hx_class_op hx_class_op6 hx_class_kw hx_class_str hx_class_u}
}
