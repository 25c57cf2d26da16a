// An independent statement of the lexical grammar, in longest-word form.
#[allow(dead_code)]
mod lex {
    pub fn kind_code(k: dune::TokenKind) -> u8 {
        match k {
            dune::TokenKind::Punctuation => 0,
            dune::TokenKind::Operator => 1,
            dune::TokenKind::Keyword => 2,
            dune::TokenKind::StringLiteral => 3,
            dune::TokenKind::IntegerLiteral => 4,
            dune::TokenKind::FloatLiteral => 5,
            dune::TokenKind::BooleanLiteral => 6,
            dune::TokenKind::Symbol => 7,
            dune::TokenKind::Whitespace => 8,
            dune::TokenKind::Comment => 9,
        }
    }
    pub fn sym(c: u8) -> bool {
        (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') || c == b'_' || c == b'+' || c == b'-' || c == b'.' || c == b'~' || c == b'\\' || c == b'/' || c == b'?' || c == b'&' || c == b'<' || c == b'>' || c == b'$' || c == b'%' || c == b'#' || c == b'^' || c == b':'
    }
    fn at(b: &[u8], i: usize) -> u8 {
        if i < b.len() { b[i] } else { 0 }
    }
    fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
    fn hex(c: u8) -> Option<u32> {
        if digit(c) { Some((c - b'0') as u32) }
        else if c >= b'a' && c <= b'f' { Some((c - b'a') as u32 + 10) }
        else if c >= b'A' && c <= b'F' { Some((c - b'A') as u32 + 10) }
        else { None }
    }
    /// (kind, length, diagnostic) of the token starting at i.
    pub fn next(b: &[u8], i: usize) -> (u8, usize, u8) {
        let c = b[i];
        match c {
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'\'' | b',' | b';' => return (0, 1, 0),
            b'"' => return string(b, i),
            b'@' => return (1, 1, 0),
            b'!' => return if at(b, i + 1) == b'=' && !sym(at(b, i + 2)) { (1, 2, 0) } else { (1, 1, 0) },
            b'=' => return if at(b, i + 1) == b'=' && !sym(at(b, i + 2)) { (1, 2, 0) } else { (0, 1, 0) },
            b'*' => return if !sym(at(b, i + 1)) { (1, 1, 0) } else { (7, 1, 3) },
            b'|' => {
                if at(b, i + 1) == b'|' && !sym(at(b, i + 2)) { return (1, 2, 0) }
                return if !sym(at(b, i + 1)) { (1, 1, 0) } else { (7, 1, 3) };
            }
            b'#' => {
                let mut j = i;
                while j < b.len() && b[j] != b'\n' && b[j] != b'\r' { j += 1 }
                return (9, j - i, 0);
            }
            b' ' | b'\t' | b'\n' | b'\r' | 0x0c => {
                let mut j = i;
                while j < b.len() && (b[j] == b' ' || b[j] == b'\t' || b[j] == b'\n' || b[j] == b'\r' || b[j] == 0x0c) { j += 1 }
                return (8, j - i, 0);
            }
            _ => {}
        }
        if !sym(c) {
            return (7, 1, 3);
        }
        let mut j = i;
        while j < b.len() && sym(b[j]) { j += 1 }
        let w = &b[i..j];
        if w.len() == 1 && (c == b'<' || c == b'>') && at(b, j) == b'=' && !sym(at(b, j + 1)) {
            return (1, 2, 0);
        }
        match w {
            b"to" | b"&&" | b"//" | b"<<" | b">>" | b">>>" | b"<" | b">" | b"+" | b"-" | b"%" => return (1, w.len(), 0),
            b"->" | b"~>" => return (0, 2, 0),
            b"None" | b"then" | b"else" | b"let" | b"for" | b"if" | b"in" => return (2, w.len(), 0),
            b"True" | b"False" => return (6, w.len(), 0),
            _ => {}
        }
        // a number is recognised as a prefix of the word
        let mut k = i;
        if c == b'-' { k += 1 }
        if at(b, k) == b'0' { k += 1 } else {
            let s = k;
            while digit(at(b, k)) { k += 1 }
            if s == k { return (7, w.len(), 0) }
        }
        if at(b, k) != b'.' { return (4, k - i, 0) }
        k += 1;
        let s = k;
        while digit(at(b, k)) { k += 1 }
        (5, k - i, if s == k { 2 } else { 0 })
    }
    fn string(b: &[u8], i: usize) -> (u8, usize, u8) {
        let mut j = i + 1;
        let mut d = 0;
        while j < b.len() && b[j] != b'"' {
            if b[j] != b'\\' { j += 1; continue }
            let e = at(b, j + 1);
            if j + 1 < b.len() && (e == b'"' || e == b'\\' || e == b'b' || e == b'f' || e == b'n' || e == b'r' || e == b't') { j += 2; continue }
            if e == b'u' && at(b, j + 2) == b'{' && hex(at(b, j + 3)).is_some() {
                let mut k = j + 3;
                let mut v = 0u32;
                while k < j + 8 {
                    match hex(at(b, k)) { Some(h) => v = v * 16 + h, None => break }
                    k += 1;
                }
                if v >= 0xd800 && v <= 0xdfff { d = 1; j = k; continue }
                if at(b, k) == b'}' { j = k + 1 } else { d = 1; j = k }
                continue;
            }
            d = 1;
            j = if j + 2 <= b.len() { j + 2 } else { b.len() };
        }
        if j < b.len() { j += 1 }
        (3, j - i, d)
    }
}
