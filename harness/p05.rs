// Layout does not change meaning (P05).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    // every grammar form, tokens separated by single blanks
    const PROGS: [&str; 31] = [
        "let x = 1 ; x + 2",
        "let f = x -> y -> x + y ; f 1 2",
        "let m = x ~> { y ; x }",
        "if a b else c",
        "if ( a == 1 ) { b ; c } else { d }",
        "if a b",
        "for x in 0 to 9 { f x ; }",
        "for i in [ 1 , 2 , 3 ] { f i }",
        "[ 1 , \"a b\" , [ ] , True ]",
        "{ a = 1 , b = [ 2 ] , c = x -> x }",
        "{ let a = 1 ; a }",
        "f x y | g z | h",
        "f ( g x ) ( h y ) 3",
        "a @ b @ 0 + c",
        "( 1 + 2 ) * 3 - 4 // 5 % 6",
        "a && b || c && ( ! d )",
        "' x",
        "' ( f x ) ; ' { a ; b }",
        "\"out.txt\" >> \"text\" ; << \"in.txt\"",
        "a >>> b",
        "1.5 * -2 + None",
        "( )",
        "let a = { b ; } ; ( a )",
        "x -> y ~> ' ( x @ y )",
        "f ; ; g",
        "echo hello -l --long ./path/to/file",
        "let g = ( x -> x ) | f",
        "a <= b",
        "f { a = 1 } [ 2 ]",
        "{ }",
        "f \"a b\" 1 \"c\" x ; True \"d\" None + \"e\"",
    ];
    fn norm(e: Result<Expression, Error>) -> Option<Expression> { e.ok() }
    fn ws(name: &str) -> u8 {
        let c = sv::u8(name);
        sv::assume((c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r'));
        c
    }
    fn tokens(p: &'static str) -> Vec<&'static str> {
        // split at blanks outside string literals
        let b = p.as_bytes();
        let mut v = vec![];
        let (mut i, mut from, mut q) = (0, 0, false);
        while i <= b.len() {
            if i == b.len() || (b[i] == b' ' && !q) { v.push(&p[from..i]); from = i + 1 }
            else if b[i] == b'"' { q = !q }
            i += 1;
        }
        v
    }
    fn bracket(t: &str) -> bool { t.as_bytes()[0] == b'"' || t.len() == 1 && b"()[]{};,".contains(&t.as_bytes()[0]) }
    // every gap becomes an arbitrary blank
    fn blanks(p: &'static str) {
        let base = norm(cm::parse(p));
        let t = tokens(p);
        let mut s: Vec<u8> = vec![ws("lead")];
        for (i, x) in t.iter().enumerate() {
            s.extend_from_slice(x.as_bytes());
            s.push(ws(["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7"][i % 8]));
        }
        let v = norm(cm::parse(unsafe { std::str::from_utf8_unchecked(&s) }));
        if base.is_some() { sv::reach("valid") } else { sv::reach("invalid") }
        sv::assert(base == v, "the kind of blank between tokens does not matter");
    }
    #[no_mangle] pub extern "C" fn hx_blanks() { blanks(PROGS[sv::choose(31, "prog")]) }
    // one gap gets two blanks, a comment, or (beside a bracket) nothing
    fn gap(p: &'static str) {
        let base = norm(cm::parse(p));
        let t = tokens(p);
        let k = sv::choose(t.len() as u64 + 1, "gap");
        let how = sv::choose(3, "how");
        let mut s: Vec<u8> = vec![];
        for i in 0..t.len() + 1 {
            if i == k {
                match how {
                    0 => { s.push(ws("b0")); s.push(ws("b1")) }
                    1 => {
                        s.extend_from_slice(b" #");
                        let c = sv::u8("com");
                        sv::assume((c < 0x80) & (c != b'\n') & (c != b'\r'));
                        s.push(c);
                        let d = sv::u8("com2");
                        sv::assume((d < 0x80) & (d != b'\n') & (d != b'\r'));
                        s.push(d);
                        s.push(b'\n');
                    }
                    _ => {
                        let ok = (i > 0 && bracket(t[i - 1])) || (i < t.len() && bracket(t[i]));
                        if i > 0 && i < t.len() { sv::assume(ok) }
                    }
                }
            } else if i > 0 && i < t.len() { s.push(b' ') }
            if i < t.len() { s.extend_from_slice(t[i].as_bytes()) }
        }
        let v = norm(cm::parse(unsafe { std::str::from_utf8_unchecked(&s) }));
        match how { 1 => sv::reach("comment"), 2 => sv::reach("tight"), _ => () }
        sv::assert(base == v, "extra blanks, comments and omitted blanks beside brackets and quotes do not matter");
    }
    #[no_mangle] pub extern "C" fn hx_gap() { gap(PROGS[sv::choose(31, "prog")]) }
    // arbitrary short token sequences, blanks against newlines, tabs and comments
    const WORDS: [&str; 18] = ["x", "1", "\"s\"", "(", ")", "[", "]", "{", "}", ";", ",", "=", "let", "if", "+", "->", "'", "@"];
    fn seq(n: usize, names: &[&str]) {
        let mut a: Vec<u8> = vec![];
        let mut b: Vec<u8> = vec![];
        for i in 0..n {
            let w = WORDS[sv::choose(WORDS.len() as u64, names[i])];
            a.extend_from_slice(w.as_bytes());
            a.push(b' ');
            b.extend_from_slice(if i % 2 == 0 { b"\n" } else { b"\t#(\n" });
            b.extend_from_slice(w.as_bytes());
            b.push(b' ');
        }
        let x = norm(cm::parse(unsafe { std::str::from_utf8_unchecked(&a) }));
        let y = norm(cm::parse(unsafe { std::str::from_utf8_unchecked(&b) }));
        if x.is_some() { sv::reach("valid") } else { sv::reach("invalid") }
        sv::assert(x == y, "line breaks and comments between tokens do not matter");
    }
    #[no_mangle] pub extern "C" fn hx_seq3() { seq(3, &["w0", "w1", "w2"]) }
    #[no_mangle] pub extern "C" fn hx_seq4() { seq(4, &["w0", "w1", "w2", "w3"]) }
    #[no_mangle] pub extern "C" fn hx_seq5() { seq(5, &["w0", "w1", "w2", "w3", "w4"]) }
    sv_harnesses! {hx_blanks hx_gap hx_seq3 hx_seq4 hx_seq5}
}
