include!("sv.rs");
mod h {
    use super::*;
    #[no_mangle]
    pub extern "C" fn hx_conc() {
        let mut env = Environment::default();
        binary::init(&mut env);
        let x = dune::parse_script("let x = 5; let y = 9; echo (x * y + 2)").unwrap();
        let v = x.eval(&mut env);
        sv::note(&format!("{:?}", v));
        sv::note(&syntax_highlight("let x = 5"));
    }
    #[no_mangle]
    pub extern "C" fn hx_add() {
        let mut env = Environment::default();
        let (a, b) = (sv::i64("a"), sv::i64("b"));
        let r = Expression::Integer(a) - Expression::Integer(b);
        let w = a.wrapping_sub(b);
        match r { Expression::Integer(c) => {sv::reach("ok"); sv::assert(c == w, "sub") }, _ => sv::reach("err") }
    }
    #[no_mangle]
    pub extern "C" fn hx_parse() {
        let n = 3;
        let s = sv::ascii(n, "src");
        match dune::parse_script(&s) { Ok(_) => sv::reach("ok"), Err(_) => sv::reach("err") }
    }
    #[no_mangle]
    pub extern "C" fn hx_tok() {
        let n = 3;
        let s = sv::ascii(n, "src");
        let (t, _d) = dune::tokenize(&s);
        let mut tot = 0;
        for x in &t { tot += x.range.to_str(&s).len(); }
        sv::assert(tot <= n, "len");
    }
    sv_harnesses!{hx_conc hx_add hx_parse hx_tok}
}
