// Lists (P17) and higher-order functions over them (P18).
include!("sv.rs");
include!("cm.inc.rs");
mod h {
    use super::*;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    fn ints(n: usize, name: &str) -> Vec<i64> { let mut v = vec![]; for _ in 0..n { v.push(sv::i64(name)) } v }
    /// elements: any integers, but one of them may be another kind of value
    fn els(n: usize, name: &str) -> Vec<X> {
        let mut v = vec![];
        for x in ints(n, name) { v.push(cm::int(x)) }
        if n > 0 {
            let k = sv::choose(8, "other");
            if k > 0 {
                let at = sv::choose(n as u64, "at");
                let x = sv::i64("other");
                v[at] = match k { 1 => X::None, 2 => X::List(vec![]), 3 => list(&[x]), 4 => X::Boolean(false), 5 => cm::string(""), 6 => X::Map({ let mut m = std::collections::BTreeMap::new(); m.insert("k".to_string(), cm::int(x)); m }), _ => X::List(vec![X::None, list(&[x, x])]) };
            }
        }
        v
    }
    fn ls(v: &[X]) -> X { X::List(v.to_vec()) }
    fn list(v: &[i64]) -> X { let mut r = vec![]; for x in v { r.push(cm::int(*x)) } X::List(r) }
    fn lists(v: Vec<X>) -> X { X::List(v) }
    pub fn eq(a: &X, b: &X) -> bool {
        match (a, b) {
            (X::Integer(a), X::Integer(b)) => a == b,
            (X::String(a), X::String(b)) | (X::Symbol(a), X::Symbol(b)) => a.as_bytes() == b.as_bytes(),
            (X::Boolean(a), X::Boolean(b)) => a == b,
            (X::Bytes(a), X::Bytes(b)) => a == b,
            (X::None, X::None) => true,
            (X::List(a), X::List(b)) => { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= eq(&a[i], &b[i]) } r }
            (X::Map(a), X::Map(b)) => { if a.len() != b.len() { return false } let mut r = true; for (k, v) in a { r &= b.get(k).map_or(false, |w| eq(v, w)) } r }
            _ => false,
        }
    }
    fn start() -> Env { let e = cm::env(); sv::opaque(true); e }
    fn gives(src: &str, e: &mut Environment, want: Option<X>) {
        sv::note(src);
        match (cm::run(src, e), want) {
            (Ok(v), Some(w)) => { sv::reach("value"); sv::assert(eq(&v, &w), "the function gives exactly the documented list, element or number") }
            (Err(x), Option::None) => { sv::reach("error"); sv::assert(x.code() == 9, "an argument it cannot use is an error") }
            (Ok(_), Option::None) => sv::assert(false, "an argument it cannot use is an error"),
            (Err(_), Some(_)) => sv::assert(false, "a valid call does not fail"),
        }
    }
    #[no_mangle] pub extern "C" fn hx_basic() {
        let mut e = start();
        let l = els(sv::choose(4, "len"), "l");
        let mut m = vec![];
        for x in ints(sv::choose(3, "len"), "m") { m.push(cm::int(x)) }
        let x = sv::i64("x");
        e.define("L", ls(&l)); e.define("M", ls(&m)); e.define("x", cm::int(x));
        let n = l.len();
        let (mut rev, mut tail, mut cons, mut app, mut zip) = (l.clone(), vec![], vec![cm::int(x)], l.clone(), vec![]);
        rev.reverse();
        for i in 1..n { tail.push(l[i].clone()) }
        for i in 0..n { cons.push(l[i].clone()) }
        app.push(cm::int(x));
        let swap = sv::choose(2, "swap") == 1;
        for i in 0..n.min(m.len()) { zip.push(if swap { ls(&[m[i].clone(), l[i].clone()]) } else { ls(&[l[i].clone(), m[i].clone()]) }) }
        let k = zip.len();
        let which = sv::choose(11, "fn");
        if !matches!(which, 6 | 7) { sv::assume(!swap) }
        match which {
            0 => gives("list@head L", &mut e, Some(if n == 0 { X::None } else { l[0].clone() })),
            1 => gives("list@tail L", &mut e, Some(ls(&tail))),
            2 => gives("list@rev L", &mut e, Some(ls(&rev))),
            3 => gives("list@len L", &mut e, Some(cm::int(n as i64))),
            4 => gives("list@cons x L", &mut e, Some(ls(&cons))),
            5 => gives("list@append L x", &mut e, Some(ls(&app))),
            6 => gives(if swap { "list@zip M L" } else { "list@zip L M" }, &mut e, Some(lists(zip))),
            7 => gives(if swap { "list@unzip (list@zip M L)" } else { "list@unzip (list@zip L M)" }, &mut e, Some(lists(if swap { vec![ls(&m[..k]), ls(&l[..k])] } else { vec![ls(&l[..k]), ls(&m[..k])] }))),
            8 => gives("list@list x L x", &mut e, Some(lists(vec![cm::int(x), ls(&l), cm::int(x)]))),
            9 => gives("len L", &mut e, Some(cm::int(n as i64))),
            _ => gives("list@rev (list@rev L)", &mut e, Some(ls(&l))),
        }
        sv::assert(eq(&e.get("L").unwrap(), &ls(&l)), "the argument is not changed");
    }
    fn cut(max: u64) {
        let mut e = start();
        let l = els(sv::choose(max, "len"), "l");
        let n = sv::i64("n");
        e.define("L", ls(&l)); e.define("n", cm::int(n));
        let len = l.len();
        // the position n, if it lies within the list
        let at = if n < 0 { 0 } else if n > len as i64 { len } else { n as usize };
        match sv::choose(9, "fn") {
            0 => if n >= 0 { gives("list@take n L", &mut e, Some(ls(&l[..at]))) } else { gives("(list@take n L) + (list@drop n L)", &mut e, Some(ls(&l))) },
            1 => if n >= 0 { gives("list@drop n L", &mut e, Some(ls(&l[at..]))) } else { gives("(list@take n L) + (list@drop n L)", &mut e, Some(ls(&l))) },
            2 => if n >= 0 { gives("list@split-at n L", &mut e, Some(lists(vec![ls(&l[..at]), ls(&l[at..])]))) } else { gives("(list@split-at n L) == [list@take n L, list@drop n L]", &mut e, Some(X::Boolean(true))) },
            3 => if n >= 0 { gives("(list@take n) L", &mut e, Some(ls(&l[..at]))) } else { gives("list@len L", &mut e, Some(cm::int(len as i64))) },
            4 => if n >= 0 { gives("let d = list@drop n; d L", &mut e, Some(ls(&l[at..]))) } else { gives("list@len L", &mut e, Some(cm::int(len as i64))) },
            5 => {
                let mut c = vec![];
                if n > 0 {
                    let mut i = 0;
                    let step = if n > len as i64 { len } else { n as usize };
                    while i < len { let j = if len - i < step { len } else { i + step }; c.push(ls(&l[i..j])); i = j }
                } else if len > 0 { c.push(ls(&l)) }
                gives("list@chunk n L", &mut e, Some(lists(c)))
            }
            6 => {
                let i = if n < 0 { n.wrapping_add(len as i64) } else { n };
                gives("list@nth n L", &mut e, if i >= 0 && i < len as i64 { Some(l[i as usize].clone()) } else { Option::None })
            }
            7 => gives("L@(n)", &mut e, Some(if n >= 0 && n < len as i64 { l[n as usize].clone() } else { X::None })),
            _ => {
                let x = sv::i64("x");
                e.define("x", cm::int(x));
                let mut w = l.clone();
                gives("insert L n x", &mut e, if n >= 0 && n <= len as i64 { w.insert(n as usize, cm::int(x)); Some(ls(&w)) } else { Option::None })
            }
        }
        sv::assert(eq(&e.get("L").unwrap(), &ls(&l)), "the argument is not changed");
    }
    #[no_mangle] pub extern "C" fn hx_cut() { cut(4) }
    #[no_mangle] pub extern "C" fn hx_cut7() { cut(8) }
    #[no_mangle] pub extern "C" fn hx_range() {
        let mut e = start();
        let (a, b) = (sv::i64("a"), sv::i64("b"));
        e.define("a", cm::int(a)); e.define("b", cm::int(b));
        // any start, at most 4 elements; or an empty range of any size
        let d = b.wrapping_sub(a);
        sv::assume((b < a) | ((d >= 0) & (d <= 4)));
        let incl = sv::choose(3, "fn");
        let mut w = vec![];
        let mut i = a;
        if b >= a { loop { if i == b { if incl == 0 { w.push(i) } break } w.push(i); i += 1 } }
        match incl {
            0 => gives("list@range a b", &mut e, Some(list(&w))),
            1 => gives("to a b", &mut e, Some(list(&w))),
            _ => gives("a to b", &mut e, Some(list(&w))),
        }
    }
    #[no_mangle] pub extern "C" fn hx_bad() {
        // every list function rejects arguments of the wrong kind or number
        let mut e = start();
        let x = sv::i64("x");
        e.define("x", cm::int(x)); e.define("L", list(&[x]));
        const BAD: [&str; 40] = ["list@head x", "list@tail x", "list@rev x", "list@len x", "list@cons x x", "list@append x x", "list@zip L x", "list@zip x L", "list@unzip x", "list@unzip L",
            "list@unzip [[x]]", "list@unzip [[x, x, x]]", "list@take L L", "list@take x x", "list@drop L L", "list@drop x x", "list@split-at L L", "list@split-at x x", "list@chunk L L", "list@chunk x x",
            "list@nth L L", "list@nth x x", "list@range L x", "list@range x L", "to x L", "list@head L L", "list@tail L L", "list@rev L L", "list@cons x", "list@cons x L L", "list@append L", "list@append L x x",
            "list@zip L", "list@zip L L L", "list@nth x", "list@range x", "list@foldl x x", "list@foldr x x x", "list@foldl x x x", "insert L L x"];
        gives(BAD[sv::choose(40, "bad")], &mut e, Option::None);
    }
    // ---- P18: functions over lists ------------------------------------------
    // pair builds a tree of its arguments, so order and number of calls show
    fn hof(max: u64) {
        let mut e = start();
        let l = els(sv::choose(max, "len"), "l");
        let (x, y) = (sv::i64("x"), sv::i64("y"));
        e.define("L", ls(&l)); e.define("x", cm::int(x)); e.define("y", cm::int(y));
        // names the definitions themselves use
        if sv::choose(2, "shadow") == 1 { for n in ["f", "acc", "list", "item", "result", "g", "arg0", "arg1"] { if n != "list" { e.define(n, cm::int(y)) } } }
        for (n, t) in [("pair", "p -> q -> [p, q]"), ("box", "p -> [p]"), ("pos", "p -> p > y"), ("truth", "p -> p"), ("second", "p -> q -> q"), ("seen", "p -> q -> [p == None, q]"), ("mpair", "p ~> q ~> [p, q]")] { let v = cm::run(t, &mut e).unwrap(); e.define(n, v) }
        let p2 = |a: X, b: X| X::List(vec![a, b]);
        let (mut left, mut right, mut boxes, mut kept) = (cm::int(x), cm::int(x), vec![], vec![]);
        for i in 0..l.len() { left = p2(left, l[i].clone()); boxes.push(ls(&[l[i].clone()])) }
        for i in (0..l.len()).rev() { right = p2(l[i].clone(), right) }
        let which = sv::choose(33, "fn");
        let mut all_ints = true;
        for x in &l { all_ints &= matches!(x, X::Integer(_)) }
        // other kinds do not compare with numbers
        if which >= 6 && which <= 9 && !all_ints { return }
        let (mut lens, mut true_) = (vec![], vec![]);
        if which >= 18 && which <= 20 { for x in &l { lens.push(match x { X::List(v) => cm::int(v.len() as i64), X::Map(_) => cm::int(1), X::String(_) => cm::int(0), _ => return }) } }
        if which >= 21 && which <= 23 { for x in &l { if match x { X::Integer(i) => *i != 0, X::None | X::Boolean(_) => false, X::String(_) => false, X::List(v) => v.len() > 0, _ => true } { true_.push(x.clone()) } } }
        if which >= 6 && which <= 9 { for i in 0..l.len() { if matches!(&l[i], X::Integer(i) if *i > y) { kept.push(l[i].clone()) } } }
        match which {
            0 => gives("list@foldl pair x L", &mut e, Some(left)),
            1 => gives("list@foldr pair x L", &mut e, Some(right)),
            2 => gives("fn@reduce pair x L", &mut e, Some(left)),
            3 => gives("(fn@reduce pair x) L", &mut e, Some(left)),
            4 => gives("(fn@reduce pair) x L", &mut e, Some(left)),
            5 => gives("let r = fn@reduce pair; (r x) L", &mut e, Some(left)),
            6 => gives("fn@filter pos L", &mut e, Some(ls(&kept))),
            7 => gives("(fn@filter pos) L", &mut e, Some(ls(&kept))),
            8 => gives("let k = fn@filter pos; k L", &mut e, Some(ls(&kept))),
            9 => gives("fn@filter (p -> p > y) L", &mut e, Some(ls(&kept))),
            10 => gives("fn@map box L", &mut e, Some(lists(boxes))),
            11 => gives("(fn@map box) L", &mut e, Some(lists(boxes))),
            12 => gives("let m = fn@map box; m L", &mut e, Some(lists(boxes))),
            13 => gives("fn@map (p -> [p]) L", &mut e, Some(lists(boxes))),
            14 => gives("for i in L { box i }", &mut e, Some(lists(boxes))),
            15 => gives("list@foldl mpair x L", &mut e, Some(left)),
            16 => gives("fn@map fn@id L", &mut e, Some(ls(&l))),
            17 => gives("fn@map (fn@compose box fn@id) L", &mut e, Some(lists(boxes))),
            18 => gives("fn@map len L", &mut e, Some(lists(lens))),
            19 => gives("(fn@map len) L", &mut e, Some(lists(lens))),
            20 => gives("for i in L { len i }", &mut e, Some(lists(lens))),
            21 => gives("fn@filter truth L", &mut e, Some(ls(&true_))),
            22 => gives("(fn@filter truth) L", &mut e, Some(ls(&true_))),
            23 => gives("fn@filter fn@id L", &mut e, Some(ls(&true_))),
            24 => { let mut w = vec![cm::int(x)]; for y in &l { w.push(y.clone()) } gives("list@foldl list@append [x] L", &mut e, Some(lists(w))) }
            26..=31 => {
                // an accumulator of any kind
                let (first, last) = (if l.is_empty() { cm::int(x) } else { l[0].clone() }, if l.is_empty() { cm::int(x) } else { l[l.len() - 1].clone() });
                let src = ["fn@reduce second x L", "(fn@reduce second) x L", "(fn@reduce second x) L", "list@foldl second x L", "list@foldr fn@const x L", "fn@reduce seen None L"][which as usize - 26];
                let want = if which == 30 { first } else if which < 31 { last } else { let mut none = true; let mut w = X::None; for y in &l { w = X::List(vec![X::Boolean(none), y.clone()]); none = false } w };
                gives(src, &mut e, Some(want))
            }
            32 => { let mut w = vec![]; for _ in &l { w.push(X::None) } gives("fn@map (p -> None) L", &mut e, Some(lists(w))) }
            _ => { let mut w = l.clone(); w.push(cm::int(x)); gives("list@foldr list@cons [x] L", &mut e, Some(lists(w))) }
        }
        sv::assert(eq(&e.get("L").unwrap(), &ls(&l)), "the argument is not changed");
    }
    #[no_mangle] pub extern "C" fn hx_hof() { hof(5) }
    #[no_mangle] pub extern "C" fn hx_hof6() { hof(7) }
    #[no_mangle] pub extern "C" fn hx_fail() {
        // the function fails on the elements equal to y: calls happen in order, once each, up to the first failure
        let mut e = start();
        let l = ints(sv::choose(4, "len"), "l");
        let (x, y) = (sv::i64("x"), sv::i64("y"));
        e.define("L", list(&l)); e.define("x", cm::int(x)); e.define("y", cm::int(y)); e.define("seen", list(&[]));
        for (n, t) in [("one", "p ~> { let seen = seen + [p]; if (p == y) { x x } else { p == x } }"), ("left", "acc ~> p ~> { let seen = seen + [p]; if (p == y) { x x } else { acc } }"), ("void", "acc ~> p ~> { let seen = seen + [p]; if (p == y) { x x } else { None } }"), ("right", "p ~> acc ~> { let seen = seen + [p]; if (p == y) { x x } else { acc } }")] {
            let v = cm::run(t, &mut e).unwrap(); e.define(n, v)
        }
        let which = sv::choose(9, "fn");
        let src = ["fn@map one L", "fn@filter one L", "list@foldl left x L", "list@foldr right x L", "fn@reduce left x L", "(for i in L { one i }) == [None]", "fn@map one (fn@map one L)", "list@foldl void x L", "fn@reduce void x L"][which];
        let r = cm::run(src, &mut e);
        let mut order = l.clone();
        if which == 3 { order.reverse() }
        let (mut want, mut failed) = (vec![], false);
        for v in &order { if !failed { want.push(*v); if *v == y { failed = true } } }
        sv::note(src);
        if failed { sv::reach("failed"); sv::assert(matches!(&r, Err(x) if x.code() == 1), "the function's error comes out") }
        else { sv::reach("succeeded"); if which != 6 || l.is_empty() { sv::assert(r.is_ok(), "no error comes out when the function does not fail") } }
        if which != 6 || failed { sv::assert(eq(&e.get("seen").unwrap(), &list(&want)), "the function is called once per element, in order, up to its first failure") }
        sv::assert(eq(&e.get("L").unwrap(), &list(&l)), "the argument is not changed");
    }
    #[no_mangle] pub extern "C" fn hx_comb() {
        let mut e = start();
        let (x, y, z) = (sv::i64("x"), sv::i64("y"), sv::i64("z"));
        let c = sv::bool("c");
        e.define("x", cm::int(x)); e.define("y", cm::int(y)); e.define("z", cm::int(z)); e.define("c", X::Boolean(c));
        if sv::choose(2, "shadow") == 1 { for n in ["f", "g", "arg0", "arg1", "arg2"] { e.define(n, cm::int(y)) } }
        for (n, t) in [("pair", "p -> q -> [p, q]"), ("three", "p -> q -> r -> [p, q, r]"), ("box", "p -> [p]"), ("dup", "p -> [p, p]")] { let v = cm::run(t, &mut e).unwrap(); e.define(n, v) }
        let i = cm::int;
        let (xy, yx) = (list(&[x, y]), list(&[y, x]));
        match sv::choose(44, "fn") {
            0 => gives("fn@id x", &mut e, Some(i(x))),
            1 => gives("fn@const x y", &mut e, Some(i(x))),
            2 => gives("(fn@const x) y", &mut e, Some(i(x))),
            3 => gives("fn@flip pair x y", &mut e, Some(yx)),
            4 => gives("(fn@flip pair) x y", &mut e, Some(yx)),
            5 => gives("((fn@flip pair) x) y", &mut e, Some(yx)),
            6 => gives("fn@flip (fn@flip pair) x y", &mut e, Some(xy)),
            7 => gives("fn@compose box dup x", &mut e, Some(lists(vec![list(&[x, x])]))),
            8 => gives("(fn@compose dup box) x", &mut e, Some(lists(vec![list(&[x]), list(&[x])]))),
            9 => gives("fn@apply pair [x, y]", &mut e, Some(xy)),
            10 => gives("fn@apply three [x, y, z]", &mut e, Some(list(&[x, y, z]))),
            11 => gives("fn@apply box [x]", &mut e, Some(list(&[x]))),
            12 => gives("fn@apply list@append [[x], y]", &mut e, Some(xy)),
            13 => gives("(fn@curry list@append 2) [x] y", &mut e, Some(xy)),
            14 => gives("((fn@curry list@append 2) [x]) y", &mut e, Some(xy)),
            15 => gives("let h = fn@curry insert 3; let k = h [x]; k 0 y", &mut e, Some(yx)),
            16 => gives("((fn@curry insert 3) [x] 1) y", &mut e, Some(xy)),
            17 => gives("(fn@curry three 3) x y z", &mut e, Some(list(&[x, y, z]))),
            18 => gives("fn@? c x y", &mut e, Some(i(if c { x } else { y }))),
            19 => gives("fn@? c x (let w = 1); w == 1", &mut e, Some(X::Boolean(!c))),
            20 => gives("fn@apply x y", &mut e, Option::None),
            21 => gives("fn@? c x", &mut e, Option::None),
            22 => gives("fn@map box x", &mut e, Option::None),
            23 => gives("fn@filter box x", &mut e, Option::None),
            24 => gives("fn@reduce pair y x", &mut e, Option::None),
            // builtins and macros in place of functions
            25 => gives("fn@flip list@append x [y]", &mut e, Some(yx)),
            26 => gives("(fn@flip list@cons [x]) y", &mut e, Some(yx)),
            27 => gives("let h = fn@flip list@append; h x [y]", &mut e, Some(yx)),
            28 => gives("fn@flip (fn@flip list@append) [x] y", &mut e, Some(xy)),
            29 => gives("fn@compose list@head list@rev [y, x]", &mut e, Some(i(x))),
            30 => gives("(fn@compose box len) [x, x]", &mut e, Some(list(&[2]))),
            31 => gives("fn@apply fn@const [x, y]", &mut e, Some(i(x))),
            32 => gives("fn@apply insert [[x], 0, y]", &mut e, Some(yx)),
            33 => gives("fn@apply (fn@flip list@append) [x, [y]]", &mut e, Some(yx)),
            34 => gives("fn@apply (p ~> q ~> [q, p]) [x, y]", &mut e, Some(yx)),
            35 => gives("fn@flip (p ~> q ~> [p, q]) x y", &mut e, Some(yx)),
            36 => gives("(fn@curry list@list 2) x y", &mut e, Some(xy)),
            37 => gives("let h = fn@curry list@list 3; h x y z", &mut e, Some(list(&[x, y, z]))),
            38 => gives("let h = (fn@curry list@list 3) x; [h y z, h z y]", &mut e, Some(lists(vec![list(&[x, y, z]), list(&[x, z, y])]))),
            39 => gives("let h = pair x; [h y, h z]", &mut e, Some(lists(vec![xy, list(&[x, z])]))),
            40 => gives("three x y z", &mut e, Some(list(&[x, y, z]))),
            41 => gives("((three x) y) z", &mut e, Some(list(&[x, y, z]))),
            42 => gives("fn@apply three [x]; fn@apply (three x) [y, z]", &mut e, Some(list(&[x, y, z]))),
            _ => gives("fn@id fn@id x", &mut e, Some(i(x))),
        }
    }
}
use h::*;
sv_harnesses!(hx_basic hx_cut hx_cut7 hx_range hx_bad hx_hof hx_hof6 hx_fail hx_comb);
