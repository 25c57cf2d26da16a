// Files and directories (P24, P25).
include!("sv.rs");
include!("cm.inc.rs");
include!("os.inc.rs");
mod h {
    use super::*;
    use os::Kind;
    use Expression as X;
    type Env = std::mem::ManuallyDrop<Environment>;
    type B = Vec<u8>;
    type Fs = Vec<(String, Kind)>;
    const HOME: &str = "/home/user";
    fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
    fn utf8(b: &[u8]) -> bool { std::str::from_utf8(b).is_ok() }
    /// the shell in /home/user; the process itself is elsewhere, so that names are taken from the shell's directory
    fn fs() -> Env {
        let mut e = cm::env();
        e.set_cwd(HOME);
        os::get().cwd = "/".to_string();
        os::get().stat_ok = true;
        e
    }
    fn tree(n: usize) {
        os::file("/home/user/f", &sv::bytes(n, "f"));
        os::dir("/home/user/d");
        os::file("/home/user/d/g", &sv::bytes(1, "g"));
        os::dir("/home/user/d/e");
        os::file("/home/user/d/z", b"");
        os::dir("/outside");
        os::file("/outside/k", b"k");
        os::link("/home/user/d/lo", "/outside");
        os::link("/home/user/lf", "f");
        os::link("/home/user/gone", "nowhere");
    }
    const PATHS: [&str; 18] = ["d/z", "f", "d", "d/g", "d/e", "d/lo", "lf", "gone", "none", "none/x", "f/x", "d/../f", "/outside/k", "d/lo/k", "d/new", "d/new/x", "../user/d", "lf/x"];
    fn snapshot() -> Fs { let mut r = vec![]; for n in &os::get().nodes { r.push((n.path.clone(), n.kind.clone())) } r }
    fn find<'a>(l: &'a Fs, p: &str) -> Option<&'a Kind> { for (q, k) in l { if q.as_bytes() == p.as_bytes() { return Some(k) } } Option::None }
    fn same_kind(a: &Kind, b: &Kind) -> bool { match (a, b) { (Kind::File(x), Kind::File(y)) => same(x, y), (Kind::Dir, Kind::Dir) => true, (Kind::Link(x), Kind::Link(y)) => x.as_bytes() == y.as_bytes(), _ => false } }
    /// the two trees have the same files with the same contents
    fn equal(a: &Fs, b: &Fs) -> bool {
        if a.len() != b.len() { return false }
        let mut r = true;
        for (p, k) in a { match find(b, p) { Some(j) => r &= same_kind(k, j), _ => return false } }
        r
    }
    /// ... outside of the given places
    fn equal_but(a: &Fs, b: &Fs, but: &[&str]) -> bool {
        let out = |l: &Fs| -> Fs { let mut r = vec![]; for (p, k) in l { let mut skip = false; for x in but { skip |= os::inside(p, x) } if !skip { r.push((p.clone(), k.clone())) } } r };
        equal(&out(a), &out(b))
    }
    fn put(l: &mut Fs, p: &str, k: Kind) { for i in 0..l.len() { if l[i].0.as_bytes() == p.as_bytes() { l[i].1 = k; return } } l.push((p.to_string(), k)) }
    fn drop_tree(l: &mut Fs, p: &str) { l.retain(|(q, _)| !os::inside(q, p)) }
    /// where the path leads (links followed), and what is there
    fn at(p: &str) -> (Option<String>, Option<Kind>) { match os::resolve(HOME, p, true) { Ok(q) => { let k = os::kind(&q); (Some(q), k) } _ => (Option::None, Option::None) } }
    fn entry(p: &str) -> Option<String> { match os::resolve(HOME, p, false) { Ok(q) if os::node(&q).is_some() => Some(q), _ => Option::None } }
    fn path(e: &mut Env, name: &str) -> &'static str { let p = PATHS[sv::choose(PATHS.len() as u64, name)]; e.define(name, X::String(p.to_string())); p }
    fn is_text(v: &Result<X, Error>, want: &[u8]) -> bool { match v { Ok(X::String(s)) => utf8(want) && same(s.as_bytes(), want), Ok(X::Bytes(b)) => !utf8(want) && same(b, want), _ => false } }
    fn done(r: Result<X, Error>, want: Option<Fs>, before: &Fs) {
        let now = snapshot();
        sv::assert(os::open_fds() == 0, "no file is left open");
        match want {
            Some(w) => { sv::reach("done"); sv::assert(matches!(&r, Ok(X::None)), "what can be done is done"); sv::assert(equal(&now, &w), "exactly the named files change, as asked") }
            _ => { sv::reach("refused"); sv::assert(r.is_err(), "what cannot be done is an error"); sv::assert(equal(&now, before), "an operation that is refused changes nothing") }
        }
        std::mem::forget(r)
    }
    #[no_mangle] pub extern "C" fn hx_read() {
        let mut e = fs();
        tree(4);
        let before = snapshot();
        let p = path(&mut e, "p");
        let r = cm::run(["fs@read p", "<< p"][sv::choose(2, "form")], &mut e);
        match at(p).1 {
            Some(Kind::File(d)) => { sv::reach(if utf8(&d) { "text" } else { "bytes" }); sv::assert(is_text(&r, &d), "reading a file gives all its bytes, as text if they are text") }
            _ => { sv::reach("refused"); sv::assert(r.is_err(), "what cannot be read is an error") }
        }
        sv::assert(equal(&snapshot(), &before) && os::open_fds() == 0, "reading changes nothing");
    }
    #[no_mangle] pub extern "C" fn hx_names() {
        // any name of up to three characters
        let mut e = fs();
        os::file("/home/user/a", b"1"); os::dir("/home/user/b"); os::file("/home/user/b/a", b"2"); os::file("/a", b"3"); os::link("/home/user/c", "b"); os::file("/home/a", b"4"); os::file("/home/user/aa", b"5"); os::file("/home/user/a b", b"6");
        let n = 1 + sv::choose(3, "n");
        let t = sv::ascii(n, "t");
        e.define("p", X::String(t.clone()));
        let before = snapshot();
        let (q, k) = at(&t);
        let nul = { let mut z = false; for c in t.bytes() { z |= c == 0 } z };
        let op = sv::choose(5, "op");
        let r = cm::run(["fs@read p", "fs@is-file? p", "fs@is-dir? p", "fs@exists? p", "fs@canon p"][op], &mut e);
        let k = if nul { Option::None } else { k };
        let is = |b: bool| matches!(&r, Ok(X::Boolean(x)) if *x == b);
        match op {
            0 => match &k { Some(Kind::File(d)) => { sv::reach("file"); sv::assert(is_text(&r, d), "reading a file gives all its bytes, as text if they are text") } _ => sv::assert(r.is_err(), "what cannot be read is an error") },
            1 => sv::assert(is(matches!(k, Some(Kind::File(_)))), "is-file? tells whether the path is a file"),
            2 => sv::assert(is(matches!(k, Some(Kind::Dir))), "is-dir? tells whether the path is a directory"),
            3 => sv::assert(is(k.is_some()), "exists? tells whether something is there"),
            _ => match &k { Some(_) => { sv::reach("canon"); sv::assert(is_text(&r, q.unwrap().as_bytes()), "canon gives the absolute path without links") } _ => sv::assert(r.is_err(), "a path that leads nowhere is an error") },
        }
        sv::assert(equal(&snapshot(), &before) && os::open_fds() == 0, "asking changes nothing");
    }
    #[no_mangle] pub extern "C" fn hx_query() {
        let mut e = fs();
        tree(1);
        let before = snapshot();
        let p = path(&mut e, "p");
        let (q, k) = at(p);
        let op = sv::choose(5, "op");
        let r = cm::run(["fs@is-file? p", "fs@is-dir? p", "fs@exists? p", "fs@canon p", "fs@ls p"][op], &mut e);
        let is = |b: bool| matches!(&r, Ok(X::Boolean(x)) if *x == b);
        match op {
            0 => sv::assert(is(matches!(k, Some(Kind::File(_)))), "is-file? tells whether the path is a file"),
            1 => sv::assert(is(matches!(k, Some(Kind::Dir))), "is-dir? tells whether the path is a directory"),
            2 => sv::assert(is(k.is_some()), "exists? tells whether something is there"),
            3 => match &k { Some(_) => sv::assert(is_text(&r, q.unwrap().as_bytes()), "canon gives the absolute path without links"), _ => sv::assert(r.is_err(), "a path that leads nowhere is an error") },
            _ => match &k {
                Some(Kind::Dir) => { sv::reach("listed"); sv::assert(listed(&r, p, &q.unwrap()), "ls gives every entry of the directory once, under the path asked for") }
                Some(_) => sv::assert(matches!(&r, Ok(X::List(l)) if l.len() == 1), "ls of a file gives the file"),
                _ => { sv::reach("refused"); sv::assert(r.is_err(), "what cannot be listed is an error") }
            },
        }
        sv::assert(equal(&snapshot(), &before) && os::open_fds() == 0, "asking changes nothing");
    }
    /// the list has each entry of the directory q once, written under p
    fn listed(r: &Result<X, Error>, p: &str, q: &str) -> bool {
        let l = match r { Ok(X::List(l)) => l, _ => return false };
        let mut n = 0;
        for (f, _) in &snapshot() { if f.len() > 1 && os::parent(f).as_bytes() == q.as_bytes() {
            n += 1;
            let k = if q.len() == 1 { 1 } else { q.len() + 1 };
            let want = format!("{}/{}", p, &f[k..]);
            let mut c = 0;
            for x in l { if let X::String(s) = x { if s.as_bytes() == want.as_bytes() { c += 1 } } }
            if c != 1 { return false }
        } }
        l.len() == n
    }
    fn content(e: &mut Env) -> B {
        match sv::choose(4, "kind") {
            3 => { e.define("v", X::String(String::new())); vec![] }
            0 => { let t = sv::ascii(2, "v"); e.define("v", X::String(t.clone())); t.into_bytes() }
            1 => { let b = sv::bytes(2, "v"); e.define("v", X::Bytes(b.clone())); b }
            _ => { e.define("v", cm::int(-12)); b"-12".to_vec() }
        }
    }
    #[no_mangle] pub extern "C" fn hx_write() {
        let mut e = fs();
        tree(3);
        let p = path(&mut e, "p");
        let v = content(&mut e);
        let before = snapshot();
        let form = sv::choose(4, "form");
        let r = cm::run(["fs@write p v", "v >> p", "fs@append p v", "v >>> p"][form], &mut e);
        let (q, k) = match os::resolve(HOME, p, true) { Ok(q) => { let k = find(&before, &q).cloned(); (q, k) } _ => (String::new(), Option::None) };
        let mut want = before.clone();
        let ok = match k {
            Some(Kind::File(d)) => { let mut n = if form < 2 { vec![] } else { d }; n.extend_from_slice(&v); put(&mut want, &q, Kind::File(n)); true }
            Some(_) => false,
            _ => if form < 2 && !q.is_empty() && matches!(find(&before, &os::parent(&q)), Some(Kind::Dir)) { put(&mut want, &q, Kind::File(v)); true } else { false },
        };
        done(r, if ok { Some(want) } else { Option::None }, &before);
    }
    #[no_mangle] pub extern "C" fn hx_dirs() {
        let mut e = fs();
        tree(1);
        let p = path(&mut e, "p");
        let before = snapshot();
        let op = sv::choose(3, "op");
        let here = entry(p);
        let (_, k) = at(p);
        let mut want = before.clone();
        let ok = match op {
            // mkdir makes the missing directories of the path
            0 => match &k {
                Some(Kind::Dir) => true,
                Some(_) => false,
                _ => {
                    let new: &[&str] = match p { "none" => &["/home/user/none"], "none/x" => &["/home/user/none", "/home/user/none/x"], "d/new" => &["/home/user/d/new"], "d/new/x" => &["/home/user/d/new", "/home/user/d/new/x"], _ => &[] };
                    for n in new { put(&mut want, n, Kind::Dir) }
                    !new.is_empty()
                }
            },
            // rmdir removes an empty directory
            1 => match &here { Some(q) if q == "/home/user/d/e" => { drop_tree(&mut want, q); true } _ => false },
            // rm removes a file, a link or a whole directory
            _ => match &here { Some(q) => { drop_tree(&mut want, q); true } _ => false },
        };
        let r = cm::run(["fs@mkdir p", "fs@rmdir p", "fs@rm p"][op], &mut e);
        done(r, if ok { Some(want) } else { Option::None }, &before);
    }
    const TO: [&str; 13] = ["new", "d/z", "d/new", "none/new", "f", "d", "f/x", "/outside/n", "d/e/n", "lf", "/n", "d/g", "d/lo/n"];
    /// a copy of what the path shows, links followed
    fn copied(l: &mut Fs, from: &str, to: &str) {
        match os::kind(from) {
            Some(Kind::Link(_)) => { let q = os::resolve(&os::parent(from), from, true).unwrap(); copied(l, &q, to) }
            Some(Kind::File(d)) => put(l, to, Kind::File(d)),
            _ => {
                put(l, to, Kind::Dir);
                let names: Vec<String> = os::get().nodes.iter().map(|n| n.path.clone()).collect();
                for n in names { if n.len() > 1 && os::parent(&n) == from { let mut t = to.to_string(); t.push_str(&n[from.len()..]); copied(l, &n, &t) } }
            }
        }
    }
    fn two(op: usize, e: &mut Env) -> (Option<Fs>, Fs, String, String) {
        let p = path(e, "p");
        let t = TO[sv::choose(TO.len() as u64, "t")];
        e.define("t", X::String(t.to_string()));
        let before = snapshot();
        let mut want = before.clone();
        let (src, kind) = at(p);
        let dst = os::resolve(HOME, t, true);
        let here = entry(p);
        let to = match &dst { Ok(d) => d.clone(), _ => String::new() };
        if p == t { return (Some(want), before, here.unwrap_or_default(), to) }
        if at(t).1.is_some() { return (Option::None, before, here.unwrap_or_default(), to) }
        let up = if to.is_empty() { Option::None } else { os::kind(&os::parent(&to)) };
        let ok = if op == 0 {
            match (&kind, &src) {
                (Some(Kind::File(_)), Some(s)) => if matches!(up, Some(Kind::Dir)) { copied(&mut want, s, &to); true } else { false },
                (Some(_), Some(s)) => if t == "none/new" { put(&mut want, "/home/user/none", Kind::Dir); copied(&mut want, s, "/home/user/none/new"); true }
                    // a directory is not copied into itself
                    else if to.is_empty() || t == "f/x" || os::inside(&to, s) { false } else { copied(&mut want, s, &to); true },
                _ => false,
            }
        } else {
            match &here {
                Some(s) => if !matches!(up, Some(Kind::Dir)) || os::inside(&to, s) { false } else {
                    let mut moved = vec![];
                    for (f, k) in &before { if os::inside(f, s) { let mut n = to.clone(); n.push_str(&f[s.len()..]); moved.push((n, k.clone())) } }
                    drop_tree(&mut want, s);
                    for (n, k) in moved { put(&mut want, &n, k) }
                    true
                },
                _ => false,
            }
        };
        (if ok { Some(want) } else { Option::None }, before, here.unwrap_or_default(), to)
    }
    #[no_mangle] pub extern "C" fn hx_cp() {
        let mut e = fs();
        tree(2);
        let (want, before, from, to) = two(0, &mut e);
        let r = cm::run("fs@cp p t", &mut e);
        if from.as_bytes() == b"/home/user/d" && os::inside(&to, "/outside") {
            // a link below the directory leads to where the copy goes: an error after part of the copy
            sv::reach("through a link");
            sv::assert(r.is_err(), "a directory is not copied into itself");
            let now = snapshot();
            for (f, k) in &before { sv::assert(find(&now, f).map_or(false, |n| same_kind(n, k)), "copying changes no file that was there") }
            std::mem::forget(r);
            return
        }
        done(r, want, &before);
    }
    #[no_mangle] pub extern "C" fn hx_mv() {
        let mut e = fs();
        tree(2);
        let (want, before, _, _) = two(1, &mut e);
        let r = cm::run("fs@mv p t", &mut e);
        done(r, want, &before);
    }
    fn lines(d: &[u8]) -> Vec<B> {
        let (mut r, mut l) = (vec![], vec![]);
        for c in d { if *c == b'\n' { if l.last() == Some(&b'\r') { l.pop(); } r.push(std::mem::take(&mut l)) } else { l.push(*c) } }
        if !l.is_empty() { r.push(l) }
        r
    }
    #[no_mangle] pub extern "C" fn hx_lines() {
        let mut e = fs();
        let len = sv::choose(5, "len");
        let d = sv::bytes(len, "d");
        let mut ok = true;
        for c in &d { ok &= (*c == b'\n') | (*c == b'\r') | (*c == b'a') | (*c == b'b') }
        sv::assume(ok);
        os::file("/home/user/f", &d);
        let n = sv::i64("n");
        e.define("n", cm::int(n));
        let tail = sv::choose(2, "tail") == 1;
        let r = cm::run(if tail { "fs@tail \"f\" n" } else { "fs@head \"f\" n" }, &mut e);
        let l = lines(&d);
        let k = if n <= 0 { 0 } else if n as u64 > l.len() as u64 { l.len() } else { n as usize };
        let part = if tail { &l[l.len() - k..] } else { &l[..k] };
        let mut want = vec![];
        for x in part { want.extend_from_slice(x); want.push(b'\n') }
        sv::reach(if tail { "tail" } else { "head" });
        sv::assert(is_text(&r, &want), if tail { "tail gives the last lines, in their order" } else { "head gives the first lines, in their order" });
    }
    /// any system call may fail: the operation is then complete or an error
    fn fault(op: usize) {
        let mut e = fs();
        tree(1);
        let o = os::get();
        let v = b"xy".to_vec();
        e.define("v", X::String("xy".into()));
        let before = snapshot();
        let p = ["f", "d", "d/e", "lf", "d/lo", "none/x"][sv::choose(6, "p")];
        let t = "new";
        e.define("p", X::String(p.to_string()));
        e.define("t", X::String(t.to_string()));
        let src = ["fs@read p", "fs@write p v", "fs@append p v", "fs@mkdir p", "fs@rmdir p", "fs@rm p", "fs@cp p t", "fs@mv p t", "fs@ls p"][op];
        // the same without a failure
        o.fail_at = sv::u32("fail_at") as u64;
        o.fail_with = [os::EIO, os::EACCES, os::ENOSPC, os::EINTR][sv::choose(4, "errno")];
        if sv::choose(2, "chunk") == 1 { o.chunk = 1 }
        o.armed = true;
        let r = cm::run(src, &mut e);
        o.armed = false;
        let now = snapshot();
        sv::assert(os::open_fds() == 0, "no file is left open");
        let named = match os::resolve(HOME, p, op == 1 || op == 2) { Ok(q) => q, _ => "/home/user/none".to_string() };
        let new = "/home/user/new";
        let but: Vec<&str> = match op { 1 | 2 | 4 | 5 => vec![&named], 3 => vec!["/home/user/none"], 6 => vec![new], 7 => vec![&named, new], _ => vec![] };
        sv::assert(equal_but(&now, &before, &but), "a failure changes nothing but the files named");
        if op == 7 && r.is_err() { sv::assert(equal(&now, &before), "a move that fails changes nothing") }
        match r {
            Ok(x) => {
                sv::reach("complete");
                let mut want = before.clone();
                let ok = match op {
                    0 => { let d = match find(&before, &os::resolve(HOME, p, true).unwrap()) { Some(Kind::File(d)) => d.clone(), _ => vec![] }; match &x { X::String(s) => same(s.as_bytes(), &d), X::Bytes(b) => same(b, &d), _ => false } }
                    8 => { let (q, k) = at(p); match k { Some(Kind::Dir) => listed(&Ok(x), p, &q.unwrap()), _ => true } }
                    _ => {
                        match op {
                            1 | 2 => { let mut d = match find(&before, &named) { Some(Kind::File(d)) if op == 2 => d.clone(), _ => vec![] }; d.extend_from_slice(&v); put(&mut want, &named, Kind::File(d)) }
                            3 => if p == "none/x" { put(&mut want, "/home/user/none", Kind::Dir); put(&mut want, "/home/user/none/x", Kind::Dir) },
                            4 | 5 => drop_tree(&mut want, &named),
                            6 => { let q = os::resolve(HOME, p, true).unwrap(); copied(&mut want, &q, new) }
                            _ => { let mut moved = vec![]; for (f, k) in &before { if os::inside(f, &named) { let mut n = new.to_string(); n.push_str(&f[named.len()..]); moved.push((n, k.clone())) } } drop_tree(&mut want, &named); for (n, k) in moved { put(&mut want, &n, k) } }
                        }
                        equal(&now, &want)
                    }
                };
                sv::assert(ok, "an operation that succeeds has done all of its work");
            }
            Err(_) => { sv::reach("error"); }
        }
    }
    /// the tree of a directory: its own name, its parent, and everything in it
    fn listing(name: &str, real: &str, depth: i64) -> X {
        let mut m = std::collections::BTreeMap::new();
        m.insert(".".to_string(), X::String(name.to_string()));
        m.insert("..".to_string(), X::String(os::parent(name)));
        if depth > 0 {
            for n in &os::get().nodes {
                if n.path.len() > 1 && os::parent(&n.path).as_bytes() == real.as_bytes() {
                    let file = n.path[if real.len() == 1 { 1 } else { real.len() + 1 }..].to_string();
                    let mut full = name.to_string();
                    full.push('/');
                    full.push_str(&file);
                    let v = match os::resolve("/", &n.path, true) { Ok(p) if matches!(os::kind(&p), Some(Kind::Dir)) => listing(&full, &p, depth - 1), _ => X::String(full) };
                    m.insert(file, v);
                }
            }
        }
        X::Map(m)
    }
    fn equal_text(a: &X, b: &X) -> bool {
        match (a, b) {
            (X::String(x), X::String(y)) => same(x.as_bytes(), y.as_bytes()),
            (X::Map(x), X::Map(y)) => { if x.len() != y.len() { return false } let mut ok = true; for ((k, v), (l, w)) in x.iter().zip(y.iter()) { ok &= same(k.as_bytes(), l.as_bytes()) && equal_text(v, w) } ok }
            _ => false,
        }
    }
    #[no_mangle] pub extern "C" fn hx_tree() {
        let mut e = fs();
        tree(1);
        let before = snapshot();
        let f = cm::parse("fs@tree").ok().unwrap();
        let (p, real) = [("", "/home/user"), ("d", "/home/user/d"), ("d/e", "/home/user/d/e"), ("none", ""), ("d/lo", "/outside"), ("f", "")][sv::choose(6, "path")];
        let mut name = HOME.to_string();
        if p.len() > 0 { name.push('/'); name.push_str(p) }
        let limited = sv::bool("limited");
        let d = sv::i64("depth");
        let mut args = vec![];
        if limited { args.push(cm::int(d)) }
        if p.len() > 0 || !limited { args.push(if p.len() > 0 { cm::string(p) } else { X::None }) }
        // deeper than the tree is all of it
        let depth = if !limited { 9 } else if d <= 0 { 0 } else if d == 1 { 1 } else if d == 2 { 2 } else if d == 3 { 3 } else { 9 };
        let want = if real.len() > 0 { listing(&name, real, depth) } else { listing(&name, "nowhere", 0) };
        let r = X::Apply(Box::new(f), args).eval(&mut e);
        match r { Ok(v) => { sv::assert(equal_text(&v, &want), "the tree of a directory is what is in it"); sv::reach("tree"); std::mem::forget(v) } Err(x) => { std::mem::forget(x); sv::assert(false, "a directory has a tree") } }
        sv::assert(equal(&before, &snapshot()) && os::open_fds() == 0, "looking changes nothing");
    }
    fn matches_(p: &[u8], s: &[u8]) -> bool {
        if p.len() == 0 { return s.len() == 0 }
        match p[0] {
            b'*' => { let mut r = false; for i in 0..=s.len() { r |= matches_(&p[1..], &s[i..]) } r }
            b'?' => s.len() > 0 && matches_(&p[1..], &s[1..]),
            c => s.len() > 0 && s[0] == c && matches_(&p[1..], &s[1..]),
        }
    }
    fn glob(n: usize) {
        let mut e = fs();
        tree(1);
        let before = snapshot();
        let f = cm::parse("fs@glob").ok().unwrap();
        let pat = sv::over(n, b"fdgl?*", "pattern");
        let dir = sv::choose(3, "dir");
        let mut full = String::from(["", "d/", "/outside/"][dir]);
        full.push_str(&pat);
        // two stars together are another thing
        for i in 1..n { sv::assume(!(pat.as_bytes()[i - 1] == b'*' && pat.as_bytes()[i] == b'*')) }
        let mut want: Vec<String> = vec![];
        for name in [["d", "f", "gone", "lf"], ["e", "g", "lo", "z"], ["k", "", "", ""]][dir] { if name.len() > 0 && matches_(pat.as_bytes(), name.as_bytes()) { let mut w = String::from(["", "d/", "/outside/"][dir]); w.push_str(name); want.push(w) } }
        match X::Apply(Box::new(f), vec![X::String(full)]).eval(&mut e) {
            Ok(X::List(l)) => {
                sv::assert(l.len() == want.len(), "a pattern names every file it matches, and no other");
                for (x, w) in l.iter().zip(want.iter()) { if let X::String(x) = x { sv::assert(same(x.as_bytes(), w.as_bytes()), "a pattern names the files it matches, in order") } else { sv::assert(false, "names are text") } }
                sv::reach(if want.len() > 0 { "some" } else { "none" });
            }
            _ => sv::assert(false, "a pattern gives a list"),
        }
        sv::assert(equal(&before, &snapshot()) && os::open_fds() == 0, "looking changes nothing");
    }
    #[no_mangle] pub extern "C" fn hx_glob2() { glob(1 + sv::choose(2, "n")) }
    #[no_mangle] pub extern "C" fn hx_glob3() { glob(3) }
    #[no_mangle] pub extern "C" fn hx_fault_read() { fault([0, 8][sv::choose(2, "op")]) }
    #[no_mangle] pub extern "C" fn hx_fault_write() { fault(1 + sv::choose(3, "op")) }
    #[no_mangle] pub extern "C" fn hx_fault_remove() { fault(4 + sv::choose(2, "op")) }
    #[no_mangle] pub extern "C" fn hx_fault_cp() { fault(6) }
    #[no_mangle] pub extern "C" fn hx_fault_mv() { fault(7) }
}
use h::*;
sv_harnesses!(hx_tree hx_glob2 hx_glob3 hx_read hx_names hx_query hx_write hx_dirs hx_cp hx_mv hx_lines hx_fault_read hx_fault_write hx_fault_remove hx_fault_cp hx_fault_mv);
