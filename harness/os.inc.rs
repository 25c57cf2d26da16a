// A small operating system in memory: files, directories, links, pipes and
// programs.  It defines the libc functions that std calls, so the same model is
// used by the symbolic engine and by the native replay, and nothing outside the
// process is touched.
#[allow(dead_code, static_mut_refs, non_camel_case_types)]
mod os {
    use super::sv;
    type P = *const u8;
    pub const ENOENT: i32 = 2; pub const EINTR: i32 = 4; pub const EIO: i32 = 5; pub const EBADF: i32 = 9; pub const ECHILD: i32 = 10; pub const EACCES: i32 = 13; pub const EEXIST: i32 = 17; pub const EXDEV: i32 = 18;
    pub const ENOTDIR: i32 = 20; pub const EISDIR: i32 = 21; pub const EINVAL: i32 = 22; pub const ENOSPC: i32 = 28; pub const EPIPE: i32 = 32; pub const ENOSYS: i32 = 38; pub const ENOTEMPTY: i32 = 39; pub const ELOOP: i32 = 40;
    extern "C" { fn __errno_location() -> *mut i32; fn malloc(n: usize) -> *mut u8; }
    #[derive(Clone, PartialEq)]
    pub enum Kind { File(Vec<u8>), Dir, Link(String) }
    #[derive(Clone)]
    pub struct Node { pub path: String, pub kind: Kind, pub ino: u64 }
    #[derive(Clone)]
    enum Fd { Closed, File { node: u64, pos: usize, append: bool, read: bool, write: bool }, Dir(u64), Read(usize), Write(usize) }
    pub struct Pipe { pub data: Vec<u8>, pub readers: usize, pub writers: usize, pub owner: usize }
    #[derive(Clone)]
    pub struct Proc { pub file: Vec<u8>, pub argv: Vec<Vec<u8>>, pub envp: Vec<Vec<u8>>, pub cwd: Option<Vec<u8>>, pub stdin: Option<usize>, pub stdout: Option<usize>, pub input: Vec<u8>, pub ran: bool, pub waited: bool }
    struct Scan { fd: i32, names: Vec<(String, u8)>, at: usize, ent: [u8; 280] }
    pub struct Os {
        pub nodes: Vec<Node>, fds: Vec<Fd>, pub pipes: Vec<Pipe>, pub procs: Vec<Proc>, scans: Vec<Scan>, actions: Vec<(Vec<(i32, i32)>, Option<Vec<u8>>)>,
        pub cwd: String, pub out: Vec<u8>, next: u64, pub armed: bool, pub calls: u64, pub fail_at: u64, pub fail_with: i32, pub failed: bool, pub chunk: usize,
        /// what a program does: its number, its arguments and its input to its output
        pub program: fn(usize, &Proc) -> Vec<u8>,
        /// the error of starting the n-th program, or 0
        pub start: fn(usize, &[u8]) -> i32,
        pub hung: bool, pub log: Vec<String>,
        /// asking about a file does not fail
        pub stat_ok: bool,
        /// what a pipe holds before its writer has to wait
        pub cap: usize,
        /// does the n-th program read its input, or end without?
        pub reads: fn(usize) -> bool,
        threads: usize,
        /// how long the process slept, in seconds and nanoseconds
        pub slept: (i64, i64),
        /// what is typed
        pub input: Vec<u8>,
    }
    fn nothing(_: usize, _: &Proc) -> Vec<u8> { Vec::new() }
    fn reader(_: usize) -> bool { true }
    fn found(_: usize, _: &[u8]) -> i32 { 0 }
    static mut OS: Option<Os> = None;
    pub fn get() -> &'static mut Os {
        unsafe {
            if OS.is_none() {
                OS = Some(Os { nodes: Vec::new(), fds: Vec::new(), pipes: Vec::new(), procs: Vec::new(), scans: Vec::new(), actions: Vec::new(), cwd: String::from("/home/user"), out: Vec::new(), next: 10, armed: false, calls: 0, fail_at: u64::MAX, fail_with: EIO, failed: false, chunk: usize::MAX, program: nothing, start: found, hung: false, log: Vec::new(), stat_ok: false, cap: usize::MAX, reads: reader, threads: 0, slept: (0, 0), input: Vec::new() });
                for d in ["/", "/home", "/home/user"] { put(d, Kind::Dir) }
            }
            OS.as_mut().unwrap()
        }
    }
    pub fn put(path: &str, kind: Kind) { let o = get(); o.next += 1; let ino = o.next; o.nodes.push(Node { path: path.to_string(), kind, ino }) }
    pub fn file(path: &str, data: &[u8]) { put(path, Kind::File(data.to_vec())) }
    pub fn dir(path: &str) { put(path, Kind::Dir) }
    pub fn link(path: &str, to: &str) { put(path, Kind::Link(to.to_string())) }
    pub fn node(path: &str) -> Option<usize> { let o = get(); let mut i = 0; while i < o.nodes.len() { if same(&o.nodes[i].path, path) { return Some(i) } i += 1 } None }
    fn by_ino(ino: u64) -> Option<usize> { let o = get(); let mut i = 0; while i < o.nodes.len() { if o.nodes[i].ino == ino { return Some(i) } i += 1 } None }
    pub fn kind(path: &str) -> Option<Kind> { node(path).map(|i| get().nodes[i].kind.clone()) }
    fn same(a: &str, b: &str) -> bool { a.as_bytes() == b.as_bytes() }
    fn fail<T>(e: i32) -> Result<T, i32> { Err(e) }
    /// every armed call counts; the one chosen fails
    fn fault(name: &str) -> Result<(), i32> {
        let o = get();
        if !o.armed || (o.stat_ok && same(name, "stat")) { return Ok(()) }
        let n = o.calls; o.calls += 1;
        if o.fail_at == n { o.failed = true; o.log.push(name.to_string()); return Err(o.fail_with) }
        Ok(())
    }
    fn cstr(p: P) -> Vec<u8> { let mut v = Vec::new(); let mut i = 0; unsafe { while *p.add(i) != 0 { v.push(*p.add(i)); i += 1 } } v }
    fn text(p: P) -> String { unsafe { String::from_utf8_unchecked(cstr(p)) } }
    fn parts(p: &str) -> Vec<String> { let mut r = Vec::new(); let mut w = Vec::new(); for &b in p.as_bytes() { if b == b'/' { if !w.is_empty() { r.push(unsafe { String::from_utf8_unchecked(std::mem::take(&mut w)) }) } } else { w.push(b) } } if !w.is_empty() { r.push(unsafe { String::from_utf8_unchecked(w) }) } r }
    fn child(d: &str, name: &str) -> String { let mut r = String::from(d); if !same(d, "/") { r.push('/') } r.push_str(name); r }
    pub fn parent(p: &str) -> String { let b = p.as_bytes(); let mut i = b.len(); while i > 0 && b[i - 1] != b'/' { i -= 1 } if i <= 1 { String::from("/") } else { String::from(&p[..i - 1]) } }
    /// the place a path names, links followed (the last one only on request)
    pub fn resolve(base: &str, path: &str, last: bool) -> Result<String, i32> { walk(base, path, last, 0) }
    fn walk(base: &str, path: &str, last: bool, depth: usize) -> Result<String, i32> {
        if depth > 8 { return fail(ELOOP) }
        if path.is_empty() { return fail(ENOENT) }
        let mut at = String::from(if path.as_bytes()[0] == b'/' { "/" } else { base });
        let ps = parts(path);
        let trailing = path.as_bytes()[path.len() - 1] == b'/';
        for (i, c) in ps.iter().enumerate() {
            match kind(&at) { Some(Kind::Dir) => (), Some(_) => return fail(ENOTDIR), None => return fail(ENOENT) }
            if same(c, ".") { continue }
            if same(c, "..") { at = parent(&at); continue }
            let next = child(&at, c);
            if let Some(Kind::Link(to)) = kind(&next) {
                if i + 1 < ps.len() || last || trailing { at = walk(&at, &to, true, depth + 1)?; continue }
            }
            at = next;
        }
        if trailing { match kind(&at) { Some(Kind::File(_)) => return fail(ENOTDIR), _ => () } }
        Ok(at)
    }
    fn at_dir(fd: i32) -> Result<String, i32> {
        if fd == -100 { return Ok(get().cwd.clone()) }
        match fd_get(fd) { Fd::Dir(n) => match by_ino(n) { Some(i) => Ok(get().nodes[i].path.clone()), None => fail(ENOENT) }, Fd::Closed => fail(EBADF), _ => fail(ENOTDIR) }
    }
    const BASE: i32 = 100;
    fn fd_get(fd: i32) -> Fd { let i = fd.wrapping_sub(BASE); if i < 0 || i as usize >= get().fds.len() { Fd::Closed } else { get().fds[i as usize].clone() } }
    fn fd_new(f: Fd) -> i32 { let o = get(); o.fds.push(f); BASE + o.fds.len() as i32 - 1 }
    pub fn open_fds() -> usize { let mut n = 0; for f in &get().fds { if !matches!(f, Fd::Closed) { n += 1 } } n }
    fn ret(r: Result<i64, i32>) -> i64 { match r { Ok(v) => v, Err(e) => { unsafe { *__errno_location() = e } -1 } } }
    fn has_children(path: &str) -> bool { let o = get(); for n in &o.nodes { if n.path.len() > path.len() && same(&parent(&n.path), path) { return true } } false }
    // ---- files ---------------------------------------------------------------
    fn do_open(base: String, path: String, flags: i32) -> Result<i64, i32> {
        fault("open")?;
        let p = resolve(&base, &path, flags & 0x20000 == 0)?;
        let (acc, creat, excl, trunc, append, dirw) = (flags & 3, flags & 0x40 != 0, flags & 0x80 != 0, flags & 0x200 != 0, flags & 0x400 != 0, flags & 0x10000 != 0);
        let i = match node(&p) {
            Some(i) => { if creat && excl { return fail(EEXIST) } i }
            None => {
                if !creat { return fail(ENOENT) }
                match kind(&parent(&p)) { Some(Kind::Dir) => (), Some(_) => return fail(ENOTDIR), None => return fail(ENOENT) }
                file(&p, &[]);
                node(&p).unwrap()
            }
        };
        let o = get();
        let ino = o.nodes[i].ino;
        match o.nodes[i].kind {
            Kind::Link(_) => return fail(if dirw { ENOTDIR } else { ELOOP }),
            Kind::Dir => { if acc != 0 || creat { return fail(EISDIR) } return Ok(fd_new(Fd::Dir(ino)) as i64) }
            Kind::File(ref mut d) => { if dirw { return fail(ENOTDIR) } if trunc { d.clear() } }
        }
        Ok(fd_new(Fd::File { node: ino, pos: 0, append, read: acc != 1, write: acc != 0 }) as i64)
    }
    #[no_mangle] pub unsafe extern "C" fn open64(p: P, flags: i32, _mode: u32) -> i32 { ret(do_open(get().cwd.clone(), text(p), flags)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn openat64(fd: i32, p: P, flags: i32, _mode: u32) -> i32 { ret(at_dir(fd).and_then(|b| do_open(b, text(p), flags))) as i32 }
    fn data(ino: u64) -> Option<&'static mut Vec<u8>> { match by_ino(ino) { Some(i) => match get().nodes[i].kind { Kind::File(ref mut d) => Some(d), _ => None }, None => None } }
    fn do_read(fd: i32, buf: *mut u8, n: usize) -> Result<i64, i32> {
        match fd_get(fd) {
            Fd::File { node, pos, append, read, write } => {
                fault("read")?;
                if !read { return fail(EBADF) }
                let d = match data(node) { Some(d) => d, None => return Ok(0) };
                let mut k = if pos < d.len() { d.len() - pos } else { 0 };
                if k > n { k = n }
                if k > get().chunk { k = get().chunk }
                for j in 0..k { unsafe { *buf.add(j) = d[pos + j] } }
                get().fds[(fd - BASE) as usize] = Fd::File { node, pos: pos + k, append, read, write };
                Ok(k as i64)
            }
            Fd::Dir(_) => fail(EISDIR),
            // reading a pipe can be interrupted; it does not fail
            Fd::Read(p) => {
                if get().fail_with == EINTR { fault("read")? }
                run_owner(p);
                let q = &mut get().pipes[p];
                if q.data.is_empty() && q.writers > 0 { get().hung = true; return Ok(0) }
                let mut k = q.data.len();
                if k > n { k = n }
                if k > get().chunk { k = get().chunk }
                for j in 0..k { unsafe { *buf.add(j) = q.data[j] } }
                q.data.drain(..k);
                Ok(k as i64)
            }
            _ => if fd == 0 {
                let q = &mut get().input;
                let k = if q.len() < n { q.len() } else { n };
                for j in 0..k { unsafe { *buf.add(j) = q[j] } }
                q.drain(..k);
                Ok(k as i64)
            } else { fail(EBADF) },
        }
    }
    fn do_write(fd: i32, buf: P, n: usize) -> Result<i64, i32> {
        if fd == 1 || fd == 2 { if fd == 1 { for j in 0..n { get().out.push(unsafe { *buf.add(j) }) } } return Ok(n as i64) }
        match fd_get(fd) {
            Fd::File { node, pos, append, read, write } => {
                fault("write")?;
                if !write { return fail(EBADF) }
                let k = if n > get().chunk { get().chunk } else { n };
                let at = match data(node) { Some(d) => {
                    let at = if append { d.len() } else { pos };
                    for j in 0..k { let b = unsafe { *buf.add(j) }; if at + j < d.len() { d[at + j] = b } else { d.push(b) } }
                    at
                } None => pos };
                get().fds[(fd - BASE) as usize] = Fd::File { node, pos: at + k, append, read, write };
                Ok(k as i64)
            }
            Fd::Write(p) => {
                fault("write")?;
                let q = &mut get().pipes[p];
                if q.readers == 0 { return fail(EPIPE) }
                let k = if n > get().chunk { get().chunk } else { n };
                for j in 0..k { q.data.push(unsafe { *buf.add(j) }) }
                // the writer waits for a program that writes before it reads and waits to be read itself
                let o = get();
                if q.data.len() > o.cap && o.threads == 0 {
                    for (n, x) in o.procs.iter().enumerate() { if x.stdin == Some(p) && !x.ran && x.stdout.is_some() && (o.program)(n, x).len() > o.cap { get().hung = true } }
                }
                Ok(k as i64)
            }
            _ => fail(EBADF),
        }
    }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize { ret(do_read(fd, buf, n)) as isize }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, buf: P, n: usize) -> isize { ret(do_write(fd, buf, n)) as isize }
    #[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const (P, usize), n: i32) -> isize {
        let mut t = 0;
        for j in 0..n as usize { let (p, k) = *v.add(j); if k == 0 { continue } let r = write(fd, p, k); if r < 0 { return if t > 0 { t } else { r } } t += r; if (r as usize) < k { break } }
        t
    }
    #[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
        match fd_get(fd) { Fd::Closed => { if fd < BASE { return 0 } return ret(fail(EBADF)) as i32 } Fd::Read(p) => get().pipes[p].readers -= 1, Fd::Write(p) => get().pipes[p].writers -= 1, _ => () }
        get().fds[(fd - BASE) as usize] = Fd::Closed;
        0
    }
    unsafe fn fill_stat(i: usize, st: *mut u8) {
        for j in 0..144 { *st.add(j) = 0 }
        let n = &get().nodes[i];
        *(st.add(8) as *mut u64) = n.ino;
        *(st.add(16) as *mut u64) = 1;
        *(st.add(24) as *mut u32) = match n.kind { Kind::File(_) => 0o100644, Kind::Dir => 0o40755, Kind::Link(_) => 0o120777 };
        *(st.add(48) as *mut i64) = match n.kind { Kind::File(ref d) => d.len() as i64, Kind::Link(ref t) => t.len() as i64, _ => 0 };
        *(st.add(56) as *mut i64) = 4096;
    }
    fn do_stat(path: &str, st: *mut u8, follow: bool) -> Result<i64, i32> {
        fault("stat")?;
        let p = resolve(&get().cwd.clone(), path, follow)?;
        match node(&p) { Some(i) => { unsafe { fill_stat(i, st) } Ok(0) } None => fail(ENOENT) }
    }
    #[no_mangle] pub unsafe extern "C" fn stat64(p: P, st: *mut u8) -> i32 { ret(do_stat(&text(p), st, true)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn lstat64(p: P, st: *mut u8) -> i32 { ret(do_stat(&text(p), st, false)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
        if fault("fstat").is_err() { return ret(fail(get().fail_with)) as i32 }
        let ino = match fd_get(fd) { Fd::File { node, .. } => node, Fd::Dir(n) => n, Fd::Closed => return ret(fail(EBADF)) as i32, _ => { for j in 0..144 { *st.add(j) = 0 } *(st.add(24) as *mut u32) = 0o10600; return 0 } };
        match by_ino(ino) { Some(i) => { fill_stat(i, st); 0 } None => ret(fail(ENOENT)) as i32 }
    }
    #[no_mangle] pub unsafe extern "C" fn statx(_: i32, _: P, _: i32, _: u32, _: *mut u8) -> i32 { ret(fail(ENOSYS)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        match fd_get(fd) {
            Fd::File { node, pos, append, read, write } => {
                let base = match whence { 0 => 0, 1 => pos as i64, _ => data(node).map_or(0, |d| d.len() as i64) };
                get().fds[(fd - BASE) as usize] = Fd::File { node, pos: (base + off) as usize, append, read, write };
                base + off
            }
            _ => ret(fail(EINVAL)),
        }
    }
    #[no_mangle] pub unsafe extern "C" fn fchmod(_: i32, _: u32) -> i32 { ret(fault("fchmod").map(|_| 0)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn fcntl(_: i32, _: i32, _: u64) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn copy_file_range(a: i32, _: *mut i64, b: i32, _: *mut i64, n: usize, _: u32) -> isize {
        let (f, g) = (fd_get(a), fd_get(b));
        match (f, g) {
            (Fd::File { node, pos, append, read, write }, Fd::File { write: true, .. }) => {
                if let Err(e) = fault("copy_file_range") { return ret(fail(e)) as isize }
                let d = match data(node) { Some(d) => d.clone(), None => return 0 };
                let mut k = if pos < d.len() { d.len() - pos } else { 0 };
                if k > n { k = n }
                if k > get().chunk { k = get().chunk }
                let armed = get().armed;
                get().armed = false;
                let r = do_write(b, d.as_ptr().add(pos), k);
                get().armed = armed;
                get().fds[(a - BASE) as usize] = Fd::File { node, pos: pos + k, append, read, write };
                ret(r) as isize
            }
            _ => ret(fail(EBADF)) as isize,
        }
    }
    #[no_mangle] pub unsafe extern "C" fn sendfile64(_: i32, _: i32, _: *mut i64, _: usize) -> isize { ret(fail(EINVAL)) as isize }
    #[no_mangle] pub unsafe extern "C" fn splice(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize { ret(fail(EINVAL)) as isize }
    // ---- names ---------------------------------------------------------------
    fn do_mkdir(path: &str) -> Result<i64, i32> {
        fault("mkdir")?;
        let p = resolve(&get().cwd.clone(), path, false)?;
        if node(&p).is_some() { return fail(EEXIST) }
        match kind(&parent(&p)) { Some(Kind::Dir) => (), Some(_) => return fail(ENOTDIR), None => return fail(ENOENT) }
        dir(&p);
        Ok(0)
    }
    #[no_mangle] pub unsafe extern "C" fn mkdir(p: P, _: u32) -> i32 { ret(do_mkdir(&text(p))) as i32 }
    fn remove(base: &str, path: &str, as_dir: bool) -> Result<i64, i32> {
        fault("remove")?;
        let p = resolve(base, path, false)?;
        match node(&p) {
            None => fail(ENOENT),
            Some(i) => {
                let d = matches!(get().nodes[i].kind, Kind::Dir);
                if as_dir && !d { return fail(ENOTDIR) }
                if !as_dir && d { return fail(EISDIR) }
                if d && has_children(&p) { return fail(ENOTEMPTY) }
                get().nodes.remove(i);
                Ok(0)
            }
        }
    }
    #[no_mangle] pub unsafe extern "C" fn unlink(p: P) -> i32 { ret(remove(&get().cwd.clone(), &text(p), false)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn rmdir(p: P) -> i32 { ret(remove(&get().cwd.clone(), &text(p), true)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn unlinkat(fd: i32, p: P, flags: i32) -> i32 { ret(at_dir(fd).and_then(|b| remove(&b, &text(p), flags & 0x200 != 0))) as i32 }
    pub fn inside(p: &str, d: &str) -> bool { same(p, d) || (p.len() > d.len() && p.as_bytes()[d.len()] == b'/' && &p.as_bytes()[..d.len()] == d.as_bytes()) || (same(d, "/")) }
    fn do_rename(a: &str, b: &str) -> Result<i64, i32> {
        fault("rename")?;
        let cwd = get().cwd.clone();
        let (p, q) = (resolve(&cwd, a, false)?, resolve(&cwd, b, false)?);
        let i = match node(&p) { Some(i) => i, None => return fail(ENOENT) };
        match kind(&parent(&q)) { Some(Kind::Dir) => (), Some(_) => return fail(ENOTDIR), None => return fail(ENOENT) }
        if same(&p, &q) { return Ok(0) }
        let d = matches!(get().nodes[i].kind, Kind::Dir);
        if d && inside(&q, &p) { return fail(EINVAL) }
        match kind(&q) { Some(Kind::Dir) => { if !d { return fail(EISDIR) } if has_children(&q) { return fail(ENOTEMPTY) } } Some(_) => if d { return fail(ENOTDIR) }, None => () }
        if let Some(j) = node(&q) { get().nodes.remove(j); }
        for n in get().nodes.iter_mut() { if inside(&n.path, &p) { let mut s = q.clone(); s.push_str(&n.path[p.len()..]); n.path = s } }
        Ok(0)
    }
    #[no_mangle] pub unsafe extern "C" fn rename(a: P, b: P) -> i32 { ret(do_rename(&text(a), &text(b))) as i32 }
    fn give(s: &str) -> *mut u8 { unsafe { let p = malloc(s.len() + 1); for (i, b) in s.bytes().enumerate() { *p.add(i) = b } *p.add(s.len()) = 0; p } }
    #[no_mangle] pub unsafe extern "C" fn realpath(p: P, _: *mut u8) -> *mut u8 {
        let r = fault("realpath").and_then(|_| resolve(&get().cwd.clone(), &text(p), true)).and_then(|q| if node(&q).is_some() { Ok(q) } else { Err(ENOENT) });
        match r { Ok(q) => give(&q), Err(e) => { ret(fail(e)); std::ptr::null_mut() } }
    }
    #[no_mangle] pub unsafe extern "C" fn readlink(p: P, buf: *mut u8, n: usize) -> isize {
        let r = fault("readlink").and_then(|_| resolve(&get().cwd.clone(), &text(p), false));
        match r { Ok(q) => match kind(&q) { Some(Kind::Link(t)) => { let k = if t.len() < n { t.len() } else { n }; for j in 0..k { *buf.add(j) = t.as_bytes()[j] } k as isize } Some(_) => ret(fail(EINVAL)) as isize, None => ret(fail(ENOENT)) as isize }, Err(e) => ret(fail(e)) as isize }
    }
    #[no_mangle] pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
        let s = get().cwd.clone();
        if s.len() + 1 > n { ret(fail(34)); return std::ptr::null_mut() }
        for (i, b) in s.bytes().enumerate() { *buf.add(i) = b }
        *buf.add(s.len()) = 0;
        buf
    }
    fn do_chdir(path: &str) -> Result<i64, i32> {
        fault("chdir")?;
        let p = resolve(&get().cwd.clone(), path, true)?;
        match kind(&p) { Some(Kind::Dir) => { get().cwd = p; Ok(0) } Some(_) => fail(ENOTDIR), None => fail(ENOENT) }
    }
    #[no_mangle] pub unsafe extern "C" fn chdir(p: P) -> i32 { ret(do_chdir(&text(p))) as i32 }
    #[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_: i32, _: i32, t: *const i64, _: *mut i64) -> i32 { let o = get(); o.slept.0 += *t; o.slept.1 += *t.add(1); 0 }
    // ---- directories -----------------------------------------------------------
    fn scan(fd: i32) -> *mut u8 {
        let p = match at_dir(fd) { Ok(p) => p, Err(e) => { ret(fail(e)); return std::ptr::null_mut() } };
        let mut names = vec![(String::from("."), 4u8), (String::from(".."), 4)];
        for n in &get().nodes { if n.path.len() > 1 && same(&parent(&n.path), &p) { let k = if p.len() == 1 { 1 } else { p.len() + 1 }; names.push((n.path[k..].to_string(), match n.kind { Kind::File(_) => 8, Kind::Dir => 4, Kind::Link(_) => 10 })) } }
        let o = get();
        o.scans.push(Scan { fd, names, at: 0, ent: [0; 280] });
        o.scans.len() as *mut u8
    }
    #[no_mangle] pub unsafe extern "C" fn opendir(p: P) -> *mut u8 { let fd = open64(p, 0x10000, 0); if fd < 0 { return std::ptr::null_mut() } scan(fd) }
    #[no_mangle] pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut u8 { if let Err(e) = fault("fdopendir") { ret(fail(e)); return std::ptr::null_mut() } scan(fd) }
    #[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut u8) -> i32 { get().scans[d as usize - 1].fd }
    #[no_mangle] pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 { close(get().scans[d as usize - 1].fd) }
    #[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
        let i = d as usize - 1;
        if get().scans[i].at < get().scans[i].names.len() { if let Err(e) = fault("readdir") { ret(fail(e)); return std::ptr::null_mut() } }
        let s = &mut get().scans[i];
        if s.at >= s.names.len() { return std::ptr::null_mut() }
        let (name, ty) = s.names[s.at].clone();
        s.at += 1;
        for j in 0..280 { s.ent[j] = 0 }
        let e = s.ent.as_mut_ptr();
        std::ptr::write_unaligned(e as *mut u64, 77);
        std::ptr::write_unaligned(e.add(8) as *mut i64, s.at as i64);
        std::ptr::write_unaligned(e.add(16) as *mut u16, 280);
        *e.add(18) = ty;
        for (j, b) in name.bytes().enumerate() { *e.add(19 + j) = b }
        e
    }
    // ---- programs ----------------------------------------------------------------
    #[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(_: i32, buf: *mut u8, n: usize) -> i32 { let t = b"failed\0"; for j in 0..7 { if j < n { *buf.add(j) = t[j] } } 0 }
    #[no_mangle] pub unsafe extern "C" fn gnu_get_libc_version() -> *const u8 { b"2.39\0".as_ptr() }
    #[no_mangle] pub unsafe extern "C" fn pipe2(v: *mut i32, _: i32) -> i32 {
        if let Err(e) = fault("pipe") { return ret(fail(e)) as i32 }
        let o = get();
        o.pipes.push(Pipe { data: Vec::new(), readers: 1, writers: 1, owner: usize::MAX });
        let k = o.pipes.len() - 1;
        *v = fd_new(Fd::Read(k)); *v.add(1) = fd_new(Fd::Write(k));
        0
    }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut i32) -> i32 { let o = get(); o.actions.push((Vec::new(), None)); *a = o.actions.len() as i32 - 1; 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_destroy(_: *mut i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut i32, x: i32, y: i32) -> i32 { get().actions[*a as usize].0.push((x, y)); 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut i32, p: P) -> i32 { get().actions[*a as usize].1 = Some(cstr(p)); 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(a: *mut i32, p: P) -> i32 { posix_spawn_file_actions_addchdir_np(a, p) }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnattr_init(_: *mut u8) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnattr_destroy(_: *mut u8) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnattr_setflags(_: *mut u8, _: i16) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnattr_setpgroup(_: *mut u8, _: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_: *mut u8, _: *const u8) -> i32 { 0 }
    unsafe fn strings(v: *const P) -> Vec<Vec<u8>> { let mut r = Vec::new(); let mut i = 0; while !(*v.add(i)).is_null() { r.push(cstr(*v.add(i))); i += 1 } r }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, f: P, a: *const i32, _: *const u8, argv: *const P, envp: *const P) -> i32 {
        if let Err(e) = fault("spawn") { return e }
        let file = cstr(f);
        let o = get();
        let n = o.procs.len();
        let e = (o.start)(n, &file);
        if e != 0 { return e }
        let (dups, cwd) = o.actions[*a as usize].clone();
        let (mut stdin, mut stdout) = (None, None);
        for (x, y) in dups { match (fd_get(x), y) { (Fd::Read(p), 0) => { stdin = Some(p); if (o.reads)(n) { o.pipes[p].readers += 1 } } (Fd::Write(p), 1) => { stdout = Some(p); o.pipes[p].writers += 1; o.pipes[p].owner = n } _ => () } }
        o.procs.push(Proc { file, argv: strings(argv), envp: strings(envp), cwd, stdin, stdout, input: Vec::new(), ran: false, waited: false });
        *pid = 5000 + n as i32;
        0
    }
    /// the program whose output the pipe carries runs to its end
    fn run_owner(p: usize) { let n = get().pipes[p].owner; if n != usize::MAX { run(n) } }
    fn run(n: usize) {
        let o = get();
        if o.procs[n].ran { return }
        if let Some(p) = o.procs[n].stdin {
            // it reads until the end of its input, which never comes while the other end is open
            if (o.reads)(n) {
                if o.pipes[p].writers > 0 { o.hung = true }
                o.procs[n].input = std::mem::take(&mut o.pipes[p].data);
                o.pipes[p].readers -= 1;
            }
        }
        o.procs[n].ran = true;
        let out = (o.program)(n, &o.procs[n].clone());
        match o.procs[n].stdout { Some(p) => { let o = get(); if o.pipes[p].readers > 0 { for b in out { o.pipes[p].data.push(b) } } o.pipes[p].writers -= 1; } None => for b in out { get().out.push(b) } }
    }
    #[no_mangle] pub unsafe extern "C" fn waitpid(pid: i32, status: *mut i32, _: i32) -> i32 {
        if let Err(e) = fault("wait") { return ret(fail(e)) as i32 }
        let n = (pid - 5000) as usize;
        if n >= get().procs.len() { return ret(fail(ECHILD)) as i32 }
        run(n);
        get().procs[n].waited = true;
        if !status.is_null() { *status = 0 }
        pid
    }
    // A thread runs to its end when it is created.  Threads here only move bytes through pipes, so the order does not matter.
    type Start = extern "C" fn(*mut u8) -> *mut u8;
    extern "C" { fn dlsym(h: *const u8, name: P) -> *const u8; }
    struct Job(Start, *mut u8, std::sync::atomic::AtomicBool);
    extern "C" fn job(p: *mut u8) -> *mut u8 { let j = unsafe { &*(p as *const Job) }; let r = (j.0)(j.1); j.2.store(true, std::sync::atomic::Ordering::SeqCst); r }
    #[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut u64, a: *const u8, f: Start, x: *mut u8) -> i32 {
        get().threads += 1;
        let r = if sv::sym() { sv::thread(true); f(x); sv::thread(false); *t = 1; 0 } else {
            let real: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(dlsym(usize::MAX as *const u8, b"pthread_create\0".as_ptr()));
            let j = Job(f, x, Default::default());
            let r = real(t, a, job, &j as *const Job as *mut u8);
            while r == 0 && !j.2.load(std::sync::atomic::Ordering::SeqCst) { std::hint::spin_loop() }
            r
        };
        get().threads -= 1;
        r
    }
    #[no_mangle] pub unsafe extern "C" fn fork() -> i32 { ret(fail(ENOSYS)) as i32 }
    #[no_mangle] pub unsafe extern "C" fn poll(_: *mut u8, _: u64, _: i32) -> i32 { 0 }
}
