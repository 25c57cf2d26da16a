// Harness API.  Under the symbolic engine these externs are intercepted by
// name; natively they are the C functions in sv_native.c, which read a recorded
// counterexample.
#[allow(dead_code, improper_ctypes)]
mod sv {
    #[link(name = "svnative", kind = "static")]
    extern "C" {
        fn sv_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn sv_u8(name: *const u8, nl: usize) -> u8;
        fn sv_u32(name: *const u8, nl: usize) -> u32;
        fn sv_u64(name: *const u8, nl: usize) -> u64;
        fn sv_bool(name: *const u8, nl: usize) -> bool;
        fn sv_choose(n: u64, name: *const u8, nl: usize) -> u64;
        fn sv_assume(c: bool);
        fn sv_assert(c: bool, m: *const u8, ml: usize);
        fn sv_reach(m: *const u8, ml: usize);
        fn sv_note(m: *const u8, ml: usize);
        fn sv_is_sym() -> bool;
        fn sv_conc(x: u64) -> u64;
        fn sv_opaque(on: bool);
        fn sv_thread(on: bool);
        fn sv_native_entry() -> *const u8;
        fn sv_native_done() -> !;
    }
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { sv_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn bytes(n: usize, name: &str) -> Vec<u8> {
        let mut v = vec![0u8; n];
        fill(&mut v, name);
        v
    }
    pub fn u8(name: &str) -> u8 {
        unsafe { sv_u8(name.as_ptr(), name.len()) }
    }
    pub fn u32(name: &str) -> u32 {
        unsafe { sv_u32(name.as_ptr(), name.len()) }
    }
    pub fn i64(name: &str) -> i64 {
        unsafe { sv_u64(name.as_ptr(), name.len()) as i64 }
    }
    pub fn bool(name: &str) -> bool {
        unsafe { sv_bool(name.as_ptr(), name.len()) }
    }
    /// Forks over 0..n.
    pub fn choose(n: u64, name: &str) -> usize {
        unsafe { sv_choose(n, name.as_ptr(), name.len()) as usize }
    }
    pub fn assume(c: bool) {
        unsafe { sv_assume(c) }
    }
    pub fn assert(c: bool, m: &str) {
        unsafe { sv_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn reach(m: &str) {
        unsafe { sv_reach(m.as_ptr(), m.len()) }
    }
    pub fn note(m: &str) {
        unsafe { sv_note(m.as_ptr(), m.len()) }
    }
    pub fn thread(on: bool) {
        unsafe { sv_thread(on) }
    }
    pub fn sym() -> bool {
        unsafe { sv_is_sym() }
    }
    pub fn conc(x: u64) -> u64 {
        unsafe { sv_conc(x) }
    }
    /// Formats every symbolic 64-bit integer as `0` from here on: for harnesses
    /// that never look at the text.
    pub fn opaque(on: bool) {
        unsafe { sv_opaque(on) }
    }
    pub fn is_sym() -> bool {
        unsafe { sv_is_sym() }
    }
    /// `n` symbolic bytes, each below 0x80.
    pub fn ascii(n: usize, name: &str) -> String {
        let v = bytes(n, name);
        let mut ok = true;
        for i in 0..n {
            ok &= v[i] < 0x80;
        }
        assume(ok);
        unsafe { String::from_utf8_unchecked(v) }
    }
    /// One symbolic character: any of ASCII, or any of two, three or four bytes
    /// (those of three below U+1000 or above U+CFFF and of four above U+FFFFF left out).
    pub fn chr(name: &str) -> String {
        let n = 1 + choose(4, "size");
        let v = bytes(n, name);
        let mut ok = match n {
            1 => v[0] < 0x80,
            2 => (v[0] >= 0xc2) & (v[0] <= 0xdf),
            3 => (v[0] >= 0xe1) & (v[0] <= 0xec),
            _ => (v[0] >= 0xf1) & (v[0] <= 0xf3),
        };
        for i in 1..n {
            ok &= (v[i] >= 0x80) & (v[i] <= 0xbf);
        }
        assume(ok);
        unsafe { String::from_utf8_unchecked(v) }
    }
    /// `n` characters of any size.
    pub fn text(n: usize, name: &str) -> String {
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(&chr(name));
        }
        t
    }
    /// `n` symbolic bytes drawn from an alphabet.
    pub fn over(n: usize, alphabet: &[u8], name: &str) -> String {
        let v = bytes(n, name);
        for i in 0..n {
            let mut ok = false;
            for &c in alphabet {
                ok |= v[i] == c;
            }
            assume(ok);
        }
        unsafe { String::from_utf8_unchecked(v) }
    }
    pub fn native(table: &[(&str, extern "C" fn())]) {
        unsafe {
            let p = sv_native_entry();
            if p.is_null() {
                return;
            }
            let name = std::ffi::CStr::from_ptr(p as *const _).to_str().unwrap();
            for (n, f) in table {
                if *n == name {
                    f();
                    sv_native_done();
                }
            }
            eprintln!("no harness named {}", name);
            std::process::exit(99);
        }
    }
}

#[allow(unused_macros)]
macro_rules! sv_harnesses {
    ($($name:ident)*) => {
        #[used]
        #[link_section = ".init_array"]
        static SV_CTOR: extern "C" fn() = sv_ctor;
        extern "C" fn sv_ctor() {
            sv::native(&[$((stringify!($name), $name as extern "C" fn())),*]);
        }
    };
}

// libc stand-ins used by the engine only (the native replay runs with
// HOME=/home/user and otherwise the real libc).
#[no_mangle]
pub unsafe extern "C" fn sv_stub_getenv(n: *const u8) -> *const u8 {
    if *n == b'H' && *n.add(1) == b'O' && *n.add(2) == b'M' && *n.add(3) == b'E' && *n.add(4) == 0 {
        return b"/home/user\0".as_ptr();
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn sv_stub_getcwd(b: *mut u8, n: usize) -> *mut u8 {
    let s = b"/home/user\0";
    if n < s.len() {
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
    b
}
