//! Nondeterministic values. In the wasm build they are symbolic values of the engine (wsym); in the native
//! build they are read, in the same order, from the vector the engine found.
#![allow(static_mut_refs)]

#[cfg(target_arch = "wasm32")]
mod imp {
    #[link(wasm_import_module = "verif")]
    extern "C" {
        fn any(n: u32) -> u64;
        fn bytes(p: *mut u8, n: u32);
        fn choice(n: u32) -> u32;
        fn assume(c: u32);
        fn check(c: u32, p: *const u8, n: u32);
        fn cover(p: *const u8, n: u32);
        fn sha256(p: *const u8, n: u32, o: *mut u8);
        fn alloc(n: usize, a: usize) -> *mut u8;
        fn realloc(p: *mut u8, old: usize, a: usize, new: usize) -> *mut u8;
        fn log(p: *const u8, n: u32);
        fn concretize(v: u64) -> u64;
    }
    pub fn any_n(n: u32) -> u64 {
        unsafe { any(n) }
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { bytes(b.as_mut_ptr(), b.len() as u32) }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { choice(n) }
    }
    pub fn assume_(c: bool) {
        unsafe { assume(c as u32) }
    }
    pub fn check_(c: bool, m: &str) {
        unsafe { check(c as u32, m.as_ptr(), m.len() as u32) }
    }
    pub fn cover_(m: &str) {
        unsafe { cover(m.as_ptr(), m.len() as u32) }
    }
    pub fn log_(m: &[u8]) {
        unsafe { log(m.as_ptr(), m.len() as u32) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { concretize(v) }
    }
    pub fn sha256_(b: &[u8]) -> [u8; 32] {
        let mut o = [0u8; 32];
        unsafe { sha256(b.as_ptr(), b.len() as u32, o.as_mut_ptr()) };
        o
    }
    /// memory comes from the engine: blocks are never reused
    pub struct A;
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) {}
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            let p = alloc(l.size(), l.align());
            core::ptr::write_bytes(p, 0, l.size());
            p
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            realloc(p, l.size(), l.align(), n)
        }
    }
}

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static V: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
    }
    pub fn set(v: Vec<u64>) {
        V.with(|x| *x.borrow_mut() = (v, 0));
    }
    fn next() -> u64 {
        V.with(|x| {
            let mut x = x.borrow_mut();
            let i = x.1;
            x.1 += 1;
            match x.0.get(i) {
                Some(v) => *v,
                None => {
                    println!("REPLAY-SHORT");
                    std::process::exit(4)
                }
            }
        })
    }
    pub fn any_n(_: u32) -> u64 {
        next()
    }
    pub fn fill(b: &mut [u8]) {
        for x in b {
            *x = next() as u8;
        }
    }
    pub fn choose(n: u32) -> u32 {
        let v = next() as u32;
        assert!(v < n);
        v
    }
    pub fn assume_(c: bool) {
        if !c {
            println!("REPLAY-ASSUME");
            std::process::exit(5);
        }
    }
    pub fn check_(c: bool, m: &str) {
        if !c {
            println!("REPLAY-FAIL {m}");
            std::process::exit(3);
        }
    }
    pub fn cover_(m: &str) {
        println!("cover {m}");
    }
    pub fn log_(m: &[u8]) {
        println!("log {}", String::from_utf8_lossy(m));
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
}

#[cfg(target_arch = "wasm32")]
pub use imp::{sha256_, A};
#[cfg(not(target_arch = "wasm32"))]
pub use imp::set;

pub fn u8() -> u8 {
    imp::any_n(1) as u8
}
pub fn u16() -> u16 {
    imp::any_n(2) as u16
}
pub fn u32() -> u32 {
    imp::any_n(4) as u32
}
pub fn u64() -> u64 {
    imp::any_n(8)
}
pub fn u128() -> u128 {
    (imp::any_n(8) as u128) | ((imp::any_n(8) as u128) << 64)
}
/// a symbolic boolean (no fork until it is branched on)
pub fn bool() -> bool {
    imp::any_n(1) & 1 == 1
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    imp::fill(&mut a);
    a
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut a = vec![0u8; n];
    imp::fill(&mut a);
    a
}
/// one of 0..n, each explored as a path of its own
pub fn choice(n: usize) -> usize {
    imp::choose(n as u32) as usize
}
/// n in lo..=hi, each explored as a path of its own
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
pub fn pick<T: Copy>(x: &[T]) -> T {
    x[choice(x.len())]
}
pub fn assume(c: bool) {
    imp::assume_(c)
}
pub fn check(c: bool, m: &str) {
    imp::check_(c, m)
}
pub fn cover(m: &str) {
    imp::cover_(m)
}
pub fn log(m: impl AsRef<[u8]>) {
    imp::log_(m.as_ref())
}
/// forks on the value: afterwards it is a concrete number on every path
pub fn conc(v: u64) -> u64 {
    imp::conc(v)
}
/// a string of n symbolic characters from ASCII 0x20..0x7f
pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    for x in &b {
        assume((0x20..0x7f).contains(x));
    }
    String::from_utf8(b).unwrap()
}
/// a string of n symbolic characters, each from the given set
pub fn chars(n: usize, set: &[u8]) -> String {
    let b = bytes(n);
    for x in &b {
        let mut ok = false;
        for s in set {
            ok |= x == s;
        }
        assume(ok);
    }
    String::from_utf8(b).unwrap()
}
/// n symbolic characters of which `ok` holds; `ok` must not branch
pub fn such(n: usize, ok: impl Fn(u8) -> bool) -> String {
    let b = bytes(n);
    for x in &b {
        assume(ok(*x));
    }
    String::from_utf8(b).unwrap()
}
fn among(x: u8, set: &[u8]) -> bool {
    let mut ok = false;
    for s in set {
        ok |= x == *s;
    }
    ok
}
fn within(x: u8, a: u8, b: u8) -> bool {
    (x >= a) & (x <= b)
}
/// a header name of n characters: any characters of an HTTP token
pub fn token(n: usize) -> String {
    such(n, |c| within(c, b'a', b'z') | within(c, b'A', b'Z') | within(c, b'0', b'9') | among(c, b"!#$%&'*+-.^_`|~"))
}
/// any n characters a URL may have in its query
pub fn query(n: usize) -> String {
    such(n, |c| (c == 0x21) | within(c, 0x24, 0x3b) | (c == 0x3d) | within(c, 0x3f, 0x7e))
}
/// any n characters the name of a query parameter may have (no backslash: the expression's texts cannot hold one)
pub fn param(n: usize) -> String {
    such(n, |c| ((c == 0x21) | within(c, 0x24, 0x3b) | within(c, 0x3f, 0x7e)) & (c != b'&') & (c != b'\\'))
}
/// any n characters a segment of a URL's path may have as they are ('%' stands for the decoded character)
pub fn segment(n: usize) -> String {
    such(n, |c| ((c == 0x21) | within(c, 0x24, 0x3b) | (c == b'=') | within(c, 0x40, 0x5f) | within(c, 0x61, 0x7a) | (c == b'|') | (c == b'~')) & (c != b'/') & (c != b'%'))
}
/// any text of n ASCII characters but control characters other than the tab
pub fn value(n: usize) -> String {
    such(n, |c| within(c, 0x20, 0x7e) | (c == 9))
}
