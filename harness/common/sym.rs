//! Harness side of the symbolic engine.  Compiled twice: to bitcode, where the `sym_*` functions are intercepted by
//! the engine, and natively (feature `native`), where they replay the concrete inputs of one path.
#![allow(dead_code)]
#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_choice(n: usize) -> usize;
        pub fn sym_check(c: bool, m: *const u8, n: usize);
        pub fn sym_fail(m: *const u8, n: usize);
        pub fn sym_reach(k: usize);
        pub fn sym_log(m: *const u8, n: usize);
        pub fn sym_exit_ok(b: bool);
        pub fn sym_panic_ok(b: bool);
        pub fn sym_concrete(v: usize) -> usize;
        pub fn sym_param() -> usize;
        pub fn sym_args(n: i32, v: *const *const u8);
        pub fn sym_on_exit(f: extern "C" fn(bool));
    }
    pub fn run_main(args: &[String], main: fn(), after: extern "C" fn(bool)) {
        let mut v: Vec<*const u8> = vec![b"clibri\0".as_ptr()];
        for a in args { let mut b = a.clone().into_bytes(); b.push(0); v.push(b.as_ptr()); std::mem::forget(b); }
        v.push(std::ptr::null());
        unsafe { sym_args(v.len() as i32 - 1, v.as_ptr()); sym_on_exit(after); }
        std::mem::forget(v);
        main();
        after(false);
    }
}
#[cfg(feature = "native")]
mod raw {
    use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::SeqCst};
    pub static mut INPUT: Vec<(bool, u64, Vec<u8>)> = Vec::new();
    pub static POS: AtomicUsize = AtomicUsize::new(0);
    pub static EXIT_OK: AtomicI32 = AtomicI32::new(-1);
    pub static PANIC_OK: AtomicI32 = AtomicI32::new(-1);
    pub static ENDED: AtomicBool = AtomicBool::new(false);
    pub static mut REACH: Vec<usize> = Vec::new();
    extern "C" { fn atexit(f: extern "C" fn()) -> i32; }
    pub static mut HOOK: Option<extern "C" fn(bool)> = None;
    pub unsafe fn sym_on_exit(f: extern "C" fn(bool)) { HOOK = Some(f) }
    pub extern "C" fn at_exit() { if !ENDED.load(SeqCst) { if let Some(f) = unsafe { HOOK.take() } { LIMIT.store(usize::MAX, SeqCst); f(true); end("return", true); } }
        if !ENDED.load(SeqCst) { end("exit", EXIT_OK.load(SeqCst) != 0); } }
    pub fn install() { unsafe { atexit(at_exit); } }
    pub fn end(how: &str, ok: bool) {
        ENDED.store(true, SeqCst);
        let r: Vec<String> = unsafe { (*std::ptr::addr_of!(REACH)).iter().map(|x| x.to_string()).collect() };
        println!("\nSYM-END {} {} reach={}", how, if ok { "ok" } else { "bad" }, r.join(","));
    }
    fn next() -> &'static (bool, u64, Vec<u8>) {
        let i = POS.fetch_add(1, SeqCst);
        unsafe { let v = &*std::ptr::addr_of!(INPUT); if i >= v.len() { end("inputs-exhausted", true); std::process::exit(0) } &v[i] }
    }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) { let x = next(); if x.0 || x.2.len() != n { end("inputs-mismatch", true); std::process::exit(0) } std::ptr::copy_nonoverlapping(x.2.as_ptr(), p, n) }
    pub unsafe fn sym_assume(c: bool) { if !c { end("assumed-out", true); std::process::exit(0) } }
    pub unsafe fn sym_choice(_n: usize) -> usize { let x = next(); if !x.0 { end("inputs-mismatch", true); std::process::exit(0) } x.1 as usize }
    unsafe fn msg(m: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).to_string() }
    pub unsafe fn sym_check(c: bool, m: *const u8, n: usize) { if !c { println!("CHECK FAILED: {}", msg(m, n)); end("check", false); std::process::exit(99) } }
    pub unsafe fn sym_fail(m: *const u8, n: usize) { println!("CHECK FAILED: {}", msg(m, n)); end("fail", false); std::process::exit(99) }
    pub unsafe fn sym_reach(k: usize) { (*std::ptr::addr_of_mut!(REACH)).push(k) }
    pub unsafe fn sym_log(m: *const u8, n: usize) { println!("LOG {}", msg(m, n)) }
    pub unsafe fn sym_exit_ok(b: bool) { EXIT_OK.store(b as i32, SeqCst) }
    pub unsafe fn sym_panic_ok(b: bool) { PANIC_OK.store(b as i32, SeqCst) }
    pub unsafe fn sym_concrete(v: usize) -> usize { v }
    /// the program itself runs in a process of its own (this binary with REPLAY_MAIN set), in the current directory
    pub fn run_main(args: &[String], _main: fn(), after: extern "C" fn(bool)) {
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("REPLAY_MAIN", "1").stdin(std::process::Stdio::null()).status().unwrap();
        if let Some(c) = st.code() { after(c != 0) } else { println!("CHECK FAILED: the program died: {}", st); end("panic", false); std::process::exit(99) }
    }
    pub unsafe fn sym_param() -> usize { std::env::var("SYM_DEEP").map(|x| x.parse().unwrap()).unwrap_or(0) }
    pub struct A;
    pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > LIMIT.load(SeqCst) { LIMIT.store(usize::MAX, SeqCst); println!("HUGE ALLOCATION {}", l.size()); end("huge-alloc", false); std::process::exit(98) } std::alloc::System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > LIMIT.load(SeqCst) { self.alloc(l); } std::alloc::System.alloc_zeroed(l) }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > LIMIT.load(SeqCst) { self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align())); } std::alloc::System.realloc(p, l, n) }
    }
    #[global_allocator]
    static G: A = A;
    /// argv: ENTRY FILE ; FILE has one input per line: `c N` or `b HEX`
    pub fn main(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let mut v = vec![];
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let (k, r) = l.split_at(1); let r = r.trim();
            if k == "c" { v.push((true, r.parse().unwrap(), vec![])) } else { v.push((false, 0, (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect())) }
        }
        unsafe { INPUT = v; }
        let f = table.iter().find(|t| t.0 == a[1]).expect("no such entry").1;
        install();
        std::panic::set_hook(Box::new(|i| { let ok = PANIC_OK.load(SeqCst) == 1; println!("PANIC {}", i); end("panic", ok); std::process::exit(if ok { 0 } else { 97 }) }));
        LIMIT.store(1 << 20, SeqCst);
        f();
        LIMIT.store(usize::MAX, SeqCst);
        end("return", true);
    }
}
#[cfg(feature = "native")]
pub use raw::main;

pub fn fill<T: Copy>(v: &mut [T]) { unsafe { raw::sym_bytes(v.as_mut_ptr() as *mut u8, std::mem::size_of_val(v)) } }
/// `n` symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }
/// a symbolic value of an integer or float type
pub fn any<T: Copy + Default>() -> T { let mut v = [T::default()]; fill(&mut v); v[0] }
pub fn any_bool() -> bool { let b: u8 = any(); assume(b < 2); b == 1 }
/// explore every value of 0..n
pub fn choice(n: usize) -> usize { unsafe { raw::sym_choice(n) } }
pub fn pick<T: Clone>(v: &[T]) -> T { v[choice(v.len())].clone() }
pub fn assume(c: bool) { unsafe { raw::sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { raw::sym_check(c, m.as_ptr(), m.len()) } }
pub fn fail(m: &str) -> ! { unsafe { raw::sym_fail(m.as_ptr(), m.len()) }; loop {} }
pub fn reach(k: usize) { unsafe { raw::sym_reach(k) } }
pub fn log(m: &str) { unsafe { raw::sym_log(m.as_ptr(), m.len()) } }
pub fn exit_ok(b: bool) { unsafe { raw::sym_exit_ok(b) } }
pub fn panic_ok(b: bool) { unsafe { raw::sym_panic_ok(b) } }
/// runs the real main() with the given arguments and then `after(exited early)`
pub fn run_main(args: &[&str], main: fn(), after: extern "C" fn(bool)) { let v: Vec<String> = args.iter().map(|x| x.to_string()).collect(); raw::run_main(&v, main, after) }
/// calls f when the code under test ends the process (instead of ending the path there)
pub fn on_exit(f: extern "C" fn(bool)) { unsafe { raw::sym_on_exit(f) } }
/// split the path on every feasible value of v
pub fn concrete(v: usize) -> usize { unsafe { raw::sym_concrete(v) } }
/// the bound to use: the first in quick runs, the second in thorough ones
pub fn bound(quick: usize, thorough: usize) -> usize { if unsafe { raw::sym_param() } == 0 { quick } else { thorough } }
/// all bytes equal, without branching per byte
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 }

/// one symbolic character encoded in `len` bytes (1..=4), any scalar value of that encoded length
pub fn push_char(out: &mut Vec<u8>, len: usize) {
    let b = bytes(len);
    match len {
        1 => assume(b[0] < 0x80),
        2 => { assume((b[0] >= 0xC2) & (b[0] <= 0xDF)); assume(b[1] & 0xC0 == 0x80) }
        3 => { assume(b[0] & 0xF0 == 0xE0); assume(b[1] & 0xC0 == 0x80); assume(b[2] & 0xC0 == 0x80);
               assume((b[0] != 0xE0) | (b[1] >= 0xA0)); assume((b[0] != 0xED) | (b[1] < 0xA0)) }
        _ => { assume((b[0] >= 0xF0) & (b[0] <= 0xF4)); assume(b[1] & 0xC0 == 0x80); assume(b[2] & 0xC0 == 0x80); assume(b[3] & 0xC0 == 0x80);
               assume((b[0] != 0xF0) | (b[1] >= 0x90)); assume((b[0] != 0xF4) | (b[1] < 0x90)) }
    }
    out.extend_from_slice(&b);
}
/// a string whose characters have the given encoded lengths
pub fn text(lens: &[usize]) -> String { let mut v = vec![]; for l in lens { push_char(&mut v, *l) } unsafe { String::from_utf8_unchecked(v) } }
/// n symbolic ASCII characters
pub fn ascii(n: usize) -> String { let b = bytes(n); let mut hi = 0; for x in b.iter() { hi |= *x; } assume(hi < 0x80); unsafe { String::from_utf8_unchecked(b) } }

#[macro_export]
macro_rules! entries {
    ($(fn $n:ident() $b:block)*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b )*
        #[cfg(feature = "native")]
        pub fn replay_main() { fn w(f: extern "C" fn()) { f() } $crate::sym::main(&[$((stringify!($n), || w($n))),*]) }
    };
}
