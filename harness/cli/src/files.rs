//! P16 (fingerprints) and P17 (existing files): the generator itself on an in-memory file system
use crate::sym::*;
use crate::model;
use std::path::Path;

const T: &str = "group G { struct A { u8[] a?; } enum B { x; A[] y; } } struct C { G.A c; }";

fn fp(name: &str, text: &[u8]) -> String {
    std::fs::write(name, text).unwrap();
    match crate::helpers::hash::get(Path::new(name)) { Ok(h) => h, Err(_) => fail("no fingerprint for an existing file") }
}
fn same_text(a: &str, b: &str) -> bool { same_bytes(a.as_bytes(), b.as_bytes()) }

/// two schemas that differ in one place
pub fn pair() {
    let t = T.as_bytes(); let p = choice(t.len()); let n = 1 + choice(bound(1, 2)); if p + n > t.len() { return }
    let (del, ins) = [(n, n), (0, n), (n, 0)][choice(3)];
    let mk = |x: &[u8]| { let mut v = t[..p].to_vec(); v.extend_from_slice(x); v.extend_from_slice(&t[p + del..]); v };
    let (a, b) = (mk(&bytes(ins)), if ins == 0 { t.to_vec() } else { mk(&bytes(ins)) });
    let (la, lb) = (model::lex(&a), model::lex(&b)); assume(la.is_some() & lb.is_some());
    let eq = same_text(&fp("a.prot", &a), &fp("b.prot", &b));
    if same_bytes(&a, &b) { check(eq, "the same schema has two fingerprints"); reach(2) }
    else if eq { check(la == lb, "different schemas have the same fingerprint") } else { reach(1) }
}

/// large schemas that differ in one character, one line or in their end
pub fn size() {
    let n = pick(&[0usize, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 10000]);
    let mut a = vec![]; let mut i = 0; while a.len() < n { a.extend_from_slice(b"struct X"); a.push(b'a' + (i % 26) as u8); a.push(b'a' + (i / 26 % 26) as u8); a.extend_from_slice(b" { u8[] c; }\n"); i += 1 } a.truncate(n);
    let ha = fp("a.prot", &a);
    match choice(3) {
        0 => { if n == 0 { return } let mut at: Vec<usize> = vec![0, n / 2, n - 1]; for k in [1023usize, 1024, 2047, 2048, 8191, 8192].iter() { if *k < n { at.push(*k) } }
            let p = pick(&at); let mut b = a.clone(); let x: u8 = any(); assume(x != a[p]); assume(x > 32 && x < 127); b[p] = x; assume(a[p] > 32);
            check(!same_text(&ha, &fp("b.prot", &b)), "schemas that differ in one character have the same fingerprint") }
        1 => { let k = pick(&[1usize, 2, 20, 1024]); let mut b = a.clone(); b.extend(std::iter::repeat(b'x').take(k)); check(!same_text(&ha, &fp("b.prot", &b)), "a schema and its extension have the same fingerprint") }
        _ => check(same_text(&ha, &fp("b.prot", &a)), "the same schema has two fingerprints"),
    }
    reach(1)
}

fn hex(v: &[u8]) -> Vec<u8> { let d = |x: u8| x + 48 + (x > 9) as u8 * 7; let mut o = vec![]; for b in v { o.push(d(b >> 4)); o.push(d(b & 15)) } o }
/// does the text contain `pat`, whose first `pre` bytes are concrete
fn contains(t: &[u8], pat: &[u8], pre: usize) -> bool { for i in 0..t.len() { if t.len() - i >= pat.len() && t[i] == pat[0] && t[i..i + pre] == pat[..pre] && same_bytes(&t[i..i + pat.len()], pat) { return true } } false }

#[derive(Clone)]
struct File { name: String, text: Option<Vec<u8>>, /* the file named as an output */ out: bool }
static mut FILES: Vec<File> = vec![];
static mut OK: bool = false;        // the run has to succeed
static mut HASHES: (Vec<u8>, usize) = (vec![], 0);
fn read(n: &str) -> Option<Vec<u8>> { std::fs::read(n).ok() }
fn same_file(now: &Option<Vec<u8>>, then: &Option<Vec<u8>>) -> bool { match (now, then) { (Some(a), Some(b)) => same_bytes(a, b), (None, None) => true, _ => false } }

extern "C" fn after_out(_early: bool) {
    for f in unsafe { (*std::ptr::addr_of!(FILES)).iter() } {
        let now = read(&f.name);
        if f.out && unsafe { OK } {
            match &now { Some(n) => { check(n.len() > 400, "a named output is empty or cut"); if let Some(t) = &f.text { check(!same_file(&now, &f.text), "a named output is not replaced"); if t.len() >= 300 { check(n[n.len() - 1] != b'~', "rests of the replaced file stay behind the generated code") } } } None => fail("a named output is not written") }
        } else { check(same_file(&now, &f.text), if f.text.is_some() { if f.out { "an existing output is changed although overwriting is not allowed" } else { "a file that is no output is changed" } } else { "a file appears although the generator has to refuse" }) }
    }
    let left = std::fs::metadata("d").is_ok(); check(!left, "an unexpected directory appears");
    reach(if unsafe { OK } { 1 } else { 2 });
}
fn args(v: &[&str]) { run_main(v, crate::cli_main, after_out) }
fn file(name: &str, text: Option<Vec<u8>>, out: bool) { if let Some(t) = &text { std::fs::write(name, t).unwrap() } unsafe { (*std::ptr::addr_of_mut!(FILES)).push(File { name: name.into(), text, out }) } }
/// contents of a file that was there before: symbolic, short or longer than what is generated
fn old() -> Vec<u8> { let mut v = bytes(3); if choice(2) == 1 { v.extend(std::iter::repeat(b'~').take(bound(40000, 40000))) } v }

/// -rs and -ts outputs
pub fn outputs() {
    let valid = choice(2) == 1;
    let mut s = b"struct ".to_vec(); let c: u8 = any(); assume((c >= b'A') & (c <= b'Z')); s.push(c); s.extend_from_slice(if valid { b" { u8 a; }" } else { b" { u9 a; }" });
    let k = choice(3); let (rs, ts) = (k != 1, k != 0);
    let o = choice(4); let ow = o != 0; // no, -o, --ow, --overwrite
    let (ers, ets) = (choice(2) == 1, choice(2) == 1);
    file("s.prot", Some(s), false);
    file("o.rs", if ers { Some(old()) } else { None }, rs); file("o.ts", if ets { Some(old()) } else { None }, ts);
    file("other.rs", Some(bytes(2)), false);
    unsafe { OK = valid && (ow || !(rs && ers || ts && ets)) }
    let mut a = vec![]; let of = ["", "-o", "--ow", "--overwrite"][o];
    let front = choice(2) == 1; if ow && front { a.push(of) }
    a.push(pick(&["--src", "-s"])); a.push("s.prot"); if rs { a.push(pick(&["-rs", "--dest-rs"])); a.push("o.rs") } if ts { a.push("-ts"); a.push("o.ts") }
    if ow && !front { a.push(of) } else if !ow && front { a.push("--em") }
    args(&a);
}
const W: &str = "&config { Producer: $; Consumer: $; SelfKey: Sk; AssignedKey: Ak; } M.Req !M.Err { (Accept > M.Ok) > M.Bc?; (Deny > M.No); } @Ev { > M.Bc?; } @beacons { > Be; } @disconnected { > M.Bc?; }";
const P: &str = "group M { struct Req { str a; } struct Err { str e; } struct Ok { u8 x?; } struct No { str why; } struct Bc { str m; } } struct Ev { u8 a; } struct Be { u8 b; } struct Sk { str k; } struct Ak { str k; }";
/// the PUML output
pub fn puml() {
    let o = choice(2) == 1; let e = choice(2) == 1;
    file("s.prot", Some(P.into()), false); file("w.workflow", Some(W.replace("$", "rust").into_bytes()), false); file("o.puml", if e { Some(old()) } else { None }, true);
    unsafe { OK = o || !e }
    let mut a = vec!["-s", "s.prot", "-wf", "w.workflow", "-d", "o.puml"]; if o { a.push("-o") }
    args(&a);
}

/// the files of a generated project that its author fills in
const EDIT: [&[&str]; 4] = [
    &["events/connected.rs", "events/disconnected.rs", "events/error.rs", "events/ev.rs", "events/ready.rs", "events/shutdown.rs", "beacons/be.rs", "responses/m_req.rs", "context.rs"],
    &["events/connected.ts", "events/disconnected.ts", "events/error.ts", "events/ev.ts", "events/ready.ts", "events/shutdown.ts", "beacons/be.ts", "responses/m.req.ts", "context.ts"],
    &["events/connected.rs", "events/disconnected.rs", "events/error.rs", "events/reconnect.rs", "events/shutdown.rs", "broadcasts/m_bc.rs", "context.rs"],
    &[],
];
extern "C" fn after_project(_early: bool) {
    for f in unsafe { (*std::ptr::addr_of!(FILES)).iter() } { check(same_file(&read(&f.name), &f.text), "a file filled in by the author is changed when the project is generated again") }
    let (h, k) = unsafe { (*std::ptr::addr_of!(HASHES)).clone() };
    let main = read(["x/implementation/mod.rs", "x/implementation/index.ts", "x/implementation/consumer/mod.rs", "x/index.ts"][k]);
    match main { Some(t) => check(t.len() > 2000, "the generated module is cut"), None => fail("the generated module is missing") }
    let _ = h; reach(1)
}
pub fn project(k: usize) {
    let e = EDIT[k]; let which = choice(e.len() + 1);
    std::fs::write("s.prot", P).unwrap(); std::fs::write("w.workflow", W.replace("$", ["rust", "typescript"][k & 1])).unwrap();
    for d in ["x", "y", "x/events", "x/beacons", "x/responses", "x/broadcasts"].iter() { std::fs::create_dir(d).unwrap() }
    for d in ["x", "y"].iter() { std::fs::write(format!("{}/Cargo.toml", d), "[package]\nname = \"x\"\n").unwrap(); std::fs::write(format!("{}/package.json", d), "{\"name\":\"x\"}").unwrap(); }
    for (i, n) in e.iter().enumerate() { if which == i || which == e.len() { file(&format!("x/{}", n), Some(bytes(2)), false) } }
    unsafe { HASHES = (vec![], k) }
    let (c, p) = if k < 2 { ("y", "x") } else { ("x", "y") };
    let mut a = vec!["-s", "s.prot", "-wf", "w.workflow", "-cd", c, "-pd", p]; if choice(2) == 1 { a.push("-o") }
    run_main(&a, crate::cli_main, after_project)
}

/// the generated code carries the fingerprints of the schema and of the workflow it was made from
extern "C" fn after_embed(_early: bool) {
    let s = read("s.prot").unwrap(); let w = read("w.workflow").unwrap();
    for n in ["o.rs", "o.ts"].iter() { match read(n) { Some(t) => check(contains(&t, &hex(&s), 14), "the generated code does not carry the fingerprint of its schema"), None => fail("output missing") } }
    for n in unsafe { (*std::ptr::addr_of!(FILES)).iter() } { match read(&n.name) { Some(t) => { check(contains(&t, &hex(&s), 14), "generated code does not carry the fingerprint of its schema"); check(contains(&t, &hex(&w), 14), "generated code does not carry the fingerprint of its workflow") } None => fail("a generated module is missing") } }
    reach(1)
}
pub fn embed() {
    let ts = choice(2); let s = P.replace("Sk", "Zk").into_bytes();
    let mut s = s; let i = P.find("why").unwrap(); let x: u8 = any(); assume((x >= b'a') & (x <= b'z')); s[i] = x; assume(x != b'w');
    let mut w = W.replace("$", ["rust", "typescript"][ts]).replace("Sk", "Zk").into_bytes(); let i = W.replace("$", ["rust", "typescript"][ts]).find("Accept").unwrap(); let y: u8 = any(); assume((y >= b'A') & (y <= b'Z')); w[i] = y; assume(y != b'D');
    std::fs::write("s.prot", &s).unwrap(); std::fs::write("w.workflow", &w).unwrap();
    for d in ["x", "y"].iter() { std::fs::create_dir(d).unwrap(); std::fs::write(format!("{}/Cargo.toml", d), "[package]\nname = \"x\"\n").unwrap(); std::fs::write(format!("{}/package.json", d), "{\"name\":\"x\"}").unwrap(); }
    for n in [["x/implementation/consumer/mod.rs", "y/implementation/mod.rs"], ["x/index.ts", "y/implementation/index.ts"]][ts].iter() { unsafe { (*std::ptr::addr_of_mut!(FILES)).push(File { name: n.to_string(), text: None, out: false }) } }
    run_main(&["-s", "s.prot", "-wf", "w.workflow", "-cd", "x", "-pd", "y", "-rs", "o.rs", "-ts", "o.ts"], crate::cli_main, after_embed)
}
