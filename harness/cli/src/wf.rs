//! Workflow files. Reference reading of a workflow text, written from the grammar alone:
//!   workflow := entity*      path := word ('.' word)*
//!   entity := '&config' '{' setting* '}' | '@beacons' '{' ('>' path ';')+ '}' | '@'path '{' ('>' path '?'? ';')+ '}' | path request
//!   request := '!' path '{' action+ '}'
//!   action := '(' path ')' ';' | '(' word '>' path ')' ( ';' | ('>' path '?'? ';')+ )
//!   setting := ('Producer' | 'Consumer') ':' target+ ';' | ('SelfKey' | 'AssignedKey') ':' path ';'
//! Comments run from '#' to the end of the line. Every path names a struct or an enum of the schema, from its root
//! ('connected' and 'disconnected' are events of their own).
use crate::sym::*;
use crate::protocol::{self, store::Store as Protocol};
use crate::workflow::{self, store::Store};

#[derive(Clone, Debug, PartialEq)]
enum Tok { Word(String), At(String), Amp(String), Ch(u8) }
#[derive(Clone, Debug)]
enum Stop { Syntax, Missing(Vec<String>), Lacks(&'static str), Twice /* duplicates, or several faults at once */, Unfinished }
type Bc = (String, bool);
#[derive(Default)]
struct Req { name: String, err: Option<String>, actions: Vec<(Option<String>, String, Vec<Bc>)>, bcs: Vec<String> }
#[derive(Default)]
struct Cfg { producer: Vec<String>, consumer: Vec<String>, sel: Option<String>, ass: Option<String> }
#[derive(Default)]
struct Wf { reqs: Vec<Req>, events: Vec<(String, Vec<Bc>)>, beacons: Vec<String>, cfg: Option<Cfg> }

fn ws(c: u8) -> bool { (c == b' ') | (c == b'\t') | (c == b'\n') | (c == 12) | (c == b'\r') }
fn alpha(c: u8) -> bool { ((c | 32) >= b'a') & ((c | 32) <= b'z') | (c == b'_') }
fn digit(c: u8) -> bool { (c >= b'0') & (c <= b'9') }

fn lex(t: &[u8]) -> Option<Vec<Tok>> {
    if std::str::from_utf8(t).is_err() { return None }
    let mut out = vec![]; let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if ws(c) { i += 1; continue }
        if c == b'#' { while i < t.len() && t[i] != b'\n' { i += 1 } continue }
        let mark = if (c == b'@') | (c == b'&') { i += 1; c } else { 0 };
        if i < t.len() && alpha(t[i]) {
            let s = i; i += 1; while i < t.len() && (alpha(t[i]) | digit(t[i])) { i += 1 }
            let w = unsafe { String::from_utf8_unchecked(t[s..i].to_vec()) };
            // a word ends at white space, a mark, or the end of the text
            if i < t.len() { let c = t[i]; if c == b'#' { i += 1; while i < t.len() && t[i] != b'\n' { i += 1 } } else if !(ws(c) | punct(c)) { return None } }
            out.push(if mark == b'@' { Tok::At(w) } else if mark == b'&' { Tok::Amp(w) } else { Tok::Word(w) }); continue
        }
        if mark != 0 || !punct(c) { return None }
        out.push(Tok::Ch(c)); i += 1;
    }
    Some(out)
}
fn punct(c: u8) -> bool { (c == b';') | (c == b'{') | (c == b'}') | (c == b'?') | (c == b'.') | (c == b'(') | (c == b')') | (c == b'>') | (c == b'!') | (c == b':') }

struct P<'a> { t: Vec<Tok>, i: usize, known: &'a [String], missing: Vec<String> }
impl<'a> P<'a> {
    fn end(&self) -> bool { self.i >= self.t.len() }
    fn bad<T>(&self) -> Result<T, Stop> { Err(if self.end() { Stop::Unfinished } else { Stop::Syntax }) }
    fn is(&self, c: u8) -> bool { match self.t.get(self.i) { Some(Tok::Ch(x)) => *x == c, _ => false } }
    fn eat(&mut self, c: u8) -> bool { let y = self.is(c); if y { self.i += 1 } y }
    fn need(&mut self, c: u8) -> Result<(), Stop> { if self.eat(c) { Ok(()) } else { self.bad() } }
    fn word(&mut self) -> Result<String, Stop> { if let Some(Tok::Word(w)) = self.t.get(self.i) { let w = w.clone(); self.i += 1; Ok(w) } else { self.bad() } }
    fn rest(&mut self, mut p: String) -> Result<String, Stop> { while self.eat(b'.') { p.push('.'); p.push_str(&self.word()?) } Ok(p) }
    fn path(&mut self) -> Result<String, Stop> { let w = self.word()?; let p = self.rest(w)?; self.refer(&p); Ok(p) }
    fn refer(&mut self, p: &str) { if !self.known.iter().any(|k| k == p) { self.missing.push(p.to_string()) } }
    fn bcs(&mut self, optional: bool) -> Result<Vec<Bc>, Stop> {
        let mut v: Vec<Bc> = vec![];
        loop { self.need(b'>')?; let p = self.path()?; let o = optional && self.eat(b'?'); self.need(b';')?; v.push((p, o)); if !self.is(b'>') { return Ok(v) } }
    }
    fn entity(&mut self, w: &mut Wf) -> Result<(), Stop> {
        let t = self.t[self.i].clone(); self.i += 1;
        match t {
            Tok::Ch(_) => return Err(Stop::Syntax),
            Tok::Amp(n) => {
                if n != "config" { return Err(Stop::Syntax) }
                self.need(b'{')?;
                let mut c = Cfg::default(); let mut twice = false;
                while !self.eat(b'}') {
                    let k = self.word()?; self.need(b':')?;
                    match k.as_str() {
                        "Producer" | "Consumer" => {
                            let mut v = vec![];
                            while !self.eat(b';') { let n = self.word()?; if n != "rust" && n != "typescript" { return Err(Stop::Syntax) } twice |= v.contains(&n); v.push(n) }
                            if v.is_empty() { return Err(Stop::Syntax) }
                            let at = if k == "Producer" { &mut c.producer } else { &mut c.consumer };
                            twice |= !at.is_empty(); *at = v;
                        }
                        "SelfKey" | "AssignedKey" => { let p = self.path()?; self.need(b';')?; let at = if k == "SelfKey" { &mut c.sel } else { &mut c.ass }; twice |= at.is_some(); *at = Some(p) }
                        _ => return Err(Stop::Syntax),
                    }
                }
                if twice || w.cfg.is_some() { return Err(Stop::Twice) }
                if !self.missing.is_empty() { return if c.producer.is_empty() || c.consumer.is_empty() { Err(Stop::Twice) } else { Ok(()) } }
                if c.producer.is_empty() { return Err(Stop::Lacks("roducer")) }
                if c.consumer.is_empty() { return Err(Stop::Lacks("onsumer")) }
                w.cfg = Some(c);
            }
            Tok::At(n) => {
                if n == "beacons" {
                    self.need(b'{')?; let v = self.bcs(false)?; self.need(b'}')?;
                    for (b, _) in v { if w.beacons.contains(&b) { return Err(Stop::Twice) } w.beacons.push(b) }
                } else {
                    let p = self.rest(n)?; if p != "connected" && p != "disconnected" { self.refer(&p) }
                    self.need(b'{')?; let v = self.bcs(true)?; self.need(b'}')?;
                    if w.events.iter().any(|e| e.0 == p) { return Err(Stop::Twice) }
                    w.events.push((p, v));
                }
            }
            Tok::Word(n) => {
                let mut r = Req::default(); let mut twice = false; let mut none = 0;
                r.name = self.rest(n)?; let name = r.name.clone(); self.refer(&name);
                {
                    self.need(b'!')?; r.err = Some(self.path()?); self.need(b'{')?;
                    while r.actions.is_empty() || !self.eat(b'}') {
                        self.need(b'(')?; let first = self.word()?;
                        let (c, p) = if self.eat(b'>') { (Some(first), self.path()?) } else { let p = self.rest(first)?; if self.is(b'>') { return Err(Stop::Syntax) } self.refer(&p); none += 1; (None, p) };
                        self.need(b')')?;
                        let b = if self.eat(b';') { vec![] } else if c.is_some() { self.bcs(true)? } else { return self.bad() };
                        for i in 0..b.len() { for j in 0..i { twice |= b[i].0 == b[j].0 } }
                        r.actions.push((c, p, b));
                    }
                    if none > 0 && r.actions.len() > 1 { return Err(Stop::Syntax) }
                }
                if twice || w.reqs.iter().any(|x| x.name == r.name) { return Err(Stop::Twice) }
                w.reqs.push(r);
            }
        }
        Ok(())
    }
}
fn read(t: &[u8], known: &[String]) -> Result<Wf, Stop> {
    let t = match lex(t) { Some(t) => t, None => return Err(Stop::Syntax) };
    let mut p = P { t, i: 0, known, missing: vec![] }; let mut w = Wf::default();
    while !p.end() { p.entity(&mut w)?; if !p.missing.is_empty() { return Err(Stop::Missing(p.missing)) } }
    for b in w.beacons.iter() { if w.reqs.iter().any(|r| r.name == *b) { return Err(Stop::Twice) } }
    Ok(w)
}

const S: &str = "struct zqA{} enum zqB{a;} group zqC { struct zqD{} group zqE { struct zqA{} } } struct A_b{} struct B{} struct C{} struct D{} struct E{}";
fn known() -> Vec<String> { ["zqA", "zqB", "zqC.zqD", "zqC.zqE.zqA", "A_b", "B", "C", "D", "E"].iter().map(|s| s.to_string()).collect() }
fn schema() -> Protocol { std::fs::write("s.prot", S).unwrap(); match protocol::Parser::new("s.prot".into()).parse() { Ok(s) => s, Err(_) => fail("the fixed schema is rejected") } }
extern "C" fn gave_up(_early: bool) { check(false, "the workflow parser ends the process") }

fn run(t: &[u8], p: &mut Protocol) -> Result<Store, String> {
    std::fs::write("w.workflow", t).unwrap();
    match workflow::Parser::new("w.workflow".into()) { Ok(mut w) => w.parse(p), Err(e) => Err(e) }
}
fn has(t: &str, pat: &str) -> bool { let (t, pat) = (t.as_bytes(), pat.as_bytes()); for i in 0..t.len() { if t.len() - i >= pat.len() && same_bytes(&t[i..i + pat.len()], pat) { return true } } false }

/// P18
pub fn judge(t: &[u8]) {
    let mut p = schema(); on_exit(gave_up);
    let want = read(t, &known());
    if let Err(Stop::Syntax) = want { return } // P19
    let got = run(t, &mut p);
    match (want, got) {
        (Ok(w), Ok(s)) => { same(&w, &s, &p); reach(1) }
        (Ok(_), Err(_)) => check(false, "a workflow whose references all exist is rejected"),
        (Err(e), Ok(_)) => check(false, match e { Stop::Missing(_) => "a workflow that names a message missing from the schema is accepted", Stop::Lacks(_) => "a workflow without a required setting is accepted", Stop::Twice => "a workflow with duplicate or conflicting declarations is accepted", _ => "a workflow that ends inside of a declaration is accepted" }),
        (Err(Stop::Missing(m)), Err(e)) => { let mut y = false; for n in m.iter() { y |= has(&e, n) } check(y, "the error does not name the missing message"); reach(2) }
        (Err(Stop::Lacks(m)), Err(e)) => { check(has(&e, m), "the error does not name the missing setting"); reach(2) }
        (Err(_), Err(_)) => reach(2),
    }
}
fn same(w: &Wf, s: &Store, p: &Protocol) {
    check(s.requests.len() == w.reqs.len(), "number of requests"); check(s.events.len() == w.events.len(), "number of events"); check(s.beacons.len() == w.beacons.len(), "number of beacons");
    for (a, b) in w.reqs.iter().zip(s.requests.iter()) {
        check(b.request.as_deref() == Some(&a.name), "name of a request"); check(b.error == a.err, "error of a request");
        check(b.broadcasts == a.bcs, "broadcasts of a request"); check(b.actions.len() == a.actions.len(), "number of actions");
        for (x, y) in a.actions.iter().zip(b.actions.iter()) {
            check(x.0 == y.conclusion, "conclusion of an action"); check(y.response.as_deref() == Some(&x.1), "response of an action"); check(x.2.len() == y.broadcast.len(), "number of broadcasts of an action");
            for (m, n) in x.2.iter().zip(y.broadcast.iter()) { check(m.0 == n.reference, "broadcast of an action"); check(m.1 == n.optional, "optional mark of a broadcast") }
        }
    }
    for (a, b) in w.events.iter().zip(s.events.iter()) {
        check(b.reference.as_deref() == Some(&a.0), "name of an event"); check(a.1.len() == b.broadcasts.len(), "number of broadcasts of an event");
        for (m, n) in a.1.iter().zip(b.broadcasts.iter()) { check(m.0 == n.reference, "broadcast of an event"); check(m.1 == n.optional, "optional mark of an event's broadcast") }
    }
    for (a, b) in w.beacons.iter().zip(s.beacons.iter()) { check(*a == b.reference, "name of a beacon") }
    check(s.config.is_some() == w.cfg.is_some(), "presence of the settings");
    if let (Some(a), Some(b)) = (&w.cfg, &s.config) {
        use crate::render::Target;
        let t = |v: &[String]| -> Vec<Target> { v.iter().map(|x| if x == "rust" { Target::Rust } else { Target::TypeScript }).collect() };
        check(t(&a.producer) == b.producer, "targets of the producer"); check(t(&a.consumer) == b.consumer, "targets of the consumer");
        for (x, y) in [(&a.sel, &b.self_key), (&a.ass, &b.assigned_key)].iter() {
            match y { Some(k) => { if x.is_some() { check(*x == *y, "key message") } check(p.find_by_str_path(0, k).is_some(), "a key refers to a message that does not exist") } None => fail("no key message") }
        }
    }
}

/// P19: the run ends (bounded by the engine's step limit) with a model or an error; a panic is a violation
pub fn total(t: &[u8]) { let mut p = schema(); on_exit(gave_up); match run(t, &mut p) { Ok(_) => reach(1), Err(_) => reach(2) } }

const W1: &str = "&config{Producer:rust;Consumer:typescript rust;SelfKey:B;AssignedKey:zqC.zqD;}\nB!E{(a>C)>D?;>E;(b>D);}#x\n@connected{>C;}@beacons{>D;}";
const W2: &str = "@zqA{>zqB;>C?;} B!C{(a>C)>C;>D;}\n@beacons{>zqC.zqE.zqA;>D;} A_b!A_b{(A_b);} C!zqA{(D);}\n &config{Consumer:rust;Producer:rust;}";
/// a name: a fixed start and one arbitrary letter
fn name(v: &mut Vec<u8>) { let c: u8 = any(); assume(alpha(c)); v.extend_from_slice(b"zq"); v.push(c) }
fn path(v: &mut Vec<u8>, n: usize) { for i in 0..n { if i > 0 { v.push(b'.') } name(v) } }
/// `k` counts the references of a template: the chosen one gets up to three arbitrary names, the others `rest`
fn refs(t: &str, one: usize, n: usize, all: bool) -> Vec<u8> {
    let mut v = vec![]; let mut k = 0;
    for c in t.bytes() { if c == b'$' { if k == one { path(&mut v, n) } else if all { path(&mut v, 1) } else { v.push(b"BCDE"[k % 4]) } k += 1 } else { v.push(c) } }
    v
}
const T: [&str; 8] = ["$!$ {($);}$!B {($);}", "$!$ {(a>$)>$;>$;(b>$)>$;}", "$!$ {($);}", "$!E{(a>$)>$?;}", "@${>$?;>$;}", "@beacons{>$;>$;}@beacons{>$;}", "&config{Producer:rust;SelfKey:$;AssignedKey:$;Consumer:rust;}", "$!B{(B);}$!B{(B);}@beacons{>$;>$;}"];
/// one reference is an arbitrary path
pub fn one() { let t = pick(&T); let n = t.bytes().filter(|c| *c == b'$').count(); judge(&refs(t, choice(n), 1 + choice(3), false)) }
/// every reference is an arbitrary name
pub fn all(k: usize) { let t = [["@${>$?;>$;}", "$!$ {($);}"], ["$!$ {(a>$)>$;}", "@beacons{>$;>$;>$;}"], ["$!E{(E);}$!D{(D);}@beacons{>$;}", "@$ {>$;}@$ {>$?;}"]][k][choice(2)]; judge(&refs(t, 99, 1, true)) }
/// optional marks, settings present or not, in any order
pub fn forms(k: usize) {
    let mut v = vec![]; let q = |v: &mut Vec<u8>| if choice(2) == 1 { v.push(b'?') };
    match k {
        0 => { let c = ["Producer:rust;", "Consumer:rust typescript;", "SelfKey:C;", "AssignedKey:D;"]; v.extend_from_slice(b"&config {"); let f = choice(4); for i in 0..4 { if choice(2) == 1 { v.extend_from_slice(c[(i + f) % 4].as_bytes()) } } if choice(3) == 2 { v.extend_from_slice(c[choice(4)].as_bytes()) } v.push(b'}') }
        1 => { v.extend_from_slice(b"B !E {"); for i in 0..1 + choice(bound(2, 3)) { v.push(b'('); if choice(3) > 0 { v.push(b'a' + i as u8); v.push(b'>') } v.push(b"CDE"[i]); v.push(b')'); for j in 0..choice(3) { v.push(b'>'); v.push(b"CBE"[j]); q(&mut v); if j == 0 || choice(2) == 1 { v.push(b';') } } if choice(2) == 1 { v.push(b';') } } v.push(b'}') }
        _ => { let e: &[&str] = &["B!C{(D);}", "C!E{(D);}", "D!D{(a>B);}", "@B{>C;}", "@connected{>C?;}", "@disconnected{>zqB;}", "@beacons{>E;}", "@beacons{>B;}", "&config{Producer:rust;Consumer:rust;}"]; for _ in 0..choice(bound(3, 4) + 1) { v.extend_from_slice(pick(e).as_bytes()) } }
    }
    judge(&v)
}
fn sp(v: &mut Vec<u8>) { let c: u8 = any(); assume(ws(c)); v.push(c) }
/// white space and comments (with any text) between tokens
pub fn space() {
    let ts: &[&str] = pick(&[&["&config", "{", "Producer", ":", "rust", ";", "Consumer", ":", "rust", ";", "}"][..], &["B", "!", "zqC", ".", "zqD", "{", "(", "a", ">", "C", ")", ">", "D", "?", ";", "}"][..], &["@B", "{", ">", "C", ";", "}", "@beacons", "{", ">", "D", ";", "}", "E", "!", "E", "{", "(", "E", ")", ";", "}"][..]]);
    let k = choice(ts.len() + 1); let m = choice(4); let mut v = vec![];
    for i in 0..ts.len() + 1 {
        if i == k { match m { 0 => {} 1 => sp(&mut v), 2 => { sp(&mut v); sp(&mut v) } _ => { v.push(b'#'); for _ in 0..choice(3) { let c: u8 = any(); assume((c < 128) & (c != b'\n')); v.push(c) } if choice(2) == 1 { let c: u8 = any(); assume(c >= 0x80 && c < 0xc0); v.push(pick(&[0xc3u8, 0xdf])); v.push(c) } v.push(b'\n') } } }
        if i < ts.len() { v.extend_from_slice(ts[i].as_bytes()) }
    }
    judge(&v)
}
/// the text with `del` bytes at any position replaced by `ins` arbitrary bytes
pub fn edits(k: usize, deep: bool, f: fn(&[u8])) {
    let t = [W1, W2][k].as_bytes(); let m = [(0, 1), (1, 1), (1, 0), (2, 1), (1, 2), (0, 2)];
    let (d, i) = m[choice(if deep { bound(3, 6) } else { 3 })]; let p = choice(t.len() + 1 - d);
    let mut v = t[..p].to_vec(); v.extend(bytes(i)); v.extend_from_slice(&t[p + d..]); f(&v)
}
/// every prefix, followed by arbitrary bytes
pub fn cut(f: fn(&[u8]), n: usize) { let t = pick(&[W1, W2]).as_bytes(); let k = choice(t.len() + 1); let mut v = t[..k].to_vec(); v.extend(bytes(choice(n + 1))); f(&v) }
pub fn free() { let n = choice(bound(4, 5)); total(&bytes(n)) }
/// text that is not ASCII, anywhere
pub fn wide() {
    let t = [W1, W2][choice(2)].as_bytes(); let p = choice(t.len() + 1); let mut v = t[..p].to_vec();
    if choice(2) == 1 { v.push(b'#') }
    let (x, y, z): (u8, u8, u8) = (any(), any(), any()); let c = |b: u8| b & 0x3f | 0x80;
    match choice(3) { 0 => v.extend_from_slice(&[pick(&[0xc2u8, 0xd0, 0xdf]), c(x)]), 1 => v.extend_from_slice(&[pick(&[0xe1u8, 0xec]), c(x), c(y)]), _ => v.extend_from_slice(&[0xf1, c(x), c(y), c(z)]) }
    if choice(2) == 1 { v.push(b'\n') }
    v.extend_from_slice(&t[p..]); total(&v)
}
