//! Reference reading of a schema text, written from the grammar alone:
//!   schema := item*            item := 'group' name '{' item* '}' | 'struct' name '{' field* '}' | 'enum' name '{' option* '}'
//!   field := type '[]'? name '?'? ';'      option := name ';' | type '[]'? name ';'      type := name ('.' name)*
//! Names are ASCII words, declared once per scope; a type is a primitive or a struct or enum declared before, looked up
//! in the group of the declaration and then from the root.
#[derive(Clone, Debug)]
pub enum Kind { Prim(String), Ref(usize) }
#[derive(Clone, Debug)]
pub struct Member { pub name: String, pub kind: Kind, pub repeated: bool, pub optional: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum What { Group, Struct, Enum }
#[derive(Clone, Debug)]
pub struct Decl { pub what: What, pub name: String, pub parent: usize, pub members: Vec<Member> } // parent: index + 1, 0 = root
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Word(String), Ch(u8), Arr }

pub const PRIMS: [&str; 15] = ["bool", "char", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "str"];

fn ws(c: u8) -> bool { (c == b' ') | (c == b'\t') | (c == b'\n') | (c == 12) | (c == b'\r') }
fn alpha(c: u8) -> bool { ((c | 32) >= b'a') & ((c | 32) <= b'z') | (c == b'_') }
fn digit(c: u8) -> bool { (c >= b'0') & (c <= b'9') }

pub fn lex(t: &[u8]) -> Option<Vec<Tok>> {
    let mut out = vec![]; let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if ws(c) { i += 1; continue }
        if alpha(c) { let s = i; i += 1; while i < t.len() && (alpha(t[i]) | digit(t[i])) { i += 1 } out.push(Tok::Word(unsafe { String::from_utf8_unchecked(t[s..i].to_vec()) })); continue }
        if c == b'[' { i += 1; while i < t.len() && ws(t[i]) { i += 1 } if i >= t.len() || t[i] != b']' { return None } out.push(Tok::Arr); i += 1; continue }
        if (c == b';') | (c == b'{') | (c == b'}') | (c == b'?') | (c == b'.') { out.push(Tok::Ch(c)); i += 1; continue }
        return None;
    }
    Some(out)
}

struct P { t: Vec<Tok>, i: usize, d: Vec<Decl> }
impl P {
    fn ch(&self, k: usize) -> u8 { match self.t.get(k) { Some(Tok::Ch(c)) => *c, _ => 0 } }
    fn eat(&mut self, c: u8) -> Option<()> { if self.ch(self.i) == c { self.i += 1; Some(()) } else { None } }
    fn word(&mut self) -> Option<String> { match self.t.get(self.i) { Some(Tok::Word(w)) => { self.i += 1; Some(w.clone()) } _ => None } }
    fn taken(&self, parent: usize, name: &str) -> bool { self.d.iter().any(|x| x.parent == parent && x.name == name) }
    fn resolve(&self, own: usize, path: &[String]) -> Option<Kind> {
        if path.len() == 1 { if let Some(p) = PRIMS.iter().find(|p| **p == path[0]) { return Some(Kind::Prim(p.to_string())) } }
        let mut from = vec![own]; if own != 0 { from.push(0) }
        'o: for f in from {
            let mut at = f;
            for (k, n) in path.iter().enumerate() {
                let last = k + 1 == path.len();
                match self.d.iter().position(|x| x.parent == at && (x.what == What::Group) != last && x.name == *n) { Some(p) => { at = p + 1 } None => continue 'o }
            }
            return Some(Kind::Ref(at - 1));
        }
        None
    }
    /// the items of one scope up to its closing brace (or the end of the text at the root)
    fn items(&mut self, own: usize) -> Option<()> {
        loop {
            if own == 0 && self.i == self.t.len() { return Some(()) }
            if own != 0 && self.ch(self.i) == b'}' { self.i += 1; return Some(()) }
            let k = self.word()?; let what = match k.as_str() { "group" => What::Group, "struct" => What::Struct, "enum" => What::Enum, _ => return None };
            let name = self.word()?;
            if self.taken(own, &name) { return None }
            self.eat(b'{')?;
            if what == What::Group { self.d.push(Decl { what, name, parent: own, members: vec![] }); let id = self.d.len(); self.items(id)?; continue }
            let e = what == What::Enum; let mut members: Vec<Member> = vec![];
            while self.eat(b'}').is_none() {
                let mut path = vec![self.word()?];
                if matches!(path[0].as_str(), "group" | "struct" | "enum") { return None }
                while self.eat(b'.').is_some() { path.push(self.word()?) }
                let m = if e && path.len() == 1 && self.ch(self.i) == b';' { Member { name: path.remove(0), kind: Kind::Prim("str".to_string()), repeated: false, optional: false } }
                else {
                    let repeated = if self.t.get(self.i) == Some(&Tok::Arr) { self.i += 1; true } else { false };
                    let name = self.word()?;
                    let kind = self.resolve(own, &path)?;
                    let optional = !e && self.eat(b'?').is_some();
                    Member { name, kind, repeated, optional }
                };
                self.eat(b';')?;
                if members.iter().any(|x| x.name == m.name) { return None }
                members.push(m);
            }
            // declared once its body is complete: a declaration cannot refer to itself
            self.d.push(Decl { what, name, parent: own, members });
        }
    }
}

/// None: the text is not a schema
pub fn read(t: &[u8]) -> Option<Vec<Decl>> {
    let mut p = P { t: lex(t)?, i: 0, d: vec![] };
    p.items(0)?;
    Some(p.d)
}
