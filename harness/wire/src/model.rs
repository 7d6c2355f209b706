//! Symbolic values of every message type of verif.prot, equality of values, and an encoder written from the
//! documented layout alone (it shares no code with the generated one).
use crate::proto::*;
use crate::sym::*;

// ---------------------------------------------------------------- shapes
// Contents are symbolic; lengths, presence and variants are enumerated: one slot of the value at a time takes
// every shape, the others keep a non-trivial default.
static mut SLOT: usize = 0;
static mut VARY: usize = usize::MAX;
static mut KIND: usize = 1;
pub fn vary(slots: usize) { unsafe { SLOT = 0; VARY = choice(slots); KIND = choice(6); } }
pub fn vary_none() { unsafe { SLOT = 0; VARY = usize::MAX; KIND = 1; } }
/// drops the runs whose varied slot does not exist in the value that was built
pub fn settled() { unsafe { assume(VARY < SLOT || VARY == 0 || VARY == usize::MAX); if VARY == 0 && SLOT == 0 { assume(KIND == 0) } } }
fn shape() -> usize { unsafe { let i = SLOT; SLOT += 1; if i == VARY { KIND } else { 1 } } }
fn variant(n: usize) -> usize { unsafe { let i = SLOT; SLOT += 1; if i == VARY { assume(KIND == 0); choice(n) } else { 0 } } }

pub trait Sym: Sized { fn sym() -> Self; }
pub trait Same { fn same(&self, o: &Self) -> bool; }
/// body bytes of a value and whether its record uses the short (8 bit) length
pub trait Lay { fn body(&self, out: &mut Vec<u8>); fn rec(&self, id: u16, out: &mut Vec<u8>); }

pub fn record(id: u16, short: bool, b: &[u8], out: &mut Vec<u8>) {
    out.push(id as u8); out.push((id >> 8) as u8);
    if short { out.push(8); out.push(b.len() as u8); } else { out.push(64); let n = b.len() as u64; for i in 0..8 { out.push((n >> (8 * i)) as u8) } }
    for x in b { out.push(*x) }
}
macro_rules! prim { ($($t:ty),*) => { $(
    impl Sym for $t { fn sym() -> Self { any() } }
    impl Same for $t { fn same(&self, o: &Self) -> bool { same_bytes(&self.to_le_bytes(), &o.to_le_bytes()) } }
    impl Lay for $t {
        fn body(&self, out: &mut Vec<u8>) { let mut b = self.to_ne_bytes(); if cfg!(target_endian = "big") { b.reverse() } for x in b.iter() { out.push(*x) } }
        fn rec(&self, id: u16, out: &mut Vec<u8>) { let mut b = vec![]; self.body(&mut b); record(id, true, &b, out) }
    }
    impl VecOf for $t {}
)* } }
/// element types whose arrays are the plain concatenation of the elements
pub trait VecOf: Sym + Same + Lay {}
prim!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
impl Sym for bool { fn sym() -> Self { any_bool() } }
impl Same for bool { fn same(&self, o: &Self) -> bool { *self == *o } }
impl Lay for bool { fn body(&self, out: &mut Vec<u8>) { out.push(*self as u8) } fn rec(&self, id: u16, out: &mut Vec<u8>) { record(id, true, &[*self as u8], out) } }
impl VecOf for bool {}
impl Sym for String { fn sym() -> Self { match shape() { 0 => String::new(), 1 => text(&[1, 2]), 2 => text(&[3]), 3 => text(&[4]), 4 => text(&[1, 1, 1, 1]), _ => text(&[2, 3, 4]) } } }
impl Same for String { fn same(&self, o: &Self) -> bool { same_bytes(self.as_bytes(), o.as_bytes()) } }
impl Lay for String { fn body(&self, out: &mut Vec<u8>) { out.extend_from_slice(self.as_bytes()) } fn rec(&self, id: u16, out: &mut Vec<u8>) { record(id, false, self.as_bytes(), out) } }
impl<T: Sym> Sym for Vec<T> { fn sym() -> Self { let n = [0, 2, 1, 3, 4, 9][shape()]; let mut v = vec![]; for _ in 0..n { v.push(T::sym()) } v } }
impl<T: Same> Same for Vec<T> { fn same(&self, o: &Self) -> bool { if self.len() != o.len() { return false } let mut r = true; for i in 0..self.len() { r &= self[i].same(&o[i]) } r } }
impl<T: Sym> Sym for Option<T> { fn sym() -> Self { if shape() == 0 { None } else { Some(T::sym()) } } }
impl<T: Same + Lay> Same for Option<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b),
    (Some(a), None) => { let mut b = vec![]; a.body(&mut b); check(b.len() > 0, "KF:a present optional whose content encodes to zero bytes is decoded as absent"); false }
    _ => false } } }
/// the encoded fields of a struct, one by one, in declaration order
pub trait Recs { fn recs(&self) -> Vec<(u16, Vec<u8>)>; }
/// layout of an array body: plain items, length-prefixed strings (32 bit) or length-prefixed composites (64 bit)
pub trait Items: Sized { fn items(v: &Vec<Self>, out: &mut Vec<u8>); }
macro_rules! plain { ($($t:ty),*) => { $( impl Items for $t { fn items(v: &Vec<Self>, out: &mut Vec<u8>) { for x in v { x.body(out) } } } )* } }
plain!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool);
impl Items for String { fn items(v: &Vec<Self>, out: &mut Vec<u8>) { for x in v { let n = x.len() as u32; for i in 0..4 { out.push((n >> (8 * i)) as u8) } x.body(out) } } }
impl<T: Items> Lay for Vec<T> { fn body(&self, out: &mut Vec<u8>) { T::items(self, out) } fn rec(&self, id: u16, out: &mut Vec<u8>) { let mut b = vec![]; self.body(&mut b); record(id, false, &b, out) } }
impl<T: Lay> Lay for Option<T> {
    fn body(&self, _: &mut Vec<u8>) {}
    fn rec(&self, id: u16, out: &mut Vec<u8>) { match self { None => record(id, true, &[], out), Some(v) => v.rec(id, out) } }
}
macro_rules! composite { ($t:ty) => {
    impl Items for $t { fn items(v: &Vec<Self>, out: &mut Vec<u8>) { for x in v { let mut b = vec![]; x.body(&mut b); let n = b.len() as u64; for i in 0..8 { out.push((n >> (8 * i)) as u8) } out.extend_from_slice(&b) } } }
} }
macro_rules! structs { ($($t:path { $($f:ident = $id:expr),* })*) => { $(
    impl Sym for $t { fn sym() -> Self { type T = $t; T { $($f: Sym::sym()),* } } }
    impl Same for $t { fn same(&self, o: &Self) -> bool { true $(& self.$f.same(&o.$f))* } }
    impl Lay for $t { fn body(&self, out: &mut Vec<u8>) { $(self.$f.rec($id, out);)* let _ = out; } fn rec(&self, id: u16, out: &mut Vec<u8>) { let mut b = vec![]; self.body(&mut b); record(id, false, &b, out) } }
    impl Recs for $t { fn recs(&self) -> Vec<(u16, Vec<u8>)> { let mut r = vec![]; $( { let mut b = vec![]; self.$f.rec($id, &mut b); r.push(($id, b)) } )* r } }
    composite!($t);
)* } }
macro_rules! enums { ($($t:path { $($v:ident = $ix:expr),* } $n:expr;)*) => { $(
    impl Sym for $t { fn sym() -> Self { type T = $t; let k = variant($n); $( if k == $ix { return T::$v(Sym::sym()) } )* loop {} } }
    impl Same for $t { fn same(&self, o: &Self) -> bool { type T = $t; match (self, o) { $((T::$v(a), T::$v(b)) => a.same(b),)* (T::Defaults, T::Defaults) => true, _ => false } } }
    impl Lay for $t { fn body(&self, out: &mut Vec<u8>) { type T = $t; match self { $(T::$v(x) => { out.push($ix); out.push(0); x.body(out) })* T::Defaults => fail("Defaults has no layout") } } fn rec(&self, id: u16, out: &mut Vec<u8>) { let mut b = vec![]; self.body(&mut b); record(id, false, &b, out) } }
    composite!($t);
)* } }
enums! {
    EPlain { One = 0, Two = 1, Three = 2 } 3;
    EPrim { Ostr = 0, Ou8 = 1, Ou16 = 2, Ou32 = 3, Ou64 = 4, Oi8 = 5, Oi16 = 6, Oi32 = 7, Oi64 = 8, Of32 = 9, Of64 = 10, Obool = 11 } 12;
    EArr { Ostr = 0, Ou8 = 1, Ou16 = 2, Ou32 = 3, Ou64 = 4, Oi8 = 5, Oi16 = 6, Oi32 = 7, Oi64 = 8, Of32 = 9, Of64 = 10, Obool = 11 } 12;
    EMix { Opair = 0, Nothing = 1, Ou32 = 2, Ostr = 3, Oempty = 4 } 5;
    Ga::Choice { A = 0, B = 1, C = 2 } 3;
}
structs! {
    Prim { fstr = 5, fu8 = 6, fu16 = 7, fu32 = 8, fu64 = 9, fi8 = 10, fi16 = 11, fi32 = 12, fi64 = 13, ff32 = 14, ff64 = 15, fbool = 16 }
    Arr { fstr = 18, fu8 = 19, fu16 = 20, fu32 = 21, fu64 = 22, fi8 = 23, fi16 = 24, fi32 = 25, fi64 = 26, ff32 = 27, ff64 = 28, fbool = 29 }
    OptPrim { fstr = 31, fu8 = 32, fu16 = 33, fu32 = 34, fu64 = 35, fi8 = 36, fi16 = 37, fi32 = 38, fi64 = 39, ff32 = 40, ff64 = 41, fbool = 42 }
    OptArr { fstr = 44, fu8 = 45, fu16 = 46, fu32 = 47, fu64 = 48, fi8 = 49, fi16 = 50, fi32 = 51, fi64 = 52, ff32 = 53, ff64 = 54, fbool = 55 }
    Pair { key = 57, val = 58 }
    Empty { }
    Nest { p = 62, ps = 63, e = 64, em = 65 }
    OptNest { p = 67, ps = 68, e = 69, pl = 70, pr = 71, ar = 72 }
    Deep { n = 74, o = 75 }
    One8 { v = 77 }
    OneStr { v = 79 }
    OneU8s { v = 81 }
    OneStrs { v = 83 }
    OnePairs { v = 85 }
    Ga::Pair { a = 88, b = 89 }
    Ga::Gb::Leaf { p = 93, names = 94, k = 95 }
}
