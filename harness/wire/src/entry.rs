use crate::model::*;
use crate::proto::*;
use crate::sym::*;
use std::fmt::Debug;

// ---------------------------------------------------------------- encode -> decode
fn rt_s<T: Sym + Same + Clone + StructEncode + StructDecode>(slots: usize) {
    vary(slots); let v = T::sym(); settled();
    let b = v.clone().abduct(); check(b.is_ok(), "a value built from valid fields cannot be encoded");
    let d = T::extract(b.unwrap()); check(d.is_ok(), "an encoded value is rejected by the decoder");
    check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1);
}
fn rt_e<T: Sym + Same + Clone + EnumEncode + EnumDecode>(slots: usize) {
    vary(slots); let v = T::sym(); settled();
    let b = v.clone().abduct(); check(b.is_ok(), "a value built from valid fields cannot be encoded");
    let d = T::extract(b.unwrap()); check(d.is_ok(), "an encoded value is rejected by the decoder");
    check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1);
}
/// contents of `n` items of which a few (the ends, and around multiples of 256) are symbolic
fn sparse(n: usize) -> Vec<u8> {
    let mut v = vec![b'a'; n];
    for i in [0, 1, 253, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, n.wrapping_sub(2), n.wrapping_sub(1)].iter() { if *i < n { let x: u8 = any(); assume(x < 0x80); v[*i] = x } }
    v
}
const BIG: [usize; 8] = [127, 128, 255, 256, 257, 300, 65535, 65536];
fn big() -> usize { pick(&BIG) }
fn lay_s<T: Sym + Lay + Clone + StructEncode>(slots: usize) {
    vary(slots); let v = T::sym(); settled();
    let b = v.clone().abduct(); check(b.is_ok(), "a value built from valid fields cannot be encoded");
    let mut e = vec![]; v.body(&mut e); check(same_bytes(&e, &b.unwrap()), "encoded bytes differ from the documented layout"); reach(1);
}
fn lay_e<T: Sym + Lay + Clone + EnumEncode>(slots: usize) {
    vary(slots); let v = T::sym(); settled();
    let b = v.clone().abduct(); check(b.is_ok(), "a value built from valid fields cannot be encoded");
    let mut e = vec![]; v.body(&mut e); check(same_bytes(&e, &b.unwrap()), "encoded bytes differ from the documented layout"); reach(1);
}
/// documented layout -> decoder: every value is read back from bytes written by the independent encoder
fn read_s<T: Sym + Same + Lay + StructDecode>(slots: usize) {
    vary(slots); let v = T::sym(); settled();
    let mut e = vec![]; v.body(&mut e); let d = T::extract(e); check(d.is_ok(), "bytes in the documented layout are rejected");
    check(v.same(&d.ok().unwrap()), "bytes in the documented layout are read as another value"); reach(1);
}

// ---------------------------------------------------------------- hostile bytes
fn tot_s<T: StructDecode + StructEncode>(max: usize) { let b = bytes(choice(max + 1)); match T::extract(b) { Ok(mut v) => { reach(1); let _ = v.abduct(); } Err(_) => reach(2) } }
fn tot_e<T: EnumDecode + EnumEncode>(max: usize) { let b = bytes(choice(max + 1)); match T::extract(b) { Ok(mut v) => { reach(1); let _ = v.abduct(); } Err(_) => reach(2) } }
fn leaf<T: Decode<T>>(max: usize) { let b = bytes(choice(max + 1)); match T::decode(&b) { Ok(_) => reach(1), Err(_) => reach(2) } }
/// a struct in which one field record is hostile in its framing: any rank, any declared length, then up to `max` bytes
fn field<T: Sym + Recs + StructDecode>(max: usize) {
    vary_none(); let v = T::sym(); let r = v.recs(); let k = choice(r.len()); let mut b = vec![];
    for (i, x) in r.iter().enumerate() { if i != k { b.extend_from_slice(&x.1) } }
    b.push(r[k].0 as u8); b.push((r[k].0 >> 8) as u8);
    let rank: u8 = any(); b.push(rank); let n = choice(max + 1); let tail = bytes(n + 8);
    let lens = [1, 2, 4, 8][choice(4)]; assume(rank as usize == lens * 8 || lens == 1); b.extend_from_slice(&tail[..n + lens]);
    match T::extract(b) { Ok(_) => reach(1), Err(_) => reach(2) }
}
/// a struct in which one well-framed field has any body of up to `max` bytes (`smax` for the fields that hold text)
fn body<T: Sym + Recs + StructDecode>(max: usize, texts: &[usize], smax: usize) {
    vary_none(); let v = T::sym(); let r = v.recs(); let k = choice(r.len()); let mut b = vec![];
    let n = choice(if texts.contains(&k) { smax } else { max } + 1);
    for (i, x) in r.iter().enumerate() { if i != k { b.extend_from_slice(&x.1) } else { record(x.0, x.1[2] == 8, &bytes(n), &mut b) } }
    match T::extract(b) { Ok(_) => reach(1), Err(_) => reach(2) }
}

// ---------------------------------------------------------------- tolerance of the decoder to field order and unknown fields
fn perm(n: usize) -> Vec<usize> { let mut left: Vec<usize> = (0..n).collect(); let mut r = vec![]; while left.len() > 0 { let i = choice(left.len()); r.push(left.remove(i)) } r }
fn order<T: Sym + Same + Recs + StructDecode>(full: bool) {
    vary_none(); let v = T::sym(); let r = v.recs(); let n = r.len();
    let p = if full { perm(n) } else { let rot = choice(n); let rev = choice(2) == 1; (0..n).map(|i| { let j = (i + rot) % n; if rev { n - 1 - j } else { j } }).collect() };
    let mut b = vec![]; for i in p { b.extend_from_slice(&r[i].1) }
    let d = T::extract(b); check(d.is_ok(), "fields in another order are rejected"); check(v.same(&d.ok().unwrap()), "the order of fields changes the decoded value"); reach(1);
}
fn unknown<T: Sym + Same + Recs + StructDecode>() {
    vary_none(); let v = T::sym(); let r = v.recs(); let at = choice(r.len() + 1); let id: u16 = any();
    for x in r.iter() { assume(id != x.0) }
    let mut u = vec![id as u8, (id >> 8) as u8]; let n = choice(4); let w = [1, 2, 4, 8][choice(4)]; u.push(8 * w); u.push(n as u8); for _ in 1..w { u.push(0) } u.extend_from_slice(&bytes(n));
    let mut b = vec![]; for (i, x) in r.iter().enumerate() { if i == at { b.extend_from_slice(&u) } b.extend_from_slice(&x.1) } if at == r.len() { b.extend_from_slice(&u) }
    let d = T::extract(b); check(d.is_ok(), "an unknown field makes the message undecodable"); check(v.same(&d.ok().unwrap()), "an unknown field changes the decoded value"); reach(1);
}
fn missing<T: Sym + Recs + StructDecode>() {
    vary_none(); let v = T::sym(); let r = v.recs(); let k = choice(r.len()); let mut b = vec![];
    for (i, x) in r.iter().enumerate() { if i != k { b.extend_from_slice(&x.1) } }
    check(T::extract(b).is_err(), "a message without one of its fields is accepted"); reach(1);
}

// ---------------------------------------------------------------- packages
pub type Buf = Buffer<AvailableMessages>;
const HEAD: usize = 26;
fn le(v: u64, n: usize) -> Vec<u8> { (0..n).map(|i| (v >> (8 * i)) as u8).collect() }
fn get(b: &[u8], at: usize, n: usize) -> u64 { let mut v = 0u64; for i in 0..n { v |= (b[at + i] as u64) << (8 * i) } v }
/// a package as documented, built by hand
fn package(id: u32, sig: u16, seq: u32, ts: u64, body: &[u8]) -> Vec<u8> {
    let mut b = le(id as u64, 4); b.extend(le(sig as u64, 2)); b.extend(le(seq as u64, 4)); b.extend(le(ts, 8)); b.extend(le(body.len() as u64, 8)); b.extend_from_slice(body); b
}
fn head_ok(b: &[u8], id: u32, seq: u32, body: &[u8]) {
    check(b.len() == HEAD + body.len(), "size of a package is not header plus body");
    check(get(b, 0, 4) == id as u64, "message id in the header is wrong"); check(get(b, 4, 2) == 0, "signature in the header is wrong");
    check(get(b, 6, 4) == seq as u64, "sequence in the header is wrong"); check(get(b, 18, 8) == body.len() as u64, "length in the header is wrong");
    check(same_bytes(&b[HEAD..], body), "body of a package is not the encoded message");
}
macro_rules! packed_s { ($t:ty, $id:expr) => { { vary_none(); let v = <$t>::sym(); let seq: u32 = any(); let mut e = vec![]; v.body(&mut e);
    let b = v.clone().pack(seq, None); check(b.is_ok(), "a message cannot be packed"); head_ok(&b.unwrap(), $id, seq, &e); reach(1) } } }
/// pack -> reader -> the same variant, value and header
macro_rules! through { ($v:expr, $id:expr, $pat:pat => $w:expr) => { { let v = $v; let seq: u32 = any();
    let b = v.clone().pack(seq, None); check(b.is_ok(), "a message cannot be packed"); let b = b.unwrap();
    let mut r = Buf::new(); check(r.chunk(&b, None).is_ok(), "a packed message is rejected by the reader"); check(r.pending() == 1, "one package does not give one message");
    let m = r.next(); check(m.is_some(), "no message is delivered"); let m = m.unwrap();
    check(m.header.id == $id, "delivered header has another message id"); check(m.header.sequence == seq, "delivered header has another sequence"); check(m.header.len_usize == b.len() - HEAD, "delivered header has another length");
    match m.msg { $pat => check(v.same(&$w), "delivered message differs from the packed one"), _ => fail("the message is delivered as another type") }
    check(r.len() == 0, "bytes of a delivered package stay in the reader"); check(r.pending() == 0 && r.next().is_none(), "a package is delivered twice"); reach(1) } } }

/// the k-th message of a small stream
#[derive(Clone)]
enum Msg { A(One8), B(Pair), C(Empty), D(EPrim), L(Ga::Gb::Leaf) }
impl Msg {
    fn new(k: usize) -> Msg { match k { 0 => Msg::A(One8 { v: any() }), 1 => Msg::B(Pair { key: any(), val: text(&[1, 2]) }), 2 => Msg::C(Empty {}), 3 => Msg::D(EPrim::Ou16(any())),
        _ => Msg::L(Ga::Gb::Leaf { p: Ga::Pair { a: any(), b: None }, names: vec![], k: EPlain::Two(String::new()) }) } }
    fn pack(&self, seq: u32) -> Vec<u8> { match self { Msg::A(m) => m.clone().pack(seq, None), Msg::B(m) => m.clone().pack(seq, None), Msg::C(m) => m.clone().pack(seq, None), Msg::D(m) => m.clone().pack(seq, None), Msg::L(m) => m.clone().pack(seq, None) }.unwrap() }
    fn is(&self, m: &AvailableMessages) -> bool { match (self, m) { (Msg::A(a), AvailableMessages::One8(b)) => a.same(b), (Msg::B(a), AvailableMessages::Pair(b)) => a.same(b), (Msg::C(a), AvailableMessages::Empty(b)) => a.same(b),
        (Msg::D(a), AvailableMessages::EPrim(b)) => a.same(b), (Msg::L(a), AvailableMessages::Ga(Ga::AvailableMessages::Gb(Ga::Gb::AvailableMessages::Leaf(b)))) => a.same(b), _ => false } }
}
fn deliver(r: &mut Buf, sent: &[(Msg, u32)], got: &mut usize) {
    while let Some(m) = r.next() {
        check(*got < sent.len(), "more messages are delivered than were sent");
        check(m.header.sequence == sent[*got].1, "messages are delivered with another sequence or in another order");
        check(sent[*got].0.is(&m.msg), "a delivered message differs from the one sent"); *got += 1;
    }
}
/// feeds `all` in pieces that end at the given positions
fn stream(kinds: &[usize], cuts: usize, drain: bool) {
    let mut sent = vec![]; let mut all = vec![]; let mut ends = vec![];
    for k in kinds { let m = Msg::new(*k); let s: u32 = any(); all.extend_from_slice(&m.pack(s)); ends.push(all.len()); sent.push((m, s)) }
    let mut at = vec![]; let mut from = 0; for _ in 0..cuts { let c = from + choice(all.len() + 1 - from); at.push(c); from = c }
    at.push(all.len());
    let mut r = Buf::new(); let mut pos = 0; let mut got = 0;
    for c in at {
        check(r.chunk(&all[pos..c].to_vec(), None).is_ok(), "a piece of a well-formed stream is rejected"); pos = c;
        let complete = ends.iter().filter(|e| **e <= c).count();
        check(got + r.pending() == complete, "a complete package is not available as soon as its last byte arrived");
        check(r.len() == c - if complete > 0 { ends[complete - 1] } else { 0 }, "bytes kept by the reader are not those of the incomplete package");
        if drain { deliver(&mut r, &sent, &mut got) }
    }
    deliver(&mut r, &sent, &mut got); check(got == sent.len(), "a message of the stream is lost"); check(r.len() == 0, "bytes remain after the last package"); reach(1);
}
/// good packages around one malformed package; `cut` splits the input somewhere
fn bad(kind: usize) {
    let a = Msg::new(1); let z = Msg::new(0); let sa: u32 = any(); let sz: u32 = any();
    let mut all = a.pack(sa); let e1 = all.len();
    let broken = match kind {
        0 => { let sig: u16 = any(); assume(sig != 0); package(76, sig, any(), any(), &[77, 0, 8, 1, 5]) }                 // foreign signature
        1 => { let id: u32 = any(); for k in [1u32, 2, 3, 4, 17, 30, 43, 56, 59, 60, 61, 66, 73, 76, 78, 80, 82, 84, 87, 90, 92].iter() { assume(id != *k) } package(id, 0, any(), any(), &bytes(3)) } // unknown id
        2 => { let b = bytes(5); assume(b[0] != 77 || b[1] != 0); package(76, 0, any(), any(), &b) }                          // body without the field
        3 => package(76, 0, any(), any(), &bytes(choice(4))),                                                                                  // truncated body
        _ => { let x: u16 = any(); assume(x > 11); package(2, 0, any(), any(), &le(x as u64, 2)) }                                  // unknown enum option
    };
    all.extend_from_slice(&broken); let e2 = all.len(); all.extend_from_slice(&z.pack(sz));
    let cut = choice(all.len() + 1);
    let mut r = Buf::new(); let mut errs = 0;
    if r.chunk(&all[..cut].to_vec(), None).is_err() { errs += 1; check(cut >= e2, "a package is reported before it is complete") } else { check(cut < e2, "a malformed package is not reported") }
    if r.chunk(&all[cut..].to_vec(), None).is_err() { errs += 1 }
    check(errs == 1, "a malformed package is not reported exactly once");
    // whatever was behind the malformed package is processed with the next input
    check(r.chunk(&vec![], None).is_ok(), "the malformed package is reported again");
    let sent = vec![(a, sa), (z, sz)]; let mut got = 0; deliver(&mut r, &sent, &mut got);
    check(got == 2, "a malformed package takes neighbouring messages with it"); check(r.len() == 0, "bytes of the malformed package stay in the reader"); reach(1); let _ = e1;
}
/// arbitrary bytes into the reader: no panic, and the bytes kept plus those consumed are those fed
fn hostile(body: usize) {
    let sig = choice(2); let b = bytes(HEAD + choice(body + 1)); if sig == 0 { assume(b[4] == 0 && b[5] == 0) }
    let mut r = Buf::new(); match r.chunk(&b, None) { Ok(_) => reach(1), Err(_) => reach(2) } check(r.len() <= b.len(), "the reader invents bytes");
    if r.next().is_some() { reach(3) }
}

entries! {
    fn rt_prim() { rt_s::<Prim>(2) }
    fn rt_arr() { rt_s::<Arr>(16) }
    fn rt_optprim() { rt_s::<OptPrim>(14) }
    fn rt_optarr() { rt_s::<OptArr>(30) }
    fn rt_nest() { rt_s::<Nest>(10) }
    fn rt_optnest() { rt_s::<OptNest>(20) }
    fn rt_deep() { rt_s::<Deep>(30) }
    fn rt_pair() { rt_s::<Pair>(1) }
    fn rt_small() { match choice(6) { 0 => rt_s::<Empty>(1), 1 => rt_s::<One8>(1), 2 => rt_s::<OneStr>(1), 3 => rt_s::<OneU8s>(1), 4 => rt_s::<OneStrs>(5), _ => rt_s::<OnePairs>(5) } }
    fn rt_group() { match choice(3) { 0 => rt_s::<Ga::Pair>(2), 1 => rt_s::<Ga::Gb::Leaf>(8), _ => rt_e::<Ga::Choice>(3) } }
    fn rt_eprim() { rt_e::<EPrim>(3) }
    fn rt_earr() { rt_e::<EArr>(5) }
    fn rt_emix() { rt_e::<EMix>(3) }
    fn rt_eplain() { rt_e::<EPlain>(3) }
    fn rt_big_bytes() { let v = OneU8s { v: sparse(big()) }; let b = v.clone().abduct().unwrap(); let d = OneU8s::extract(b); check(d.is_ok(), "an encoded value is rejected by the decoder"); check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1) }
    fn rt_big_str() { let v = OneStr { v: unsafe { String::from_utf8_unchecked(sparse(big())) } }; let b = v.clone().abduct().unwrap(); let d = OneStr::extract(b); check(d.is_ok(), "an encoded value is rejected by the decoder"); check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1) }
    fn rt_big_strs() { let n = pick(&[255usize, 256, 257, 300]); let mut s = vec![String::from("q"); 3]; s.push(unsafe { String::from_utf8_unchecked(sparse(n)) }); for _ in 0..n { s.push(String::from("w")) } let v = OneStrs { v: s };
        let b = v.clone().abduct().unwrap(); let d = OneStrs::extract(b); check(d.is_ok(), "an encoded value is rejected by the decoder"); check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1) }
    fn rt_big_pairs() { let n = pick(&[30usize, 255, 256]); let mut s = vec![]; for i in 0..n { s.push(Pair { key: if i % 64 == 0 { any() } else { i as u16 }, val: String::from("w") }) } s.push(Pair { key: any(), val: unsafe { String::from_utf8_unchecked(sparse(n + 2)) } }); let v = OnePairs { v: s };
        let b = v.clone().abduct().unwrap(); let d = OnePairs::extract(b); check(d.is_ok(), "an encoded value is rejected by the decoder"); check(v.same(&d.ok().unwrap()), "a decoded value differs from the encoded one"); reach(1) }

    fn lay_prim() { lay_s::<Prim>(2) }
    fn lay_arr() { lay_s::<Arr>(16) }
    fn lay_optprim() { lay_s::<OptPrim>(14) }
    fn lay_optarr() { lay_s::<OptArr>(30) }
    fn lay_nest() { lay_s::<Nest>(10) }
    fn lay_optnest() { lay_s::<OptNest>(20) }
    fn lay_deep() { lay_s::<Deep>(30) }
    fn lay_small() { match choice(7) { 0 => lay_s::<Empty>(1), 1 => lay_s::<One8>(1), 2 => lay_s::<OneStr>(1), 3 => lay_s::<OneU8s>(1), 4 => lay_s::<OneStrs>(5), 5 => lay_s::<OnePairs>(5), _ => lay_s::<Pair>(1) } }
    fn lay_group() { match choice(3) { 0 => lay_s::<Ga::Pair>(2), 1 => lay_s::<Ga::Gb::Leaf>(8), _ => lay_e::<Ga::Choice>(3) } }
    fn lay_enums() { match choice(4) { 0 => lay_e::<EPrim>(3), 1 => lay_e::<EArr>(5), 2 => lay_e::<EMix>(3), _ => lay_e::<EPlain>(3) } }
    fn lay_big() { match choice(2) { 0 => { let v = OneU8s { v: sparse(big()) }; let mut e = vec![]; v.body(&mut e); check(same_bytes(&e, &v.clone().abduct().unwrap()), "encoded bytes differ from the documented layout") }
        _ => { let v = OneStrs { v: vec![String::new(), unsafe { String::from_utf8_unchecked(sparse(big())) }] }; let mut e = vec![]; v.body(&mut e); check(same_bytes(&e, &v.clone().abduct().unwrap()), "encoded bytes differ from the documented layout") } } reach(1) }
    fn read_prim() { read_s::<Prim>(2) }
    fn read_arr() { read_s::<Arr>(16) }
    fn read_optprim() { read_s::<OptPrim>(14) }
    fn read_nest() { read_s::<Nest>(10) }
    fn read_ranks() { // integers and strings whose length is given with any of the four ranks
        let key: u16 = any(); let val = text(&[1, 2]); let mut b = vec![];
        for (id, body) in [(57u16, le(key as u64, 2)), (58, val.as_bytes().to_vec())].iter() { let w = [1usize, 2, 4, 8][choice(4)]; b.extend(le(*id as u64, 2)); b.push(8 * w as u8); b.extend(le(body.len() as u64, w)); b.extend_from_slice(body) }
        let d = Pair::extract(b); check(d.is_ok(), "bytes in the documented layout are rejected"); check(Pair { key, val }.same(&d.ok().unwrap()), "bytes in the documented layout are read as another value"); reach(1) }

    fn tot_one8() { tot_s::<One8>(bound(12, 17)) }
    fn tot_pair() { tot_s::<Pair>(bound(12, 17)) }
    fn tot_empty() { tot_s::<Empty>(bound(12, 17)) }
    fn tot_strs() { tot_s::<OneStrs>(bound(10, 12)) }
    fn tot_gpair() { tot_s::<Ga::Pair>(bound(12, 17)) }
    fn tot_eprim() { tot_e::<EPrim>(bound(4, 5)) }
    fn tot_earr() { tot_e::<EArr>(bound(8, 10)) }
    fn tot_emix() { tot_e::<EMix>(bound(4, 5)) }
    fn tot_eplain() { tot_e::<EPlain>(bound(4, 5)) }
    fn leaf_prims() { match choice(12) { 0 => leaf::<u8>(3), 1 => leaf::<u16>(4), 2 => leaf::<u32>(6), 3 => leaf::<u64>(10), 4 => leaf::<i8>(3), 5 => leaf::<i16>(4), 6 => leaf::<i32>(6), 7 => leaf::<i64>(10), 8 => leaf::<f32>(6), 9 => leaf::<f64>(10), 10 => leaf::<bool>(3), _ => leaf::<String>(bound(3, 4)) } }
    fn leaf_vecs() { match choice(11) { 0 => leaf::<Vec<u8>>(4), 1 => leaf::<Vec<u16>>(5), 2 => leaf::<Vec<u32>>(9), 3 => leaf::<Vec<u64>>(17), 4 => leaf::<Vec<i8>>(4), 5 => leaf::<Vec<i16>>(5), 6 => leaf::<Vec<i32>>(9), 7 => leaf::<Vec<i64>>(17), 8 => leaf::<Vec<f32>>(9), 9 => leaf::<Vec<f64>>(17), _ => leaf::<Vec<bool>>(4) } }
    fn leaf_strs() { leaf::<Vec<String>>(bound(7, 9)) }
    fn leaf_pairs() { leaf::<Vec<Pair>>(bound(13, 18)) }
    fn leaf_empties() { leaf::<Vec<Empty>>(bound(20, 28)) }
    fn leaf_enums() { let b = bytes(choice(bound(12, 14))); match <Vec<EMix> as DecodeEnum<Vec<EMix>>>::decode(&b) { Ok(_) => reach(1), Err(_) => reach(2) } }
    fn field_prim() { field::<Prim>(bound(2, 4)) }
    fn field_arr() { field::<Arr>(bound(3, 6)) }
    fn field_optprim() { field::<OptPrim>(bound(2, 4)) }
    fn field_optarr() { field::<OptArr>(bound(3, 6)) }
    fn field_nest() { field::<Nest>(bound(3, 6)) }
    fn field_optnest() { field::<OptNest>(bound(3, 6)) }
    fn field_leaf() { field::<Ga::Gb::Leaf>(bound(3, 6)) }
    fn body_prim() { body::<Prim>((bound(9, 12)), &[0], bound(3, 4)) }
    fn body_arr() { body::<Arr>(bound(9, 17), &[0], bound(6, 7)) }
    fn body_optprim() { body::<OptPrim>(bound(9, 12), &[0], bound(2, 4)) }
    fn body_optarr() { body::<OptArr>(bound(9, 17), &[0], bound(6, 7)) }
    fn body_nest() { body::<Nest>(bound(6, 9), &[2], bound(4, 5)) }
    fn body_optnest() { body::<OptNest>(bound(6, 9), &[2, 3, 4, 5], bound(4, 5)) }
    fn body_leaf() { body::<Ga::Gb::Leaf>(bound(8, 11), &[1, 2], bound(4, 5)) }
    fn hostile_reader() { hostile(bound(3, 6)) }

    fn ord_pair() { order::<Pair>(true) }
    fn ord_nest() { order::<Nest>(true) }
    fn ord_leaf() { order::<Ga::Gb::Leaf>(true) }
    fn ord_prim() { order::<Prim>(false) }
    fn ord_arr() { order::<Arr>(false) }
    fn ord_optprim() { order::<OptPrim>(false) }
    fn ord_optnest() { order::<OptNest>(false) }
    fn unk_all() { match choice(8) { 0 => unknown::<Pair>(), 1 => unknown::<Nest>(), 2 => unknown::<Ga::Gb::Leaf>(), 3 => unknown::<One8>(), 4 => unknown::<OnePairs>(), 5 => unknown::<Ga::Pair>(), 6 => unknown::<OneStrs>(), _ => unknown::<Empty>() } }
    fn unk_prim() { unknown::<Prim>() }
    fn unk_optnest() { unknown::<OptNest>() }
    fn mis_all() { match choice(10) { 0 => missing::<Pair>(), 1 => missing::<Nest>(), 2 => missing::<Ga::Gb::Leaf>(), 3 => missing::<One8>(), 4 => missing::<Prim>(), 5 => missing::<Arr>(), 6 => missing::<OptPrim>(), 7 => missing::<OptArr>(), 8 => missing::<OptNest>(), _ => missing::<Deep>() } }

    fn pack_s() { match choice(16) { 0 => packed_s!(Prim, 4), 1 => packed_s!(Arr, 17), 2 => packed_s!(OptPrim, 30), 3 => packed_s!(OptArr, 43), 4 => packed_s!(Pair, 56), 5 => packed_s!(Empty, 59), 6 => packed_s!(Nest, 61), 7 => packed_s!(OptNest, 66), 8 => packed_s!(Deep, 73), 9 => packed_s!(One8, 76), 10 => packed_s!(OneStr, 78), 11 => packed_s!(OneU8s, 80), 12 => packed_s!(OneStrs, 82), 13 => packed_s!(OnePairs, 84), 14 => packed_s!(Ga::Pair, 87), _ => packed_s!(Ga::Gb::Leaf, 92) } }
    fn pack_e() { match choice(5) { 0 => packed_s!(EPlain, 1), 1 => packed_s!(EPrim, 2), 2 => packed_s!(EArr, 3), 3 => packed_s!(EMix, 60), _ => packed_s!(Ga::Choice, 90) } }
    fn pack_raw() { // any id, signature, sequence and body
        let id: u32 = any(); let sig: u16 = any(); let seq: u32 = any(); let body = bytes(choice(6)); let b = pack_buffer(id, sig, seq, body.clone(), None); check(b.is_ok(), "a body cannot be packed"); let b = b.unwrap();
        check(b.len() == HEAD + body.len() && get(&b, 0, 4) == id as u64 && get(&b, 4, 2) == sig as u64 && get(&b, 6, 4) == seq as u64 && get(&b, 18, 8) == body.len() as u64 && same_bytes(&b[HEAD..], &body), "a packed header differs from the documented layout");
        let h = get_header_from_buffer(&b); check(h.is_ok(), "a packed header is rejected"); let h = h.unwrap(); check(h.id == id && h.signature == sig && h.sequence == seq && h.len == body.len() as u64 && h.len_usize == body.len() && h.ts == get(&b, 10, 8), "a header is read back differently");
        let extra = bytes(choice(4)); let mut long = b.clone(); long.extend_from_slice(&extra); check(has_buffer_header(&long) && has_buffer_body(&long, &h), "a complete package is not recognised");
        let x = get_body_from_buffer(&long, &h, None); check(x.is_ok(), "the body of a complete package is not extracted"); let (x, rest) = x.unwrap(); check(same_bytes(&x, &body) && same_bytes(&rest, &extra), "body and rest are not separated at the declared length");
        if body.len() > 0 { let short = b[..b.len() - 1].to_vec(); check(!has_buffer_body(&short, &h) && get_body_from_buffer(&short, &h, None).is_err(), "an incomplete package is taken for complete") } reach(1) }
    fn head_raw() { // any header bytes
        let b = bytes(choice(HEAD + 4)); let h = get_header_from_buffer(&b); check(has_buffer_header(&b) == (b.len() >= HEAD) && h.is_ok() == (b.len() >= HEAD), "a header is taken from too few bytes or refused");
        if let Ok(h) = h { check(h.id as u64 == get(&b, 0, 4) && h.signature as u64 == get(&b, 4, 2) && h.sequence as u64 == get(&b, 6, 4) && h.ts == get(&b, 10, 8) && h.len == get(&b, 18, 8), "a header field is read from the wrong bytes");
            check(has_buffer_body(&b, &h) == ((b.len() - HEAD) as u64 >= h.len), "completeness of a package is decided wrongly"); let _ = get_body_from_buffer(&b, &h, None); reach(1) } else { reach(2) } }
    fn pack_big() { let v = OneU8s { v: sparse(pick(&[244usize, 245, 256, 300, 65536])) }; let mut e = vec![]; v.body(&mut e); let seq: u32 = any(); let b = v.clone().pack(seq, None).unwrap(); head_ok(&b, 80, seq, &e); let mut r = Buf::new(); check(r.chunk(&b, None).is_ok() && r.pending() == 1 && r.len() == 0, "a long package is not delivered"); reach(1) }
    fn thr_s1() { vary_none(); match choice(8) { 0 => through!(Prim::sym(), 4, AvailableMessages::Prim(w) => w), 1 => through!(Arr::sym(), 17, AvailableMessages::Arr(w) => w), 2 => through!(OptPrim::sym(), 30, AvailableMessages::OptPrim(w) => w), 3 => through!(OptArr::sym(), 43, AvailableMessages::OptArr(w) => w),
        4 => through!(Pair::sym(), 56, AvailableMessages::Pair(w) => w), 5 => through!(Empty::sym(), 59, AvailableMessages::Empty(w) => w), 6 => through!(Nest::sym(), 61, AvailableMessages::Nest(w) => w), _ => through!(OptNest::sym(), 66, AvailableMessages::OptNest(w) => w) } }
    fn thr_s2() { vary_none(); match choice(8) { 0 => through!(Deep::sym(), 73, AvailableMessages::Deep(w) => w), 1 => through!(One8::sym(), 76, AvailableMessages::One8(w) => w), 2 => through!(OneStr::sym(), 78, AvailableMessages::OneStr(w) => w), 3 => through!(OneU8s::sym(), 80, AvailableMessages::OneU8s(w) => w),
        4 => through!(OneStrs::sym(), 82, AvailableMessages::OneStrs(w) => w), 5 => through!(OnePairs::sym(), 84, AvailableMessages::OnePairs(w) => w), 6 => through!(Ga::Pair::sym(), 87, AvailableMessages::Ga(Ga::AvailableMessages::Pair(w)) => w), _ => through!(Ga::Gb::Leaf::sym(), 92, AvailableMessages::Ga(Ga::AvailableMessages::Gb(Ga::Gb::AvailableMessages::Leaf(w))) => w) } }
    fn thr_e() { vary(1); match choice(5) { 0 => through!(EPlain::sym(), 1, AvailableMessages::EPlain(w) => w), 1 => through!(EPrim::sym(), 2, AvailableMessages::EPrim(w) => w), 2 => through!(EArr::sym(), 3, AvailableMessages::EArr(w) => w), 3 => through!(EMix::sym(), 60, AvailableMessages::EMix(w) => w), _ => through!(Ga::Choice::sym(), 90, AvailableMessages::Ga(Ga::AvailableMessages::Choice(w)) => w) } }

    fn str_one() { stream(&[1], 2, true) }
    fn str_two() { stream(&[pick(&[0, 2, 3]), 1], 1, choice(2) == 0) }
    fn str_three() { stream(&[2, pick(&[0, 4]), 3], 1, choice(2) == 0) }
    fn str_four() { stream(&[0, 2, 3, 0], 2, false) }
    fn str_bytewise() { // one byte at a time
        let m = [Msg::new(1), Msg::new(3)]; let s: [u32; 2] = [any(), any()]; let mut all = m[0].pack(s[0]); let e = all.len(); all.extend_from_slice(&m[1].pack(s[1])); let mut r = Buf::new(); let mut got = 0; let sent = vec![(m[0].clone(), s[0]), (m[1].clone(), s[1])];
        for i in 0..all.len() { check(r.chunk(&vec![all[i]], None).is_ok(), "a piece of a well-formed stream is rejected"); deliver(&mut r, &sent, &mut got); check(got == (i + 1 >= e) as usize + (i + 1 == all.len()) as usize, "a complete package is not available as soon as its last byte arrived") } reach(1) }
    fn bad_signature() { bad(0) }
    fn bad_id() { bad(1) }
    fn bad_body() { bad(2) }
    fn bad_short() { bad(3) }
    fn bad_option() { bad(4) }
}
