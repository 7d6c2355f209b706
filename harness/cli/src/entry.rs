use crate::sym::*;
use crate::model::{self, Decl, Kind, What};
use crate::protocol::{Parser, store::Store};

static mut VALID: bool = false;
static mut MODE: u8 = 0;

fn parse(text: &[u8]) -> Result<Store, Vec<String>> {
    std::fs::write("s.prot", text).unwrap();
    Parser::new("s.prot".into()).parse()
}
/// the generator gave up on the schema (it ends the process on some errors)
extern "C" fn gave_up(_early: bool) { rejected() }
fn rejected() { unsafe { if VALID { check(false, "a schema that follows the grammar is rejected") } else { reach(2) } } }

fn same_model(d: &[Decl], s: &Store) {
    let n = |w: What| d.iter().filter(|x| x.what == w).count();
    check(s.groups.len() == n(What::Group), "number of groups");
    check(s.structs.len() == n(What::Struct), "number of structs");
    check(s.enums.len() == n(What::Enum), "number of enums");
    // declarations are matched by name and parent, parents first
    let mut ids: Vec<usize> = vec![];
    for x in d {
        let parent = if x.parent == 0 { 0 } else { ids[x.parent - 1] };
        let id = match x.what {
            What::Group => s.groups.iter().find(|g| g.parent == parent && g.name == x.name).map(|g| g.id),
            What::Struct => s.structs.iter().find(|g| g.parent == parent && g.name == x.name).map(|g| g.id),
            What::Enum => s.enums.iter().find(|g| g.parent == parent && g.name == x.name).map(|g| g.id),
        };
        match id { Some(i) => { check(!ids.contains(&i), "two declarations share an id"); ids.push(i) } None => fail("a declaration is missing from the model or sits in the wrong group") }
    }
    for (k, x) in d.iter().enumerate() {
        match x.what {
            What::Group => {
                let g = s.get_group(ids[k]).unwrap();
                let of = |w: What| -> Vec<usize> { d.iter().enumerate().filter(|(_, y)| y.parent == k + 1 && y.what == w).map(|(j, _)| ids[j]).collect() };
                check(g.structs == of(What::Struct), "structs of a group"); check(g.enums == of(What::Enum), "enums of a group"); check(g.groups == of(What::Group), "groups of a group");
            }
            What::Struct => {
                let t = s.get_struct(ids[k]).unwrap();
                check(t.fields.len() == x.members.len(), "number of fields");
                for (f, m) in t.fields.iter().zip(x.members.iter()) {
                    check(f.name == m.name, "field name or order"); check(f.repeated == m.repeated, "array mark of a field"); check(f.optional == m.optional, "optional mark of a field"); check(f.parent == t.id, "parent of a field");
                    match &m.kind { Kind::Prim(p) => { check(f.kind == *p, "type of a field"); check(f.ref_type_id.is_none(), "a primitive field refers to a declaration") } Kind::Ref(r) => { check(f.ref_type_id == Some(ids[*r]), "declaration a field refers to"); check(f.kind == d[*r].name, "type name of a field") } }
                }
                check(s.get_struct_path(t.id) == path(d, k), "path of a struct");
            }
            What::Enum => {
                let t = s.get_enum(ids[k]).unwrap();
                check(t.variants.len() == x.members.len(), "number of options");
                for (f, m) in t.variants.iter().zip(x.members.iter()) {
                    check(f.name == m.name, "option name or order"); check(f.repeated == m.repeated, "array mark of an option");
                    match &m.kind { Kind::Prim(p) => { let t = f.types.clone().and_then(crate::protocol::types::PrimitiveTypes::get_entity_as_string); check(t.as_deref() == Some(p.as_str()), "type of an option"); check(f.ref_type_id.is_none(), "a primitive option refers to a declaration") } Kind::Ref(r) => { check(f.types.is_none(), "an option has a type it should not have"); check(f.ref_type_id == Some(ids[*r]), "declaration an option refers to") } }
                }
                check(s.get_enum_path(t.id) == path(d, k), "path of an enum");
            }
        }
    }
}
fn path(d: &[Decl], k: usize) -> Vec<String> { let mut v = vec![d[k].name.clone()]; let mut p = d[k].parent; while p != 0 { v.insert(0, d[p - 1].name.clone()); p = d[p - 1].parent; } v }

/// 13: valid texts give exactly their model; 15: invalid texts are rejected; 14: every text gives a model or an error; 12: ids
fn judge(mode: u8, text: &[u8]) {
    let want = if mode == 14 { None } else { model::read(text) };
    if mode == 13 || mode == 12 { assume(want.is_some()) }
    if mode == 15 { assume(want.is_none()) }
    unsafe { VALID = mode == 13 || mode == 12; MODE = mode; }
    on_exit(gave_up);
    let r = parse(text);
    match (mode, r, want) {
        (14, Ok(_), _) => reach(1),
        (_, Err(e), _) => { check(!e.is_empty(), "rejected without a message"); rejected() }
        (15, Ok(_), _) => fail("an ill-formed schema is accepted"),
        (_, Ok(s), Some(d)) => { if mode == 13 { same_model(&d, &s) } else { ids(s, text) } reach(1) }
        (_, Ok(_), None) => fail("unreachable"),
    }
}

/// the two models agree in every id, name (compared without branching), type and mark
fn same(a: &Store, b: &Store) -> bool {
    let s = |x: &str, y: &str| same_bytes(x.as_bytes(), y.as_bytes());
    a.structs.len() == b.structs.len() && a.enums.len() == b.enums.len() && a.groups.len() == b.groups.len()
    && a.groups.iter().zip(b.groups.iter()).all(|(x, y)| x.id == y.id && x.parent == y.parent && s(&x.name, &y.name) && x.structs == y.structs && x.enums == y.enums && x.groups == y.groups)
    && a.structs.iter().zip(b.structs.iter()).all(|(x, y)| x.id == y.id && x.parent == y.parent && s(&x.name, &y.name) && x.fields.len() == y.fields.len()
        && x.fields.iter().zip(y.fields.iter()).all(|(f, g)| f.id == g.id && f.ref_type_id == g.ref_type_id && f.repeated == g.repeated && f.optional == g.optional && s(&f.name, &g.name) && s(&f.kind, &g.kind)))
    && a.enums.iter().zip(b.enums.iter()).all(|(x, y)| x.id == y.id && x.parent == y.parent && s(&x.name, &y.name) && x.variants.len() == y.variants.len()
        && x.variants.iter().zip(y.variants.iter()).all(|(f, g)| f.ref_type_id == g.ref_type_id && f.repeated == g.repeated && s(&f.name, &g.name)))
}

/// P12: all ids of the model differ, also after the service messages are added, and reading the text again gives the same
fn ids(mut s: Store, text: &[u8]) {
    use crate::protocol::{fields::Field, types::PrimitiveTypes::ETypes};
    if text.len() % 2 == 0 { match parse(text) { Ok(t) => { check(same(&t, &s), "reading the same text twice gives different models") } Err(_) => fail("reading the same text twice gives different outcomes") } }
    s.add_service_struct("One".to_string(), vec![Field::create_not_assigned_primitive("a".to_string(), ETypes::Estr, true), Field::create_not_assigned_primitive("b".to_string(), ETypes::Eu8, false)]);
    s.add_service_struct("Two".to_string(), vec![Field::create_not_assigned_primitive("a".to_string(), ETypes::Estr, true)]);
    let mut v: Vec<usize> = vec![];
    for x in s.groups.iter() { v.push(x.id) } for x in s.enums.iter() { v.push(x.id) } for x in s.structs.iter() { v.push(x.id); for f in x.fields.iter() { v.push(f.id) } }
    for i in 0..v.len() { check(v[i] != 0, "an id is 0"); check(v[i] < 65536, "an id does not fit"); for j in 0..i { check(v[i] != v[j], "two message types, fields or groups share an id") } }
}

const T1: &str = "group G { struct A { u8[] a?; } enum B { x; A[] y; } } struct C { G.A c; }";
const T2: &str = "enum E{a;str b;}group G{group H{struct A{E[] a;bool b?;}}struct B{H.A c;}}";

/// the text with `del` bytes at any position replaced by `ins` arbitrary bytes
fn window(t: &str, del: usize, ins: usize) -> Vec<u8> {
    let t = t.as_bytes(); let p = choice(t.len() + 1 - del);
    let mut v = t[..p].to_vec(); v.extend(bytes(ins)); v.extend_from_slice(&t[p + del..]); v
}
fn edits(mode: u8, t: &str) { let (d, i) = [(0, 1), (1, 1), (1, 0), (2, 1), (1, 2), (0, 2), (2, 2), (3, 1)][choice(bound(6, 8))]; judge(mode, &window(t, d, i)) }

/// a one letter name
fn name(v: &mut Vec<u8>) { let c: u8 = any(); assume(((c | 32) >= b'a') & ((c | 32) <= b'z') | (c == b'_')); v.push(c) }
fn name2(v: &mut Vec<u8>) { name(v); if choice(2) == 1 { let c: u8 = any(); assume(((c | 32) >= b'a') & ((c | 32) <= b'z') | (c == b'_') | (c >= b'0') & (c <= b'9')); v.push(c) } }
fn sp(v: &mut Vec<u8>) { let c: u8 = any(); assume((c == b' ') | (c == b'\t') | (c == b'\n') | (c == 12) | (c == b'\r')); v.push(c) }
fn ty(v: &mut Vec<u8>, k: usize) { match k { 0 => v.extend_from_slice(pick(&["u8", "str"]).as_bytes()), 1 => name(v), _ => { name(v); v.push(b'.'); name(v) } } }
fn member(v: &mut Vec<u8>, e: bool, kinds: usize) {
    let k = choice(kinds + e as usize);
    if k == kinds { name(v) } else { ty(v, k); if choice(2) == 1 { v.extend_from_slice(b"[]") } v.push(b' '); name(v); if !e && choice(2) == 1 { v.push(b'?') } }
    v.push(b';');
}
fn decl(v: &mut Vec<u8>, depth: usize, members: usize) {
    let k = choice(if depth == 0 { 2 } else { 3 });
    v.extend_from_slice(["struct ", "enum ", "group "][k].as_bytes()); name(v); v.push(b'{');
    if k == 2 { for _ in 0..choice(3) { decl(v, depth - 1, members) } } else { for _ in 0..choice(members + 1) { member(v, k == 1, 3) } }
    v.push(b'}');
}
const P: [&str; 12] = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str"];
fn shapes(mode: u8, which: usize) {
    let mut v = vec![];
    match which {
        // two declarations at the root, symbolic names: references, clashes
        0 => { decl(&mut v, bound(0, 1), 1); decl(&mut v, 0, 1) }
        // a struct of up to three fields
        1 => { v.extend_from_slice(b"enum a{b;}struct "); name(&mut v); v.push(b'{'); for _ in 0..choice(bound(3, 4)) { member(&mut v, false, 2) } v.push(b'}') }
        // an enum of up to three options
        2 => { v.extend_from_slice(b"struct a{}enum "); name(&mut v); v.push(b'{'); for _ in 0..choice(bound(3, 4)) { member(&mut v, true, 2) } v.push(b'}') }
        // references out of and into nested groups
        3 => { let w = choice(bound(2, 3)); v.extend_from_slice(b"group "); name(&mut v); v.push(b'{'); v.extend_from_slice(b"struct "); name(&mut v); v.extend_from_slice(b"{}group "); name(&mut v); v.extend_from_slice(b"{enum "); name(&mut v); v.push(b'{'); if w != 1 { member(&mut v, true, 3) } v.extend_from_slice(b"}}struct "); name(&mut v); v.push(b'{'); if w != 0 { member(&mut v, false, 3) } v.extend_from_slice(b"}}") }
        // every primitive, every mark
        4 => { let e = choice(2) == 1; v.extend_from_slice(if e { b"enum A{" } else { b"struct A{" }); v.extend_from_slice(pick(&P).as_bytes()); if choice(2) == 1 { v.extend_from_slice(b"[]") } v.push(b' '); name(&mut v); if !e && choice(2) == 1 { v.push(b'?') } v.extend_from_slice(b";}") }
        // names of one and two characters: prefixes of each other, digits
        6 => match choice(4) {
            0 => { v.extend_from_slice(b"struct "); name2(&mut v); v.extend_from_slice(b"{}struct c{"); name2(&mut v); v.extend_from_slice(b" a;}") }
            1 => { v.extend_from_slice(b"struct s{u8 "); name2(&mut v); v.extend_from_slice(b";u8 "); name2(&mut v); v.extend_from_slice(b";}") }
            2 => { v.extend_from_slice(b"enum s{"); name2(&mut v); v.extend_from_slice(b";u8 "); name2(&mut v); v.extend_from_slice(b";}") }
            _ => { v.extend_from_slice(b"group "); name2(&mut v); v.extend_from_slice(b"{group "); name2(&mut v); v.extend_from_slice(b"{group d{struct e{}}struct f{d.e g;}}enum h{"); name2(&mut v); v.extend_from_slice(b".d.e i;}}struct j{"); name2(&mut v); v.extend_from_slice(b".h k?;}") }
        },
        // white space everywhere it is allowed
        _ => { let ts: &[&str] = pick(&[&["struct", "A", "{", "u8", "[", "]", "a", "?", ";", "}"][..], &["enum", "A", "{", "a", ";", "u8", "b", ";", "}", "struct", "B", "{", "A", ".", "c", "}"][..], &["group", "A", "{", "group", "B", "{", "}", "struct", "C", "{", "str", "a", ";", "}", "}"][..]]);
            let k = choice(ts.len() + 1); let m = choice(3);
            for (i, t) in ts.iter().enumerate() { let w = t.as_bytes()[0].is_ascii_alphanumeric() && i > 0 && ts[i - 1].as_bytes()[0].is_ascii_alphanumeric(); if w { v.push(b' ') } if i == k { for _ in 0..m { sp(&mut v) } } v.extend_from_slice(t.as_bytes()) }
            if k == ts.len() { for _ in 0..m { sp(&mut v) } } }
    }
    judge(mode, &v)
}

entries! {
    fn p13_edit1() { edits(13, T1) }
    fn p13_edit2() { edits(13, T2) }
    fn p13_shape0() { shapes(13, 0) }
    fn p13_shape1() { shapes(13, 1) }
    fn p13_shape2() { shapes(13, 2) }
    fn p13_shape3() { shapes(13, 3) }
    fn p13_shape4() { shapes(13, 4) }
    fn p13_shape6() { shapes(13, 6) }
    fn p13_space() { shapes(13, 5) }
    fn p15_edit1() { edits(15, T1) }
    fn p15_edit2() { edits(15, T2) }
    fn p15_shape0() { shapes(15, 0) }
    fn p15_shape1() { shapes(15, 1) }
    fn p15_shape2() { shapes(15, 2) }
    fn p15_shape3() { shapes(15, 3) }
    fn p15_shape6() { shapes(15, 6) }
    fn p15_space() { shapes(15, 5) }
    fn p12_edit1() { edits(12, T1) }
    fn p12_shape0() { shapes(12, 0) }
    fn p12_shape1() { shapes(12, 1) }
    fn p12_shape2() { shapes(12, 2) }
    fn p12_shape6() { shapes(12, 6) }
    fn p12_shape3() { shapes(12, 3) }
    fn p12_edit2() { edits(12, T2) }
    fn p14_free() { let n = choice(bound(5, 6)); let t = bytes(n); judge(14, &t) }
    fn p14_edit1() { edits(14, T1) }
    fn p14_edit2() { edits(14, T2) }
    fn p14_cut() { let t = pick(&[T1, T2]).as_bytes(); let n = choice(t.len() + 1); let mut v = t[..n].to_vec(); v.extend(bytes(choice(bound(3, 4)))); judge(14, &v) }
    fn p16_pair() { crate::files::pair() }
    fn p16_size() { crate::files::size() }
    fn p16_embed() { crate::files::embed() }
    fn p17_outputs() { crate::files::outputs() }
    fn p17_puml() { crate::files::puml() }
    fn p17_prod_rs() { crate::files::project(0) }
    fn p17_prod_ts() { crate::files::project(1) }
    fn p17_cons_rs() { crate::files::project(2) }
    fn p17_cons_ts() { crate::files::project(3) }
    fn p18_one() { crate::wf::one() }
    fn p18_all0() { crate::wf::all(0) }
    fn p18_all1() { crate::wf::all(1) }
    fn p18_all2() { crate::wf::all(2) }
    fn p18_settings() { crate::wf::forms(0) }
    fn p18_request() { crate::wf::forms(1) }
    fn p18_mix() { crate::wf::forms(2) }
    fn p18_space() { crate::wf::space() }
    fn p18_edit1() { crate::wf::edits(0, false, crate::wf::judge) }
    fn p18_edit2() { crate::wf::edits(1, false, crate::wf::judge) }
    fn p18_cut() { crate::wf::cut(crate::wf::judge, 0) }
    fn p19_edit1() { crate::wf::edits(0, true, crate::wf::total) }
    fn p19_edit2() { crate::wf::edits(1, true, crate::wf::total) }
    fn p19_cut() { crate::wf::cut(crate::wf::total, bound(1, 2)) }
    fn p19_free() { crate::wf::free() }
    fn p19_wide() { crate::wf::wide() }
}
