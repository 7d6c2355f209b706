C = 'cli/src/'
PRE = '''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D"
CLI=/repo/cli/target/release/clibri
gen() { printf '%s' "$1" > p.prot; rm -f o.rs; timeout 20 $CLI --src p.prot -rs o.rs -o --em > log 2>&1; }
'''


def cseed(id, prop, needs, breaks, edits, demo):
    seed(id, prop, needs, breaks, edits, {'demo.sh': PRE + demo})


cseed('C02-path', 'P15', 'a reference to a type through a group that does not hold it while the top level has a type of that name', 'a path that cannot be resolved falls back to its last part, so a reference to an undefined type is accepted as another type',
      [(C + 'protocol/fields.rs', '''                // Has been found in root group
                path
            } else {''', '''                // Has been found in root group
                path
            } else if let Some(path) =
                store.find_by_path(0, &self.type_path[self.type_path.len() - 1..])
            {
                // Has been found in root group
                path
            } else {''')],
      '''gen 'struct A { u8 v; } group G { struct B { u8 v; } } struct C { G.A f; }'; [ ! -e o.rs ] && gen 'struct A { u8 v; } struct C { A f; }' && [ -s o.rs ]''')

cseed('C03-optarr', 'P13', 'a field that is both an array and optional', 'the mark of an array is dropped when the field is optional',
      [(C + 'protocol/fields.rs', '''        self.optional = true;
''', '''        self.optional = true;
        self.repeated = self.repeated && self.ref_type_id.is_none();
''')],
      '''gen 'struct A { u8 v; } struct B { A[] f?; }'; grep -q 'f: Option<Vec<A>>' o.rs''')

cseed('C04-close', 'P13', 'two groups nested in each other with a type declared behind the inner one', 'after an inner group was closed declarations go to the outermost level',
      [(C + 'protocol/store.rs', '''            if self.path.is_empty() {
                self.c_group = None;''', '''            if self.path.is_empty() || self.path.len() > 1 {
                self.path.clear();
                self.c_group = None;''')],
      '''gen 'group A { group B { group C { struct X { u8 v; } } struct Y { u8 v; } } struct Z { u8 v; } }'; [ -s o.rs ]''')

cseed('C05-blank', 'P16', 'two schemas which differ only in where a blank stands between two names', 'the fingerprint ignores blanks, so schemas with another meaning have the same one',
      [(C + 'helpers/hash.rs', 'context.update(&buffer[..count]);', '''let text: Vec<u8> = buffer[..count]
            .iter()
            .cloned()
            .filter(|b| *b != 0x20)
            .collect();
        context.update(&text);''')],
      '''one() { mkdir -p p/src; echo '{}' > p/package.json; printf '%s' "$1" > p.prot; printf '%s' '&config { SelfKey: A; AssignedKey: A; Producer: typescript; }' > w.workflow; $CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; grep -A2 'PROTOCOL:$' p/src/implementation/index.ts | grep -o '[0-9A-F]\\{64\\}'; rm -rf p; }
a=$(one 'struct A { u8 v; } struct Aa { u8 w; } struct B { A aa; }'); b=$(one 'struct A { u8 v; } struct Aa { u8 w; } struct B { Aa a; }'); [ -n "$a" ] && [ -n "$b" ] && [ "$a" != "$b" ]''')

cseed('C06-keep', 'P17', 'a project generated again after the handler of a beacon was filled in', 'the handler of a beacon is replaced by the empty one if it is shorter than the template',
      [(C + 'workflow/render/producer/typescript/render_beacon_impl.rs', 'if dest.exists() {', 'if dest.exists() && fs::metadata(&dest).map(|m| m.len() > 100).unwrap_or(true) {')],
      '''mkdir -p p/src; echo '{}' > p/package.json; printf 'struct A { u8 v; } struct B { u8 v; }' > p.prot; printf '%s' '&config { SelfKey: A; AssignedKey: A; Producer: typescript; } @beacons { > B; }' > w.workflow
$CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; echo '// mine' > p/src/beacons/b.ts; $CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; [ "$(cat p/src/beacons/b.ts)" = '// mine' ]''')

cseed('C07-optbroad', 'P18', 'an optional broadcast of an answer that names a message the schema does not have', 'optional broadcasts are not looked up in the schema',
      [(C + 'workflow/request.rs', 'if protocol.find_by_str_path(0, &broadcast.reference).is_none() {', 'if !broadcast.optional && protocol.find_by_str_path(0, &broadcast.reference).is_none() {')],
      '''one() { rm -rf p; mkdir -p p/src; echo '{}' > p/package.json; printf 'struct A { u8 v; } struct B { u8 v; } struct C { u8 v; }' > p.prot; printf '%s' "&config { SelfKey: A; AssignedKey: A; Producer: typescript; } B !C { (Ok > A) > $1?; }" > w.workflow; $CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; [ -e p/src/implementation/index.ts ]; }
one C && ! one Nope''')

cseed('C08-caret', 'P19', 'a workflow whose last line is a comment without an end of line, behind white space', 'the parser panics when the text ends in a comment',
      [(C + 'workflow/parser.rs', '''        if str.is_empty() {
            Ok(ENext::End())''', '''        if comment && content.find(chars::CARET).unwrap() > 0 {
            Ok(ENext::End())
        } else if str.is_empty() {
            Ok(ENext::End())''')],
      '''mkdir -p p/src; echo '{}' > p/package.json; printf 'struct A { u8 v; }' > p.prot; printf '%s' '&config { SelfKey: A; AssignedKey: A; Producer: typescript; }#end' > w.workflow; $CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; [ $? != 101 ] && [ -e p/src/implementation/index.ts ]''')

cseed('C09-panic', 'P14', 'a reference that goes through an enum or a struct instead of a group', 'the parser panics on a path through something that is no group',
      [(C + 'protocol/store.rs', '''                results.push((String::from(type_str), group_ref.id));
                parent = group_ref.id;
            } else {
                return None;
            }
        }
        Some(results)''', '''                results.push((String::from(type_str), group_ref.id));
                parent = group_ref.id;
            } else if self.structs.iter().any(|i| i.name == *type_str && i.parent == parent) {
                let holder = self.get_group(parent).unwrap();
                parent = holder.id;
            } else {
                return None;
            }
        }
        Some(results)''')],
      '''gen 'struct A { u8 v; } struct B { A.v f; }'; r=$?; [ $r != 101 ] && ! grep -q panicked log''')

cseed('C10-dot', 'P15', 'a path that ends in a dot or has two dots', 'the part behind the last dot of a path may be missing',
      [(C + 'protocol/parser.rs', '''                            expectation = vec![EExpectation::FieldType];
                            offset''', '''                            expectation = vec![EExpectation::FieldType, EExpectation::PathSpliter];
                            offset''')],
      '''gen 'group G { struct A { u8 v; } } struct B { G..A f; }'; [ ! -e o.rs ] && gen 'group G { struct A { u8 v; } } struct B { G.A f; }' && [ -s o.rs ]''')

cseed('C11-tsid', 'P12', 'a message declared behind a field whose type is given by a path', 'each part of the path of a type takes a number in the model of one field but the field keeps a number another message gets',
      [(C + 'protocol/store.rs', '''            self.sequence += 1;
            Field::new(self.sequence, 0, type_str.to_string())''', '''            self.sequence += 1;
            let id = self.sequence;
            self.sequence -= self.c_struct.as_ref().map_or(0, |s| s.fields.len() / 8);
            Field::new(id, 0, type_str.to_string())''')],
      '''gen 'struct A { u8 a; u8 b; u8 c; u8 d; u8 e; u8 f; u8 g; u8 h; u8 i; u8 j; u8 k; u8 l; }'; grep -o '\\(self.[a-l], [0-9]*\\|Some([0-9]*)\\|get_value::<[a-z0-9]*>([0-9]*\\|[a-l].get_buf_to_store(\\|get_buf_to_store(Some([0-9]*))\\)' o.rs | grep -o '[0-9]\\+' > ids; n=$(sort ids | uniq -c | awk '{print $1}' | sort -u | wc -l); [ -s ids ] && [ "$n" = 1 ]''')

cseed('C12-hashrest', 'P16', 'two schemas of more than 1024 bytes that differ behind the last full kilobyte', 'the last, partly filled block of a long schema does not go into the fingerprint',
      [(C + 'helpers/hash.rs', '''        if count == 0 {
            break;
        }''', '''        if count == 0 || (started && count < buffer.len()) {
            break;
        }
        started = true;'''), (C + 'helpers/hash.rs', 'let mut buffer = [0; 1024];', 'let mut buffer = [0; 1024];\n    let mut started = false;')],
      '''one() { rm -rf p; mkdir -p p/src; echo '{}' > p/package.json; (printf 'struct A { u8 v; }'; head -c 1500 /dev/zero | tr '\\0' ' '; printf '%s' "$1") > p.prot; printf '%s' '&config { SelfKey: A; AssignedKey: A; Producer: typescript; }' > w.workflow; $CLI -s p.prot -wf w.workflow -pd p/src > log 2>&1; grep -A2 'PROTOCOL:$' p/src/implementation/index.ts | grep -o '[0-9A-F]\\{64\\}'; }
a=$(one 'struct B { u8 v; }'); b=$(one 'struct B { u8 w; }'); [ -n "$a" ] && [ "$a" != "$b" ]''')
