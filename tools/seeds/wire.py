R = 'cli/src/protocol/render/rust/static/'
PROT = 'struct A { u16 n; str s; }\nstruct B { u8 v; }\nstruct E0 { }\nstruct L { str[] names; u8[] raw; }\n'
HEAD = '#![allow(warnings)]\nmod proto;\nuse proto::*;\n'

# strings of a string array: length written in characters when the text is short, as the old format did
seed('S01-strlen', 'P01', 'a string array whose elements hold multi-byte characters',
     'the length of an array element counts characters instead of bytes, so the array is cut inside a character',
     [(R + 'protocol.encode.rs', 'buffer.append(&mut (val_as_bytes.len() as u32).to_le_bytes().to_vec());', 'buffer.append(&mut (val.chars().count() as u32).to_le_bytes().to_vec());')],
     {'demo.sh': WIRE_DEMO, 'p.prot': PROT, 'main.rs': HEAD + '''
fn main() {
    let l = L { names: vec!["a".into(), "\\u{e9}t\\u{e9}".into(), "b".into()], raw: vec![1] };
    match L::extract(l.clone().abduct().unwrap()) { Ok(d) => assert!(d == l), Err(e) => panic!("{}", e) }
}
'''})

# a reader that resynchronises by dropping everything it holds when a message cannot be decoded
seed('S02-resync', 'P07', 'a malformed package and a good one arriving in the same piece of the stream',
     'when a package cannot be decoded the reader throws away the bytes behind it, so the following messages are lost',
     [(R + 'protocol.buffer.rs', '''                    Ok(())
                }
            }
            Err(e) => Err(e),
        }
    }

    #[allow(clippy::should_implement_trait)]''', '''                    Ok(())
                }
            }
            Err(e) => {
                // Resync
                self.buffer.clear();
                Err(e)
            }
        }
    }

    #[allow(clippy::should_implement_trait)]''')],
     {'demo.sh': WIRE_DEMO, 'p.prot': PROT, 'main.rs': HEAD + '''
fn main() {
    let mut all = pack_buffer(77777, 0, 1, vec![1, 2, 3], None).unwrap();
    all.extend(B { v: 7 }.pack(2, None).unwrap());
    let mut r = Buffer::<AvailableMessages>::new();
    assert!(r.chunk(&all, None).is_err());
    let _ = r.chunk(&vec![], None);
    match r.next() { Some(m) => assert_eq!(m.header.sequence, 2), None => panic!("message behind the malformed package is lost") }
}
'''})

# element size check of one array type copied from another one
seed('S03-i64check', 'P02', 'an array of 64-bit integers whose body ends in the middle of an element',
     'the size check before reading an element uses the size of a 32-bit value, so a truncated body makes the decoder panic',
     [(R + 'protocol.decode.rs', '''                if len - cursor.position() < sizes::I64_LEN as u64 {
                    return Err(format!("To extract i64 value from array''', '''                if len - cursor.position() < sizes::I32_LEN as u64 {
                    return Err(format!("To extract i64 value from array''')],
     {'demo.sh': WIRE_DEMO, 'p.prot': 'struct A { i64[] v; }\n', 'main.rs': HEAD + '''
fn main() {
    let mut b = vec![2u8, 0, 64, 12, 0, 0, 0, 0, 0, 0, 0];
    b.extend(vec![1u8; 12]);
    assert!(std::panic::catch_unwind(|| A::extract(b)).is_ok(), "decoder panics");
}
'''})

# compact records: symmetric change of the format
seed('S04-compact', 'P03', 'any text or array field that is longer than 255 bytes',
     'records longer than 255 bytes get a 16-bit length although the layout asks for a 64-bit one',
     [(R + 'protocol.encode.rs', '''            ESize::U64(size) => {
                buffer.append(&mut 64_u8''', '''            ESize::U64(size) if size > 255 && size < 65536 => {
                buffer.append(&mut 16_u8.to_le_bytes().to_vec());
                buffer.append(&mut (size as u16).to_le_bytes().to_vec());
            }
            ESize::U64(size) => {
                buffer.append(&mut 64_u8''')],
     {'demo.sh': WIRE_DEMO, 'p.prot': 'struct A { str v; }\n', 'main.rs': HEAD + '''
fn main() {
    let b = A { v: "x".repeat(300) }.abduct().unwrap();
    let mut e = vec![2u8, 0, 64]; e.extend(300u64.to_le_bytes().to_vec()); e.extend(vec![b'x'; 300]);
    assert_eq!(b, e);
}
'''})

# 16-bit ranks are never written by the encoder
seed('S05-rank16', 'P04', 'an unknown field of another protocol version whose length has 16-bit rank',
     'the length of a 16-bit rank is taken for one byte wide, so skipping such a field derails the rest of the message',
     [(R + 'protocol.storage.rs', 'prop_size_len = sizes::U16_LEN;', 'prop_size_len = sizes::U8_LEN;')],
     {'demo.sh': WIRE_DEMO, 'p.prot': PROT, 'main.rs': HEAD + '''
fn main() {
    let v = B { v: 9 };
    let mut b = vec![200u8, 0, 16, 2, 0, 5, 6];
    b.extend(v.clone().abduct().unwrap());
    match B::extract(b) { Ok(d) => assert!(d == v), Err(e) => panic!("{}", e) }
}
'''})

# an incomplete second package is thrown away together with the delivered one
seed('S06-tail', 'P06', 'a piece of the stream that ends inside the header of the next package',
     'after a message was delivered the bytes behind it are kept only if they hold a complete header',
     [(R + 'protocol.buffer.rs', '''                if !self.buffer.is_empty() {
                    self.chunk(&vec![], uuid)''', '''                if !self.buffer.is_empty() {
                    if !has_buffer_header(&self.buffer) {
                        self.buffer.clear();
                    }
                    self.chunk(&vec![], uuid)''')],
     {'demo.sh': WIRE_DEMO, 'p.prot': PROT, 'main.rs': HEAD + '''
fn main() {
    let mut all = B { v: 1 }.pack(1, None).unwrap();
    all.extend(B { v: 2 }.pack(2, None).unwrap());
    let cut = all.len() / 2 + 5;
    let mut r = Buffer::<AvailableMessages>::new();
    r.chunk(&all[..cut].to_vec(), None).unwrap();
    let _ = r.chunk(&all[cut..].to_vec(), None);
    let mut n = 0;
    while let Some(m) = r.next() { n += 1; assert_eq!(m.header.sequence, n); }
    assert_eq!(n, 2);
}
'''})

# sequences use 24 bits on the wire, the rest is reserved
seed('S07-seq', 'P05', 'a sequence number of 2^24 or more',
     'the reader masks the upper byte of the sequence, so late sequence numbers come back changed',
     [(R + 'protocol.packing.rs', 'let sequence: u32 = header.get_u32_le();', 'let sequence: u32 = header.get_u32_le() & 0x00FF_FFFF;')],
     {'demo.sh': WIRE_DEMO, 'p.prot': PROT, 'main.rs': HEAD + '''
fn main() {
    let b = B { v: 1 }.pack(0x0102_0304, None).unwrap();
    let mut r = Buffer::<AvailableMessages>::new();
    r.chunk(&b, None).unwrap();
    assert_eq!(r.next().unwrap().header.sequence, 0x0102_0304);
}
'''})
