import os
KIT = open(os.path.join(V, 'tools/seeds/lib/kit.js')).read()
T = 'cli/src/protocol/render/typescript/static/'
TS_DEMO = '''#!/bin/bash
cd "$(dirname "$0")" && exec timeout 120 node --stack-size=4000 demo.js
'''


def tseed(id, prop, needs, breaks, edits, demo):
    seed(id, prop, needs, breaks, edits, {'demo.sh': TS_DEMO, 'kit.js': KIT, 'demo.js': "const K = require('./kit.js'), A = K.assert;\n" + demo})


tseed('T01-u64', 'P08', 'a 64-bit value above 2^53', 'a u64 is decoded through a number, so large values are rounded',
      [(T + 'protocol.primitives.u64.ts', 'return buffer.readBigUInt64LE(0);', 'return BigInt(Number(buffer.readBigUInt64LE(0)));')],
      '''K.run(() => { const P = K.protocol('struct A { u64 v; }'); const v = 0xFEDCBA9876543211n; A.strictEqual(P.A.from(new P.A({ v }).encode()).v, v); });''')

tseed('T02-rank16', 'P09', 'a field whose length another implementation wrote with 16-bit rank', 'the length of a 16-bit rank is read in the wrong byte order',
      [(T + 'protocol.convertor.storage.ts', 'length = buffer.readUInt16LE(position);', 'length = buffer.readUInt16BE(position);')],
      '''K.run(() => { const P = K.protocol('struct A { str s; }'); const v = P.A.from(Buffer.from([2, 0, 16, 2, 0, 0x61, 0x62])); A.ok(!(v instanceof Error)); A.strictEqual(v.s, 'ab'); });''')

tseed('T03-empty-pack', 'P11', 'a message without fields that is the last thing in the buffer', 'a package that consists of its header only is not seen until more bytes arrive',
      [(T + 'packing.header.ts', 'return buffer.byteLength >= MessageHeader.SIZE;', 'return buffer.byteLength > MessageHeader.SIZE;')],
      '''K.run(() => { const P = K.protocol('struct A { } struct B { u8 v; }'); const r = new P.BufferReaderMessages(); r.chunk(Buffer.concat([Buffer.from(new P.B({ v: 1 }).pack(4)), Buffer.from(new P.A({}).pack(5))])); A.strictEqual(r.next().header.sequence, 4); const m = r.next(); A.ok(m); A.strictEqual(m.header.sequence, 5); });''')

tseed('T04-signed', 'P08', 'an array of 16-bit integers with a negative element', 'elements of i16 arrays are read without their sign',
      [(T + 'protocol.primitives.array.i16.ts', 'buffer.readInt16LE(', 'buffer.readUInt16LE(')],
      '''K.run(() => { const P = K.protocol('struct A { i16[] v; }'); A.deepStrictEqual(P.A.from(new P.A({ v: [1, -2] }).encode()).v, [1, -2]); });''')

tseed('T05-body', 'P10', 'a string array whose last element declares more bytes than there are, with a huge length', 'the length of an element is taken for signed, so a hostile length makes the decoder go backwards for ever',
      [(T + 'protocol.primitives.array.string.utf8.ts', 'const len = buffer.readUInt32LE(offset);', 'const len = buffer.readInt32LE(offset);'),
       (T + 'protocol.primitives.array.string.utf8.ts', 'offset += body.byteLength;', 'offset += len;')],
      '''K.run(() => { const P = K.protocol('struct A { str[] v; }'); const w = require('child_process'); const b = [2, 0, 64, 4, 0, 0, 0, 0, 0, 0, 0, 252, 255, 255, 255]; const t = setTimeout(() => 0, 1); const v = require('vm'); const ctx = v.createContext({ P, b, Buffer }); v.runInContext('P.A.from(Buffer.from(b))', ctx, { timeout: 5000 }); });''')
