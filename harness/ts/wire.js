// Entries over the generated TypeScript protocol: P08 (rt_), P09 (lay_, read_, ord_, unk_, mis_), P10 (tot_, field_,
// body_, bad_, hostile_), P11 (str_, thr_). G: verif.prot, F: far.prot (field ids above 255).
const G = require('protocol'), F = require('protocol-far'), M = require('model');
const S = M.parse(require('schema').verif), SF = M.parse(require('schema').far);
const HEAD = 26;
const E = exports;
const isErr = x => x instanceof Error;
/// bytes in one of the forms a user may pass
const form = b => { switch (H.choice(3)) { case 0: return H.ab(b); case 1: return H.u8a(b); default: return H.buf([1, 2, ...b, 3]).slice(2, 2 + b.length); } };
const encode = (g, d, v) => { if (d.kind === 'struct') return H.raw(v.encode()); const e = new (M.cls(g, d))(); const r = e.set(v); H.check(!isErr(r), 'a valid value of an enum is refused'); return H.raw(e.encode()); };
const decode = (g, d, b) => M.cls(g, d).from(b);

// ---------------------------------------------------------------- P08: round trip
const rt1 = (g, d, v) => {
    const b = encode(g, d, v), w = decode(g, d, form(b));
    H.check(!isErr(w), 'an encoded value is rejected by the decoder');
    H.check(M.same(g, d, v, w), 'a decoded value differs from the encoded one');
    // what was decoded can be sent again
    H.check(H.eqBytes(encode(g, d, w), b), 'a decoded value is encoded to other bytes');
    H.reach(1);
};
const rt = (d, slots, g) => { g = g || G; M.vary(slots); const v = M.sym(g, d); M.settled(); rt1(g, d, v); };
E.rt_prim = () => rt(S.Prim, 2); E.rt_arr = () => rt(S.Arr, 16); E.rt_optprim = () => rt(S.OptPrim, 14); E.rt_optarr = () => rt(S.OptArr, 30);
E.rt_nest = () => rt(S.Nest, 10); E.rt_optnest = () => rt(S.OptNest, 20); E.rt_deep = () => rt(S.Deep, 30); E.rt_pair = () => rt(S.Pair, 1);
const SMALL = [['Empty', 1], ['One8', 1], ['OneStr', 1], ['OneU8s', 1], ['OneStrs', 5], ['OnePairs', 5]];
E.rt_small = () => { const [n, k] = H.pick(SMALL); rt(S[n], k); };
E.rt_group = () => { const [n, k] = H.pick([['Ga.Pair', 2], ['Ga.Gb.Leaf', 8], ['Ga.Choice', 3]]); rt(S[n], k); };
E.rt_enums = () => { const [n, k] = H.pick([['EPrim', 3], ['EArr', 5], ['EMix', 3], ['EPlain', 3]]); rt(S[n], k); };
E.rt_far = () => rt(SF.Far, 20, F);
E.rt_far_small = () => { const [n, k] = H.pick([['Near', 1], ['Opt', 3], ['Last', 1]]); rt(SF[n], k, F); };
const BIG = [127, 128, 255, 256, 257, 300, 1000, 4096, 8193, 65535, 65536];
const sparse = n => { const r = []; for (let i = 0; i < n; i++) r.push(i < 2 || i === n - 1 || (i % 256 < 2) && i < 1000 ? null : 97 + i % 26); return r; };
const sparseBytes = n => sparse(n).map(x => x === null ? H.uint(1) : x);
const text = n => { let s = '', run = ''; for (const x of sparse(n)) if (x === null) { s += run + H.str([1]); run = ''; } else run += String.fromCharCode(x); return s + run; };
const bigs = k => { switch (k) { case 0: return [S.OneU8s, new G.OneU8s({ v: sparseBytes(H.pick(BIG)) })]; case 1: return [S.OneStr, new G.OneStr({ v: text(H.pick(BIG)) })];
    case 2: { const n = H.pick([255, 256, 300]), v = ['q', 'q', text(n)]; for (let i = 0; i < n; i++) v.push('w'); return [S.OneStrs, new G.OneStrs({ v })]; }
    default: { const n = H.pick([30, 255, 256]), v = []; for (let i = 0; i < n; i++) v.push(new G.Pair({ key: i % 64 === 0 ? H.uint(2) : i, val: 'w' })); v.push(new G.Pair({ key: 7, val: text(n + 2) })); return [S.OnePairs, new G.OnePairs({ v })]; } } };
E.rt_big = () => { const [d, v] = bigs(H.choice(4)); rt1(G, d, v); };
// a value decoded earlier isn't changed by later traffic, and decoding doesn't change its input
E.rt_alias = () => {
    M.vary_none(); const d = H.pick([S.Prim, S.Nest, S.OptNest, S.Arr]); const v = M.sym(G, d), b = encode(G, d, v), i = H.buf(b), w = decode(G, d, i);
    H.check(H.eqBytes(H.raw(i), b), 'decoding changes its input');
    for (let k = 0; k < b.length; k++) i[k] = 0;
    H.check(!isErr(w) && M.same(G, d, v, w), 'a decoded value changes together with the buffer it was read from'); H.reach(1);
};
// the plain object of a message goes through from() unchanged, and wrong kinds of values are refused
const plain = (d, v) => { const o = {}; for (const f of d.fields) o[f.name] = v[f.name]; return o; };
E.rt_from = () => { M.vary_none(); const d = H.pick([S.Prim, S.Arr, S.OptPrim, S.OptArr, S.Nest, S.OptNest, S.Deep, S['Ga.Gb.Leaf']]), v = M.sym(G, d);
    for (const f of d.fields) { const q = H.choice(1); for (const x of f.arr ? v[f.name] : [v[f.name]]) if (f.type === 'u64') H.assume(x <= 9007199254740991n + BigInt(q)); else if (f.type === 'i64') H.assume(H.and(x <= 9007199254740991n, x >= -9007199254740991n)); else if (f.type[0] === 'f' && !f.ref) H.assume(isFinite(x)); }
    const w = M.cls(G, d).from(plain(d, v)); H.check(!isErr(w), 'a valid object is refused'); H.check(M.same(G, d, v, w), 'a message made from an object differs from it'); H.reach(1); };

// ---------------------------------------------------------------- P09: the documented layout, both directions
const lay = (d, slots, g) => { g = g || G; M.vary(slots); const v = M.sym(g, d); M.settled(); H.check(H.eqBytes(encode(g, d, v), M.lay(d, v)), 'encoded bytes differ from the documented layout'); H.reach(1); };
E.lay_prim = () => lay(S.Prim, 2); E.lay_arr = () => lay(S.Arr, 16); E.lay_optprim = () => lay(S.OptPrim, 14); E.lay_optarr = () => lay(S.OptArr, 30);
E.lay_nest = () => lay(S.Nest, 10); E.lay_optnest = () => lay(S.OptNest, 20); E.lay_deep = () => lay(S.Deep, 30);
E.lay_small = () => { const [n, k] = H.pick([...SMALL, ['Pair', 1]]); lay(S[n], k); };
E.lay_group = () => { const [n, k] = H.pick([['Ga.Pair', 2], ['Ga.Gb.Leaf', 8], ['Ga.Choice', 3]]); lay(S[n], k); };
E.lay_enums = () => { const [n, k] = H.pick([['EPrim', 3], ['EArr', 5], ['EMix', 3], ['EPlain', 3]]); lay(S[n], k); };
E.lay_far = () => { const [n, k] = H.pick([['Far', 20], ['Near', 1], ['Opt', 3], ['Last', 1]]); lay(SF[n], k, F); };
E.lay_big = () => { const [d, v] = bigs(H.choice(4)); H.check(H.eqBytes(encode(G, d, v), M.lay(d, v)), 'encoded bytes differ from the documented layout'); H.reach(1); };
const read1 = (g, d, v, b, what) => { const w = decode(g, d, form(b)); H.check(!isErr(w), what + ' is rejected by the decoder'); H.check(M.same(g, d, v, w), what + ' is decoded as another value'); H.reach(1); };
const read = (d, slots, g) => { g = g || G; M.vary(slots); const v = M.sym(g, d); M.settled(); read1(g, d, v, M.lay(d, v), 'an encoding in the documented layout'); };
E.read_prim = () => read(S.Prim, 2); E.read_arr = () => read(S.Arr, 16); E.read_optprim = () => read(S.OptPrim, 14); E.read_nest = () => read(S.Nest, 10); E.read_leaf = () => read(S['Ga.Gb.Leaf'], 8);
E.read_enums = () => { const [n, k] = H.pick([['EPrim', 3], ['EArr', 5], ['EMix', 3]]); read(S[n], k); };
E.read_far = () => { const [n, k] = H.pick([['Far', 20], ['Near', 1], ['Opt', 3], ['Last', 1]]); read(SF[n], k, F); };
const ranks = (g, d) => { M.vary_none(); const v = M.sym(g, d), r = []; const k = H.choice(d.fields.length), w = H.pick([1, 2, 4, 8]);
    d.fields.forEach((f, i) => { const b = f.opt && v[f.name] === undefined ? [] : M.content(f, v[f.name]); r.push(...M.record(f.id, !f.ref && !f.arr && f.type !== 'str', b, i === k ? w : 0)); }); read1(g, d, v, r, 'a field with another rank of its length'); };
E.read_ranks = () => ranks(G, H.pick([S.Prim, S.Arr, S.OptPrim, S.Nest, S.Pair]));
const perm = n => { const left = []; for (let i = 0; i < n; i++) left.push(i); const r = []; while (left.length) r.push(...left.splice(H.choice(left.length), 1)); return r; };
const order = (g, d, full) => { M.vary_none(); const v = M.sym(g, d), r = M.recs(d, v), n = r.length; let p;
    if (full) p = perm(n); else { const rot = H.choice(n), rev = H.choice(2); p = []; for (let i = 0; i < n; i++) { const j = (i + rot) % n; p.push(rev ? n - 1 - j : j); } }
    read1(g, d, v, [].concat(...p.map(i => r[i])), 'an encoding with its fields in another order'); };
E.ord_small = () => order(G, H.pick([S.Pair, S.Nest, S['Ga.Gb.Leaf'], S['Ga.Pair']]), true);
E.ord_large = () => order(G, H.pick([S.Prim, S.Arr, S.OptPrim, S.OptNest]), false);
E.ord_far = () => order(F, SF.Far, false);
const unknown = (g, d) => { M.vary_none(); const v = M.sym(g, d), r = M.recs(d, v), at = H.choice(r.length + 1), id = H.bytes(2);
    for (const f of d.fields) H.assume(!H.eqBytes(id, [f.id & 255, f.id >> 8]));
    const n = H.choice(4), w = H.pick([1, 2, 4, 8]); const u = [...id, 8 * w, ...M.le(n, w), ...H.bytes(n)]; r.splice(at, 0, u); read1(g, d, v, [].concat(...r), 'an encoding with an unknown field'); };
E.unk_all = () => unknown(G, H.pick([S.Pair, S.Nest, S['Ga.Gb.Leaf'], S.One8, S.OnePairs, S['Ga.Pair'], S.OneStrs, S.Empty]));
E.unk_far = () => unknown(F, H.pick([SF.Near, SF.Last]));
const missing = (g, d) => { M.vary_none(); const v = M.sym(g, d), r = M.recs(d, v); r.splice(H.choice(r.length), 1); const w = decode(g, d, H.ab([].concat(...r))); H.check(isErr(w), 'a message without one of its fields is accepted'); H.reach(1); };
E.mis_all = () => missing(G, H.pick([S.Pair, S.Nest, S['Ga.Gb.Leaf'], S.One8, S.Prim, S.Arr, S.OptPrim, S.OptArr, S.OptNest, S.Deep]));
E.mis_far = () => missing(F, H.pick([SF.Far, SF.Near, SF.Last]));
// a package is header and message as documented
const MSGS = Object.values(S);
const packed = (d, v) => { if (d.kind === 'struct') return v; const e = new (M.cls(G, d))(); e.set(v); return e; };
E.lay_pack = () => { M.vary_none(); const d = H.pick(MSGS), v = M.sym(G, d), seq = H.uint(4), b = H.raw(packed(d, v).pack(seq)), e = M.lay(d, v);
    H.check(b.length === HEAD + e.length, 'size of a package is not header plus body'); H.check(H.eqBytes(b.slice(0, 10), [...M.le(d.id, 4), 0, 0, ...M.le(seq, 4)]), 'the header of a package is not as documented');
    H.check(H.eqBytes(b.slice(18, 26), M.le(e.length, 8)), 'length in the header is wrong'); H.check(H.eqBytes(b.slice(HEAD), e), 'body of a package is not the encoded message'); H.reach(1); };

// ---------------------------------------------------------------- P10: hostile bytes
const safe = f => { try { return f(); } catch (e) { H.check(false, 'a decoder throws instead of returning an error'); } };
const total = (d, n) => { const b = H.bytes(H.choice(n + 1)); const w = safe(() => decode(G, d, form(b))); H.check(w !== undefined && w !== null, 'a decoder returns nothing'); H.reach(isErr(w) ? 2 : 1); };
E.tot_one8 = () => total(S.One8, H.bound(12, 17)); E.tot_pair = () => total(S.Pair, H.bound(12, 15)); E.tot_empty = () => total(S.Empty, H.bound(12, 17)); E.tot_strs = () => total(S.OneStrs, H.bound(10, 12));
E.tot_gpair = () => total(S['Ga.Pair'], H.bound(12, 15)); E.tot_eprim = () => total(S.EPrim, H.bound(6, 9)); E.tot_earr = () => total(S.EArr, H.bound(8, 10)); E.tot_emix = () => total(S.EMix, H.bound(6, 8)); E.tot_eplain = () => total(S.EPlain, 5);
/// one field is hostile in its framing: any rank, any length, then up to n bytes
const field = (d, max) => { M.vary_none(); const v = M.sym(G, d), r = M.recs(d, v), k = H.choice(r.length); let b = [].concat(...r.filter((_, i) => i !== k)); const f = d.fields[k];
    const rank = H.bytes(1), n = H.choice(max + 1), w = H.pick([1, 2, 4, 8]), t = H.bytes(n + w); H.assume(w === 1 ? true : H.eqBytes(rank, [w * 8])); b = b.concat([f.id & 255, f.id >> 8], rank, t);
    const x = safe(() => decode(G, d, H.ab(b))); H.reach(isErr(x) ? 2 : 1); };
E.field_prim = () => field(S.Prim, H.bound(2, 4)); E.field_arr = () => field(S.Arr, H.bound(3, 6)); E.field_optprim = () => field(S.OptPrim, H.bound(2, 4)); E.field_nest = () => field(S.Nest, H.bound(3, 6)); E.field_optnest = () => field(S.OptNest, H.bound(3, 6)); E.field_leaf = () => field(S['Ga.Gb.Leaf'], H.bound(3, 6));
/// one well-framed field with any body
const body = (d, max, texts, smax) => { M.vary_none(); const v = M.sym(G, d), r = M.recs(d, v), k = H.choice(r.length), f = d.fields[k], n = H.choice((texts.includes(f.name) ? smax : max) + 1);
    r[k] = M.record(f.id, r[k][2] === 8, H.bytes(n)); const x = safe(() => decode(G, d, H.ab([].concat(...r)))); H.reach(isErr(x) ? 2 : 1); };
E.body_prim = () => body(S.Prim, H.bound(9, 12), ['fstr'], 3); E.body_arr = () => body(S.Arr, H.bound(9, 17), ['fstr'], H.bound(8, 10)); E.body_optprim = () => body(S.OptPrim, H.bound(9, 12), ['fstr'], 3); E.body_optarr = () => body(S.OptArr, H.bound(9, 17), ['fstr'], H.bound(8, 10));
E.body_nest = () => body(S.Nest, H.bound(6, 9), [], 0); E.body_optnest = () => body(S.OptNest, H.bound(6, 9), ['pr'], 4); E.body_leaf = () => body(S['Ga.Gb.Leaf'], H.bound(8, 11), [], 0);
E.body_pairs = () => { const b = H.bytes(H.choice(H.bound(13, 18) + 1)); const x = safe(() => decode(G, S.OnePairs, H.ab(M.record(S.OnePairs.fields[0].id, false, b)))); H.reach(isErr(x) ? 2 : 1); };

// ---------------------------------------------------------------- packages and streams
const pack = (id, sig, seq, body) => [...M.le(id, 4), ...M.le(sig, 2), ...M.le(seq, 4), ...H.bytes(8), ...M.le(body.length, 8), ...body];
const reader = () => new G.BufferReaderMessages();
const feed = (r, b) => { let e; try { e = r.chunk(form1(b)); } catch (x) { H.check(false, 'the stream reader throws'); } H.check(e === undefined || e instanceof Array && e.length > 0 && e.every(isErr), 'the stream reader returns neither errors nor nothing'); return e === undefined ? 0 : e.length; };
let form1 = b => H.buf(b);
const wrapped = (d, m) => d.path.reduce((o, k) => o === undefined || o === null ? undefined : o[k], m);
const kindOf = k => [S.One8, S.Pair, S.Empty, S.EPrim, S['Ga.Gb.Leaf']][k];
const message = k => { const d = kindOf(k); const v = k === 0 ? new G.One8({ v: H.uint(1) }) : k === 1 ? new G.Pair({ key: H.uint(2), val: H.str([1, 2]) }) : k === 2 ? new G.Empty({}) : k === 3 ? { Ou16: H.uint(2) } : new G.Ga.Gb.Leaf({ p: new G.Ga.Pair({ a: H.uint(1), b: undefined }), names: [], k: { Two: '' } });
    const seq = H.uint(4); return { d, v, seq, b: H.raw(packed(d, v).pack(seq)) }; };
const deliver = (r, sent, got) => { for (;;) { const m = r.next(); if (m === undefined) return got; H.check(got < sent.length, 'more messages are delivered than were sent'); const s = sent[got++];
    H.check(H.same(m.header.sequence, s.seq), 'messages are delivered with another sequence or in another order'); H.check(H.same(m.header.id, s.d.id), 'a message is delivered under another id');
    H.check(Object.keys(m.msg).length === 1 && M.same(G, s.d, s.v, wrapped(s.d, m.msg)), 'a delivered message differs from the one sent'); H.check(m.getRef() === wrapped(s.d, m.msg), 'getRef() gives another message'); } };
/// a malformed package between two good ones; the input is split anywhere
const bad = kind => {
    const a = message(1), z = message(0); let x;
    switch (kind) {
        case 0: { const s = H.uint(2); H.assume(s !== 0); x = pack(76, s, H.uint(4), [77, 0, 8, 1, 5]); break; }
        case 1: { const id = H.uint(4); for (const d of MSGS) H.assume(id !== d.id); x = pack(id, 0, H.uint(4), H.bytes(3)); break; }
        case 2: { const b = H.bytes(5); H.assume(H.not(H.eqBytes(b.slice(0, 2), [77, 0]))); x = pack(76, 0, H.uint(4), b); break; }
        case 3: x = pack(76, 0, H.uint(4), H.bytes(H.choice(4))); break;
        case 4: { const o = H.uint(2); H.assume(o > 11); x = pack(2, 0, H.uint(4), M.le(o, 2)); break; }
        case 5: x = pack(2, 0, H.uint(4), H.bytes(H.choice(2))); break;
        default: { const n = H.choice(4), b = [...M.le(5 + n, 4), ...H.bytes(4 + n)]; x = pack(82, 0, H.uint(4), M.record(83, false, H.bytes(H.pick([1, 2, 3])))); void b; }
    }
    const all = [...a.b, ...x, ...z.b], e2 = a.b.length + x.length, cut = H.choice(all.length + 1), r = reader();
    const n1 = feed(r, all.slice(0, cut)), n2 = feed(r, all.slice(cut));
    H.check(n1 === (cut >= e2 ? 1 : 0), 'a malformed package is not reported as soon as it is complete'); H.check(n1 + n2 === 1, 'a malformed package is not reported exactly once');
    H.check(feed(r, []) === 0, 'the malformed package is reported again');
    H.check(deliver(r, [a, z], 0) === 2, 'a malformed package takes neighbouring messages with it'); H.check(r.len() === 0, 'bytes of the malformed package stay in the reader'); H.reach(1);
};
E.bad_signature = () => bad(0); E.bad_id = () => bad(1); E.bad_body = () => bad(2); E.bad_short = () => bad(3); E.bad_option = () => bad(4); E.bad_enum = () => bad(5); E.bad_strs = () => bad(6);
// any header and a few bytes
E.hostile_reader = () => { const sig = H.choice(2), b = H.bytes(HEAD + H.choice(H.bound(3, 6) + 1)); if (sig === 0) H.assume(H.eqBytes(b.slice(4, 6), [0, 0])); const r = reader(), n = feed(r, b); H.check(r.len() <= b.length, 'the reader invents bytes'); H.reach(n ? 2 : 1); if (r.next() !== undefined) H.reach(3); };

/// feeds the packages of `kinds` in pieces
const stream = (kinds, cuts, drain) => {
    const sent = kinds.map(message); const all = [].concat(...sent.map(s => s.b)); const ends = []; let n = 0; for (const s of sent) ends.push(n += s.b.length);
    const at = []; let from = 0; for (let i = 0; i < cuts; i++) { from += H.choice(all.length + 1 - from); at.push(from); } at.push(all.length);
    const r = reader(); let pos = 0, got = 0;
    for (const c of at) {
        H.check(feed(r, all.slice(pos, c)) === 0, 'a piece of a well-formed stream is rejected'); pos = c;
        const complete = ends.filter(e => e <= c).length; H.check(got + r.pending() === complete, 'a complete package is not available as soon as its last byte arrived');
        H.check(r.len() === c - (complete > 0 ? ends[complete - 1] : 0), 'bytes kept by the reader are not those of the incomplete package');
        if (drain) got = deliver(r, sent, got);
    }
    got = deliver(r, sent, got); H.check(got === sent.length, 'a message of the stream is lost'); H.check(r.len() === 0, 'bytes remain after the last package'); H.reach(1);
};
E.str_one = () => stream([1], H.bound(2, 3), true); E.str_two = () => stream([H.pick([0, 2, 3]), 1], H.bound(1, 2), H.choice(2) === 0); E.str_three = () => stream([2, H.pick([0, 4]), 3], H.bound(1, 2), H.choice(2) === 0); E.str_four = () => stream([0, 2, 3, 0], 2, false);
E.str_bytewise = () => { const k = H.pick([[0, 2], [1, 3], [4]]); stream2(k); };
const stream2 = kinds => { const sent = kinds.map(message), all = [].concat(...sent.map(s => s.b)), r = reader(); let got = 0; for (const x of all) { H.check(feed(r, [x]) === 0, 'a piece of a well-formed stream is rejected'); got = deliver(r, sent, got); } H.check(got === sent.length, 'a message of the stream is lost'); H.check(r.len() === 0, 'bytes remain after the last package'); H.reach(1); };
// pieces given as ArrayBuffer or Uint8Array
E.str_forms = () => { const f = H.choice(2); form1 = b => f ? H.u8a(b) : H.ab(b); try { stream([0, 3], 1, true); } finally { form1 = b => H.buf(b); } };
// the pieces belong to the sender again after they were taken
E.str_reuse = () => { const a = message(1), cut = 1 + H.choice(a.b.length - 1), r = reader(), p = H.buf(a.b.slice(0, cut)); H.check(r.chunk(p) === undefined, 'a piece of a well-formed stream is rejected'); for (let i = 0; i < cut; i++) p[i] = 255; feed(r, a.b.slice(cut)); H.check(deliver(r, [a], 0) === 1, 'a message of the stream is lost'); H.reach(1); };
E.str_all = () => { M.vary_none(); const d = H.pick(MSGS), v = M.sym(G, d), seq = H.uint(4), b = H.raw(packed(d, v).pack(seq)), cut = H.choice(3), at = cut === 0 ? 0 : cut === 1 ? HEAD - 1 : b.length - 1, r = reader();
    feed(r, b.slice(0, at)); H.check(r.pending() === 0, 'a package is delivered before it is complete'); H.check(feed(r, b.slice(at)) === 0, 'a piece of a well-formed stream is rejected'); H.check(deliver(r, [{ d, v, seq }], 0) === 1, 'a message of the stream is lost'); H.check(r.len() === 0, 'bytes remain after the last package'); H.reach(1); };
// two readers don't share their state, and destroy() forgets everything
E.str_separate = () => { const a = message(1), z = message(0), cut = H.choice(a.b.length), r = reader(), q = reader(); feed(r, a.b.slice(0, cut)); feed(q, z.b); feed(r, a.b.slice(cut)); H.check(deliver(r, [a], 0) === 1 && deliver(q, [z], 0) === 1, 'readers of two streams share their state');
    feed(r, a.b); feed(r, a.b.slice(0, cut)); r.destroy(); H.check(r.pending() === 0 && r.len() === 0 && r.next() === undefined, 'a destroyed reader keeps data'); feed(r, z.b); H.check(deliver(r, [z], 0) === 1, 'a message of the stream is lost'); H.reach(1); };
// middlewares see every body with its header, and what they return is sent or decoded
E.thr_middleware = () => {
    const seen = [], refuse = H.choice(2) === 1;
    class X extends G.PackingMiddleware {
        encode(b, id, seq, uuid) { seen.push([id, seq, uuid]); return H.ab([...H.raw(b), 9]); }
        decode(b, id, seq, uuid) { seen.push([id, seq, uuid]); const q = H.raw(b); return refuse ? new Error('refused') : H.ab(q.slice(0, q.length - 1)); }
    }
    try {
        new X(); const d = H.pick([S.OneStr, S.EPrim, S.Pair]), v = d === S.OneStr ? new G.OneStr({ v: H.str([1, 2]) }) : d === S.EPrim ? { Ou16: H.uint(2) } : new G.Pair({ key: H.uint(2), val: H.str([1]) });
        const seq = H.uint(4), b = H.raw(packed(d, v).pack(seq, 'U')), body = M.lay(d, v), r = reader();
        H.check(H.eqBytes(b.slice(HEAD), [...body, 9]), 'a package does not hold what the middleware made'); H.check(H.eqBytes(b.slice(18, 26), M.le(body.length + 1, 8)), 'length in the header is wrong');
        const e = r.chunk(H.buf(b), 'V'); H.check((e === undefined) === !refuse, 'an error of the middleware is lost'); H.check(r.len() === 0, 'bytes remain after the last package');
        H.check(seen.length === 2 && seen[0][0] === d.id && seen[1][0] === d.id && seen[0][2] === 'U' && seen[1][2] === 'V', 'the middleware is called with another message or connection'); H.check(H.same(seen[0][1], seq), 'the middleware is called with another sequence'); H.check(H.same(seen[1][1], seq), 'the middleware is called with another sequence');
        H.check(deliver(r, refuse ? [] : [{ d, v, seq }], 0) === (refuse ? 0 : 1), 'a message of the stream is lost'); H.reach(1);
    } finally { delete global[G.PackingMiddleware.GUID]; }
};
