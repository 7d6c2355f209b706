#!/usr/bin/env node
'use strict';
// Replays concrete inputs on the generated code as it is, with the builtins of Node: native.js ENTRY FILE
const fs = require('fs'), path = require('path');
const { load } = require('./load.js');
const lines = fs.readFileSync(process.argv[3], 'utf8').split('\n').filter(x => x).map(l => l.split(' '));
const deep = Number(process.env.SYM_DEEP || 0);
let at = 0, bad = [], reach = [];
class Halt extends Error {}
const end = (how) => { console.log('SYM-END ' + how + ' ' + (bad.length ? 'bad' : 'ok') + ' reach=' + reach.join(',')); process.exit(0); };
const next = k => { if (at >= lines.length) { console.log('inputs are exhausted'); end('exhausted'); } const l = lines[at++]; if (l[0] !== k) { console.log('kind of input'); end('mismatch'); } return l[1]; };
const le = (b, signed) => { let v = 0n; for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]); if (signed && v >> BigInt(b.length * 8 - 1)) v -= 1n << BigInt(b.length * 8); return v; };
const fb = (v, n) => { const b = Buffer.alloc(n); n === 4 ? b.writeFloatLE(v) : b.writeDoubleLE(v); return [...b]; };
const H = {
    sym: false,
    choice(n) { if (n <= 1) { next('c'); return 0; } return Number(next('c')); }, bound: (q, t) => deep ? t : q, pick: x => x[H.choice(x.length)],
    bytes(n) { return n ? [...Buffer.from(next('b'), 'hex')] : []; },
    uint(n) { const v = le(H.bytes(n)); return n === 8 ? v : Number(v); }, sint(n) { const v = le(H.bytes(n), true); return n === 8 ? v : Number(v); },
    flt(n) { const b = Buffer.from(H.bytes(n)); return n === 4 ? b.readFloatLE() : b.readDoubleLE(); },
    bool() { return H.bytes(1)[0] === 1; },
    str(widths) { let r = []; for (const w of widths) r = r.concat(H.bytes(w)); return Buffer.from(r).toString(); },
    assume(x) { if (!x) { console.log('assumption'); end('assume'); } },
    check(x, m) { if (!x) { bad.push(m); console.log('check failed: ' + m); end('check'); } },
    reach(l) { reach.push(l); }, halt() { throw new Halt(); }, steps() {},
    buf: b => { const x = Buffer.alloc(b.length); b.forEach((v, i) => { x[i] = v; }); return x; }, ab: b => Uint8Array.from(b).buffer, u8a: b => Uint8Array.from(b),
    raw: x => [...(x instanceof Uint8Array ? x : new Uint8Array(x))],
    enc(x, n) { if (typeof x === 'string') return [...Buffer.from(x)]; let v = BigInt(x); v = BigInt.asUintN(8 * n, v); const r = []; for (let i = 0; i < n; i++) r.push(Number((v >> BigInt(8 * i)) & 255n)); return r; },
    fenc: fb, eqBytes: (a, b) => a.length === b.length && a.every((v, i) => v === b[i]),
    same: (a, b) => Object.is(a, b), eq: (a, b) => a === b, and: (a, b) => a && b, or: (a, b) => a || b, not: a => !a, isSym: () => false,
};
const loose = new Map(); process.on('unhandledRejection', (e, p) => loose.set(p, e)); process.on('rejectionHandled', p => loose.delete(p));
H.drain = async () => { await new Promise(r => setImmediate(r)); await new Promise(r => setImmediate(r)); const r = [...loose.values()]; loose.clear(); return r; };
(async () => {
    const cfg = JSON.parse(fs.readFileSync(path.join(__dirname, 'cfg.json')));
    const b = { Buffer, Uint8Array, ArrayBuffer, SharedArrayBuffer, DataView, TextEncoder, TextDecoder, Map, Set, Number, BigInt, Math, Object, String, Boolean, Date, Promise, isNaN, isFinite, console: new Proxy({}, { get: () => () => undefined }), ...(cfg.natives ? require(path.join(__dirname, cfg.natives)) : {}) };
    const h = load(path.join(__dirname, 'nat'), cfg, {}, b, H, {});
    try { await h[process.argv[2]](); }
    catch (e) { if (!(e instanceof Halt)) { bad.push('throw'); console.log(e); end('throw'); } }
    end('return');
})();
