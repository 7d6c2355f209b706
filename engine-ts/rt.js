'use strict';
// Symbolic runtime for instrumented JavaScript: values, a model of the byte-level builtins, the Z3 connection and the
// depth-first exploration of all paths by re-execution.
const fs = require('fs'), cp = require('child_process'), os = require('os'), path = require('path');

class Fatal extends Error {}   // an operation the model does not cover: the run is inconclusive
class Halt extends Error {}    // the path ends here
class Hang extends Error {}

const W = 80n, WN = 80;        // numbers are exact integers in this width
const big = BigInt;

// ------------------------------------------------------------------ solver
class Solver {
    constructor() {
        this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'tsym-'));
        cp.execFileSync('mkfifo', [this.dir + '/i', this.dir + '/o']);
        this.i = fs.openSync(this.dir + '/i', 'r+'); this.o = fs.openSync(this.dir + '/o', 'r+');
        this.p = cp.spawn('z3', ['-in', '-smt2'], { stdio: [this.i, this.o, 'ignore'] });
        this.buf = ''; this.chunk = Buffer.alloc(65536);
        this.queries = 0; this.sat = 0; this.unsat = 0; this.unknown = 0; this.time = 0; this.out = [];
        this.put('(set-option :timeout 60000)');
    }
    put(s) { this.out.push(s); if (this.out.length > 400) this.flush(); }
    flush() { if (!this.out.length) return; let b = Buffer.from(this.out.join('\n') + '\n'); this.out = []; for (let k = 0; k < b.length;) k += fs.writeSync(this.i, b, k, Math.min(b.length - k, 32768)); }
    line() { for (;;) { const k = this.buf.indexOf('\n'); if (k >= 0) { const l = this.buf.slice(0, k); this.buf = this.buf.slice(k + 1); return l; } const n = fs.readSync(this.o, this.chunk); this.buf += this.chunk.toString('latin1', 0, n); } }
    /// is the path condition together with `e` satisfiable; `then` runs while the assertion is in force
    check(e, then) {
        const t = process.hrtime.bigint();
        this.put('(push 1)'); if (e) this.put('(assert ' + e + ')'); this.put('(check-sat)'); this.flush();
        const r = this.line(); this.queries++;
        if (r === 'sat') this.sat++; else if (r === 'unsat') this.unsat++; else { this.unknown++; fatal('solver: ' + r); }
        if (r === 'sat' && then) then();
        this.put('(pop 1)'); this.flush();
        this.time += Number(process.hrtime.bigint() - t) / 1e9;
        return r === 'sat';
    }
    values(names) {
        if (!names.length) return [];
        this.put('(get-value (' + names.join(' ') + '))'); this.flush();
        let s = '', d = 0; do { const l = this.line(); s += l + ' '; for (const c of l) { if (c === '(') d++; if (c === ')') d--; } } while (d > 0);
        const m = [...s.matchAll(/#x([0-9a-f]+)|#b([01]+)/g)].map(x => x[1] !== undefined ? big('0x' + x[1]) : big('0b' + x[2]));
        if (m.length !== names.length) fatal('solver model: ' + s);
        return m;
    }
    close() { try { this.p.kill('SIGKILL'); fs.closeSync(this.i); fs.closeSync(this.o); fs.rmSync(this.dir, { recursive: true, force: true }); } catch (e) {} }
}

// ------------------------------------------------------------------ state of one path
let S0 = null;      // exploration
let st = null;      // current path
function alive() { if (st.dead) throw st.dead; if (++st.steps > S0.maxSteps) hang(); }
function die(e) { st.dead = e; throw e; }
function fatal(m) { die(new Fatal(m)); }
function hang() { violation('hang', 'the code does not terminate', null); die(new Halt()); }
function halt() { die(new Halt()); }

const hexv = (v, w) => { v = ((v % (1n << big(w))) + (1n << big(w))) % (1n << big(w)); return w % 4 === 0 ? '#x' + v.toString(16).padStart(w / 4, '0') : '(_ bv' + v + ' ' + w + ')'; };
function name(e, sort) {  // shares large terms
    if (e.length < 90) return e;
    const n = 't' + st.terms++; S0.solver.put('(define-fun ' + n + ' () ' + sort + ' ' + e + ')'); return n;
}
const NUM = '(_ BitVec ' + WN + ')';

/// a symbolic value: k = num | big | bool | flt | str
class Sym {
    constructor(k, e) { this.$k = k; this.$e = e; }
    toString() { st.opaque++; return '\u0001sym'; }
    [Symbol.toPrimitive](h) { if (h === 'string') { st.opaque++; return '\u0001sym'; } fatal('a symbolic value is used by native code'); }
    toJSON() { return '\u0001sym'; }
    get length() { if (this.$k === 'str') { if (this.$units !== undefined) return this.$units; fatal('length of a symbolic string'); } return undefined; }
}
Object.setPrototypeOf(Sym.prototype, new Proxy(Object.prototype, { get(t, p, r) { if (typeof p === 'symbol' || p in t || p === 'then' || p === '$bytes' || p === '$units' || p === '$lo' || p === 'byteLength') return Reflect.get(t, p, r); if (r.$k === 'num' || r.$k === 'big' || r.$k === 'bool') { if (p === 'isPrimary' || p === 'encode' || p === 'decode') return undefined; } fatal('property ' + String(p) + ' of a symbolic ' + r.$k); } }));
const isS = x => x instanceof Sym;
function num(k, e, lo, hi, bytes) { const s = new Sym(k, e); s.$lo = lo; s.$hi = hi; s.$bytes = bytes; return s; }
function bool(e) { return e === 'true' ? true : e === 'false' ? false : new Sym('bool', name(e, 'Bool')); }
const flip = b => typeof b === 'boolean' ? !b : bool('(not ' + b.$e + ')');
const be = b => typeof b === 'boolean' ? String(b) : b.$e;
const and = (a, b) => a === false || b === false ? false : a === true ? b : b === true ? a : bool('(and ' + a.$e + ' ' + b.$e + ')');
const or = (a, b) => a === true || b === true ? true : a === false ? b : b === false ? a : bool('(or ' + a.$e + ' ' + b.$e + ')');
const byteE = b => typeof b === 'number' ? '#x' + b.toString(16).padStart(2, '0') : b;
const byteEq = (a, b) => typeof a === 'number' && typeof b === 'number' ? a === b : a === b ? true : bool('(= ' + byteE(a) + ' ' + byteE(b) + ')');
const bytesEq = (a, b) => { if (a.length !== b.length) return false; const r = []; for (let i = 0; i < a.length; i++) { const q = byteEq(a[i], b[i]); if (q === false) return false; if (q !== true) r.push(q.$e); } return !r.length ? true : r.length === 1 ? bool(r[0]) : bool('(and ' + r.join(' ') + ')'); };
/// integer view of a number-like value: {e, lo, hi}
function int(x) {
    if (isS(x)) { if (x.$k === 'num' || x.$k === 'big') return { e: x.$e, lo: x.$lo, hi: x.$hi }; if (x.$k === 'bool') return { e: '(ite ' + x.$e + ' ' + hexv(1n, WN) + ' ' + hexv(0n, WN) + ')', lo: 0n, hi: 1n }; return null; }
    if (typeof x === 'bigint') return { e: hexv(x, WN), lo: x, hi: x };
    if (typeof x === 'boolean') x = x ? 1 : 0;
    if (typeof x === 'number') { if (Number.isInteger(x)) return { e: hexv(big(x), WN), lo: big(x), hi: big(x) }; if (x === Infinity || x === -Infinity) return { inf: x > 0, lo: x > 0 ? 1n << 79n : -(1n << 79n), hi: x > 0 ? 1n << 79n : -(1n << 79n), e: hexv(x > 0 ? (1n << 78n) : -(1n << 78n), WN) }; return { nan: !(x === x), frac: x }; }
    return null;
}
function fromBytes(bytes, signed, k) {
    if (bytes.every(b => typeof b === 'number')) { let v = 0n; for (let i = bytes.length - 1; i >= 0; i--) v = (v << 8n) | big(bytes[i]); if (signed && v >> big(bytes.length * 8 - 1)) v -= 1n << big(bytes.length * 8); return k === 'big' ? v : Number(v); }
    const w = bytes.length * 8; const c = bytes.length === 1 ? byteE(bytes[0]) : '(concat ' + [...bytes].reverse().map(byteE).join(' ') + ')';
    const e = name('((_ ' + (signed ? 'sign' : 'zero') + '_extend ' + (WN - w) + ') ' + c + ')', NUM);
    return num(k, e, signed ? -(1n << big(w - 1)) : 0n, (1n << big(w - (signed ? 1 : 0))) - 1n, bytes);
}
function toBytes(x, n) {
    if (!isS(x)) { let v = big(x); v = ((v % (1n << big(8 * n))) + (1n << big(8 * n))) % (1n << big(8 * n)); const r = []; for (let i = 0; i < n; i++) r.push(Number((v >> big(8 * i)) & 255n)); return r; }
    if (x.$bytes && x.$bytes.length === n) return [...x.$bytes];
    const r = []; const e = int(x).e; for (let i = 0; i < n; i++) { const hi = 8 * i + 7; r.push(x.$bytes && x.$lo === 0n && x.$bytes.length < n ? (i < x.$bytes.length ? x.$bytes[i] : 0) : '((_ extract ' + hi + ' ' + 8 * i + ') ' + e + ')'); }
    return r;
}

// ------------------------------------------------------------------ decisions
/// truth of a condition on this path; splits the path when both are possible
function branch(c) {
    alive();
    if (!isS(c)) return !!c;
    if (c.$k !== 'bool') return branch(truthy(c));
    const e = c.$e;
    if (st.known.has(e)) return st.known.get(e);
    let v;
    if (st.at < st.prefix.length) { const d = st.prefix[st.at]; if (d.t !== 'b') fatal('the execution is not deterministic'); v = d.v; }
    else {
        const yes = S0.solver.check(e), no = yes ? S0.solver.check('(not ' + e + ')') : true;
        if (!yes && !S0.solver.check('(not ' + e + ')')) fatal('infeasible path');
        v = yes;
        if (yes && no) { S0.stack.push([...st.dec, { t: 'b', v: false, a: true }]); st.forks++; }
        st.dec.push({ t: 'b', v, a: yes && no }); st.at++;
        if (yes && no) S0.solver.put('(assert ' + e + ')');
        st.known.set(e, v); return v;
    }
    st.dec.push(st.prefix[st.at]); if (st.prefix[st.at].a) S0.solver.put('(assert ' + (v ? e : '(not ' + e + ')') + ')'); st.at++;
    st.known.set(e, v); return v;
}
function choice(n) {
    alive(); if (n <= 0) fatal('empty choice');
    let v = 0;
    if (n > 1) {
        if (st.at < st.prefix.length) v = st.prefix[st.at].v;
        else for (let k = n - 1; k > 0; k--) { S0.stack.push([...st.dec, { t: 'c', v: k }]); st.forks++; }
        st.dec.push({ t: 'c', v }); st.at++;
    }
    st.inputs.push({ c: v }); return v;
}
/// the value of a symbolic integer on this path; splits the path for every possible value
function conc(x) {
    if (!isS(x)) return x;
    alive();
    if (x.$k === 'bool') return branch(x);
    if (x.$k === 'str') { if (x.$bytes && x.$bytes.every(b => typeof b === 'number')) return Buffer.from(x.$bytes).toString(); fatal('a symbolic string decides the control flow'); }
    if (x.$k !== 'num' && x.$k !== 'big') fatal('a symbolic ' + x.$k + ' decides the control flow');
    let e = x.$e; if (!/^[a-z]\d+$/.test(e)) { const n = 't' + st.terms++; S0.solver.put('(define-fun ' + n + ' () ' + NUM + ' ' + e + ')'); e = x.$e = n; }
    if (st.known.has('#' + e)) { const v = st.known.get('#' + e); return x.$k === 'big' ? v : Number(v); }
    let v, ex = [];
    const d = st.at < st.prefix.length ? st.prefix[st.at] : null;
    if (d && d.t === 'v') { v = d.v; st.dec.push(d); st.at++; }
    else {
        if (d) { if (d.t !== 'x') fatal('the execution is not deterministic'); ex = d.ex; st.at++; }
        const not = ex.map(y => '(not (= ' + e + ' ' + hexv(y, WN) + '))'); for (const y of not) S0.solver.put('(assert ' + y + ')');
        if (!S0.solver.check(null, () => { v = S0.solver.values([e])[0]; })) fatal('infeasible path');
        if (v >> 79n) v -= 1n << 80n;
        if (S0.solver.check('(not (= ' + e + ' ' + hexv(v, WN) + '))')) { if (ex.length > 600) fatal('too many values for ' + e); S0.stack.push([...st.dec, { t: 'x', ex: [...ex, v] }]); st.forks++; }
        st.dec.push({ t: 'v', v });
    }
    S0.solver.put('(assert (= ' + e + ' ' + hexv(v, WN) + '))');
    st.known.set('#' + e, v); return x.$k === 'big' ? v : Number(v);
}
function truthy(x) {
    if (x.$k === 'bool') return x;
    if (x.$k === 'num' || x.$k === 'big') return flip(cmp('=', x, 0));
    if (x.$k === 'str') { if (x.$bytes) return x.$bytes.length > 0; fatal('truth of an opaque text'); }
    if (x.$k === 'flt') fatal('truth of a symbolic float');
}

// ------------------------------------------------------------------ operators
function cmp(op, a, b) {  // = < <=
    const x = int(a), y = int(b);
    if (!x || !y) fatal('comparison of ' + typ(a) + ' and ' + typ(b));
    if (x.nan || y.nan) return false;
    if (x.frac !== undefined || y.frac !== undefined) fatal('comparison with a fraction');
    if (op === '=') { if (x.lo === x.hi && y.lo === y.hi) return x.lo === y.lo; if (x.hi < y.lo || y.hi < x.lo) return false; if (x.e === y.e) return true; return bool('(= ' + x.e + ' ' + y.e + ')'); }
    if (op === '<') { if (x.hi < y.lo) return true; if (x.lo >= y.hi) return false; return bool('(bvslt ' + x.e + ' ' + y.e + ')'); }
    if (x.hi <= y.lo) return true; if (x.lo > y.hi) return false; return bool('(bvsle ' + x.e + ' ' + y.e + ')');
}
const typ = x => isS(x) ? ({ num: 'number', flt: 'number', big: 'bigint', bool: 'boolean', str: 'string' })[x.$k] : typeof x;
function utf8(s) { return [...Buffer.from(s)]; }
function seq(a, b) {  // strict equality
    if (!isS(a) && !isS(b)) return a === b;
    if (typ(a) !== typ(b)) return false;
    const t = typ(a);
    if (t === 'string') { const x = isS(a) ? a.$bytes : utf8(a), y = isS(b) ? b.$bytes : utf8(b); if (!x || !y) fatal('an opaque text is compared'); return bytesEq(x, y); }
    if (t === 'boolean') { const x = be(a), y = be(b); return x === y ? true : bool('(= ' + x + ' ' + y + ')'); }
    if ((isS(a) && a.$k === 'flt') || (isS(b) && b.$k === 'flt')) { const f = isS(a) && a.$k === 'flt' ? a : b, o = f === a ? b : a; if (isS(o) && o.$k !== 'flt') fatal('float and integer compared'); const y = isS(o) ? o.$bytes : fbytes(o, f.$bytes.length); if (y.length !== f.$bytes.length) fatal('floats of two sizes compared'); return bytesEq(f.$bytes, y); }
    return cmp('=', a, b);
}
function fbytes(v, n) { const b = Buffer.alloc(n); n === 4 ? b.writeFloatLE(v) : b.writeDoubleLE(v); return [...b]; }
function arith(op, a, b) {
    const x = int(a), y = int(b); const k = typ(a) === 'bigint' || typ(b) === 'bigint' ? 'big' : 'num';
    if (!x || !y) fatal(op + ' of ' + typ(a) + ' and ' + typ(b));
    if (k === 'big' && typ(a) !== typ(b)) throw new TypeError('Cannot mix BigInt and other types, use explicit conversions');
    if (x.frac !== undefined || y.frac !== undefined || x.inf !== undefined || y.inf !== undefined) fatal(op + ' with a fraction');
    let e, lo, hi;
    const wide = () => { if (lo < -(1n << 78n) || hi > (1n << 78n)) fatal('number too large'); };
    switch (op) {
        case '+': lo = x.lo + y.lo; hi = x.hi + y.hi; e = '(bvadd ' + x.e + ' ' + y.e + ')'; break;
        case '-': lo = x.lo - y.hi; hi = x.hi - y.lo; e = '(bvsub ' + x.e + ' ' + y.e + ')'; break;
        case '*': { const c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]; lo = c.reduce((p, q) => p < q ? p : q); hi = c.reduce((p, q) => p > q ? p : q); e = '(bvmul ' + x.e + ' ' + y.e + ')'; break; }
        case '%': if (y.lo <= 0n || x.lo < 0n) fatal('% of negative numbers'); lo = 0n; hi = y.hi - 1n; e = '(bvurem ' + x.e + ' ' + y.e + ')'; break;
        case '/': if (k === 'big') { if (y.lo <= 0n || x.lo < 0n) fatal('/ of negative numbers'); lo = 0n; hi = x.hi; e = '(bvudiv ' + x.e + ' ' + y.e + ')'; break; }
            if (y.lo !== y.hi || y.lo <= 0n || x.lo < 0n) fatal('division'); if (branch(flip(cmp('=', num('num', '(bvurem ' + x.e + ' ' + y.e + ')', 0n, y.hi), 0)))) fatal('fraction'); lo = 0n; hi = x.hi; e = '(bvudiv ' + x.e + ' ' + y.e + ')'; break;
        default: {
            if (k === 'big') { if (x.lo < 0n || y.lo < 0n) fatal('bit operation on a negative bigint'); lo = 0n; hi = (1n << 78n); const f = { '&': 'bvand', '|': 'bvor', '^': 'bvxor', '<<': 'bvshl', '>>': 'bvlshr' }[op]; if (!f || op === '<<' && (y.lo !== y.hi || (x.hi << y.lo) > hi)) fatal(op); if (op !== '<<') hi = op === '&' ? (x.hi < y.hi ? x.hi : y.hi) : op === '>>' ? x.hi : (1n << big((x.hi | y.hi).toString(2).length)) - 1n; else hi = x.hi << y.lo; e = '(' + f + ' ' + x.e + ' ' + y.e + ')'; break; }
            const l = '((_ extract 31 0) ' + x.e + ')', r = '((_ extract 31 0) ' + y.e + ')', s = '(bvand ' + r + ' #x0000001f)';
            const f = { '&': ['bvand', r, 1], '|': ['bvor', r, 1], '^': ['bvxor', r, 1], '<<': ['bvshl', s, 1], '>>': ['bvashr', s, 1], '>>>': ['bvlshr', s, 0] }[op]; if (!f) fatal('operator ' + op);
            e = '((_ ' + (f[2] ? 'sign' : 'zero') + '_extend ' + (WN - 32) + ') (' + f[0] + ' ' + l + ' ' + f[1] + '))'; lo = f[2] ? -(1n << 31n) : 0n; hi = f[2] ? (1n << 31n) - 1n : (1n << 32n) - 1n;
            if (op === '&' && x.lo >= 0n && y.lo >= 0n && (x.hi < (1n << 31n) || y.hi < (1n << 31n))) { lo = 0n; hi = x.hi < y.hi ? x.hi : y.hi; }
            if (op === '>>>' && y.lo === y.hi) hi >>= y.lo & 31n;
            if (op === '>>>' && x.lo >= 0n && x.hi < hi) hi = x.hi;
        }
    }
    wide(); return num(k, name(e, NUM), lo, hi);
}
function bin(op, a, b) {
    alive();
    if (!isS(a) && !isS(b)) switch (op) {
        case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b;
        case '<': return a < b; case '>': return a > b; case '<=': return a <= b; case '>=': return a >= b;
        case '==': return a == b; case '!=': return a != b; case '===': return a === b; case '!==': return a !== b;
        case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<<': return a << b; case '>>': return a >> b; case '>>>': return a >>> b;
    }
    switch (op) {
        case '===': return seq(a, b); case '!==': return flip(seq(a, b));
        case '==': case '!=': { let r; if (a === null || a === undefined || b === null || b === undefined) r = false; else if (typ(a) === typ(b)) r = seq(a, b); else if (typ(a) === 'string' || typ(b) === 'string' || typ(a) === 'object' || typ(b) === 'object') fatal('loose comparison'); else r = cmp('=', a, b); return op === '==' ? r : flip(r); }
        case '<': return cmp('<', a, b); case '>': return cmp('<', b, a); case '<=': return cmp('<=', a, b); case '>=': return cmp('<=', b, a);
        case '+': if (typ(a) === 'string' || typ(b) === 'string') { const x = strb(a), y = strb(b); return str(x && y ? [...x, ...y] : null); } return arith('+', a, b);
        default: return arith(op, a, b);
    }
}
const strb = x => isS(x) ? (x.$k === 'str' ? x.$bytes : null) : utf8(String(x));
function str(bytes, units) { if (bytes && bytes.every(b => typeof b === 'number')) return Buffer.from(bytes).toString(); const s = new Sym('str', ''); s.$bytes = bytes; if (units !== undefined) s.$units = units; return s; }
function typeOf(x) { return typ(x); }
function tv(x) { alive(); if (!isS(x)) return x; const t = branch(truthy(x)); return x.$k === 'bool' ? t : t ? x : x.$k === 'big' ? 0n : x.$k === 'str' ? '' : 0; }
function c(x) { alive(); return isS(x) ? branch(truthy(x)) : !!x; }
function sw(x, labels) { alive(); if (!isS(x)) return x; for (const l of labels) if (branch(seq(x, l))) return l; return NONE; }
const NONE = { none: 1 };
function neg(x) { if (!isS(x)) return -x; return x.$k === 'big' ? arith('-', 0n, x) : arith('-', 0, x); }
function plus(x) { return isS(x) ? (x.$k === 'num' || x.$k === 'flt' ? x : x.$k === 'bool' ? num('num', int(x).e, 0n, 1n) : fatal('unary +')) : +x; }
function inc(x, d) { return typ(x) === 'bigint' ? bin('+', x, big(d)) : bin('+', x, d); }
function fst(a) { return a; }
function fn(n) { S0.functions.add(n); alive(); }
function ix(i) { return isS(i) ? conc(i) : i; }

// ------------------------------------------------------------------ byte-level builtins
const RE = (m) => { const e = new RangeError(m); e.code = 'ERR_OUT_OF_RANGE'; return e; };
class MArrayBuffer {
    constructor(n) { this.$d = Array.isArray(n) ? n : new Array(conc(n) || 0).fill(0); }
    get byteLength() { return this.$d.length; }
    slice(a, b) { const [x, y] = clampRange(a, b, this.$d.length); return new MArrayBuffer(this.$d.slice(x, y)); }
    static isView(x) { return x instanceof MUint8Array || x instanceof MDataView; }
    get [Symbol.toStringTag]() { return 'ArrayBuffer'; }
}
function clampIdx(x, len, def) {
    if (x === undefined) return def;
    if (isS(x)) { if (x.$k === 'bool' || x.$k === 'str' || x.$k === 'flt') fatal('slice'); if (branch(cmp('<', x, 0))) { x = bin('+', x, len); if (branch(cmp('<', x, 0))) return 0; return conc(x); } if (branch(cmp('<=', len, x))) return len; return conc(x); }
    x = Math.trunc(Number(x)) || 0; return x < 0 ? Math.max(0, len + x) : Math.min(x, len);
}
function clampRange(a, b, len) { const x = clampIdx(a, len, 0), y = clampIdx(b, len, len); return [x, Math.max(x, y)]; }
const IDX = /^(0|[1-9]\d*)$/;
const handler = {
    get(t, p, r) { if (typeof p === 'string' && IDX.test(p)) { const i = Number(p); return i < t.$len ? fromBytes([t.$buf.$d[t.$off + i]], false, 'num') : undefined; } if (p in t || typeof p === 'symbol' || p === 'then' || p === 'toJSON' || p === 'constructor' || p === '$sym') return Reflect.get(t, p, r); return missing('Buffer', p); },
    set(t, p, v) { if (typeof p === 'string' && IDX.test(p)) { const i = Number(p); if (i < t.$len) t.$buf.$d[t.$off + i] = toBytes(isS(v) ? v : Math.trunc(Number(v)) || 0, 1)[0]; return true; } t[p] = v; return true; },
    has(t, p) { return typeof p === 'string' && IDX.test(p) ? Number(p) < t.$len : p in t; },
};
const ABSENT = new Set(['on', 'message', 'stack', 'get', 'set', 'encode', 'decode', 'validate', 'getSignature', 'isBuffer', '_isBuffer', 'nodeType', 'size', 'uuid', 'code', 'name']);
function missing(o, p) { if (ABSENT.has(p)) return undefined; return fatal(o + '.' + String(p) + ' is not modelled'); }
class MUint8Array {
    constructor(x, off, len) {
        if (x instanceof MArrayBuffer) { this.$buf = x; this.$off = conc(off) || 0; this.$len = len === undefined ? x.$d.length - this.$off : conc(len); if (this.$off + this.$len > x.$d.length || this.$off > x.$d.length) throw new RangeError('Invalid typed array length'); }
        else { let d; if (x === undefined) d = []; else if (typeof x === 'number' || isS(x)) { const n = conc(x); if (!(n >= 0 && n < 1 << 24)) throw new RangeError('Invalid typed array length: ' + n); d = new Array(n).fill(0); } else if (x instanceof MUint8Array) d = raw(x); else d = Array.from(x, v => toBytes(isS(v) ? v : Math.trunc(Number(v)) || 0, 1)[0]); this.$buf = new MArrayBuffer(d); this.$off = 0; this.$len = d.length; }
        return new Proxy(this, handler);
    }
    get length() { return this.$len; } get byteLength() { return this.$len; } get byteOffset() { return this.$off; } get buffer() { return this.$buf; } get BYTES_PER_ELEMENT() { return 1; }
    set(src, off = 0) { off = conc(off); const d = src instanceof MUint8Array ? raw(src) : src instanceof MArrayBuffer ? [] : Array.from(src, v => toBytes(v, 1)[0]); if (off < 0 || off + d.length > this.$len) throw new RangeError('offset is out of bounds'); for (let i = 0; i < d.length; i++) this.$buf.$d[this.$off + off + i] = d[i]; }
    subarray(a, b) { const [x, y] = clampRange(a, b, this.$len); return new this.constructor(this.$buf, this.$off + x, y - x); }
    slice(a, b) { const [x, y] = clampRange(a, b, this.$len); return new MUint8Array(new MArrayBuffer(raw(this).slice(x, y))); }
    fill(v, a, b) { const [x, y] = clampRange(a, b, this.$len); const q = toBytes(v || 0, 1)[0]; for (let i = x; i < y; i++) this.$buf.$d[this.$off + i] = q; return this; }
    *[Symbol.iterator]() { for (let i = 0; i < this.$len; i++) yield this[i]; }
    *values() { yield* this[Symbol.iterator](); } *keys() { for (let i = 0; i < this.$len; i++) yield i; } *entries() { for (let i = 0; i < this.$len; i++) yield [i, this[i]]; }
    at(i) { i = conc(i); return this[i < 0 ? i + this.$len : i]; }
    forEach(f) { for (let i = 0; i < this.$len; i++) f(this[i], i, this); }
    map(f) { return new MUint8Array(Array.from(this, f)); }
    reduce(f, ...a) { return Array.from(this).reduce(f, ...a); }
    every(f) { return Array.from(this).every((v, i) => c(f(v, i))); } some(f) { return Array.from(this).some((v, i) => c(f(v, i))); }
    copyWithin(t, a, b) { const [x, y] = clampRange(a, b, this.$len); const d = raw(this).slice(x, y); const z = clampIdx(t, this.$len, 0); for (let i = 0; i < d.length && z + i < this.$len; i++) this.$buf.$d[this.$off + z + i] = d[i]; return this; }
    static from(x) { return new MUint8Array(x); } static of(...x) { return new MUint8Array(x); }
}
const raw = b => b.$buf.$d.slice(b.$off, b.$off + b.$len);
let pool = null, poolAt = 0;
function pooled(d) {  // small buffers share one allocation, as in Node
    if (d.length >= 4096) return new MBuffer(new MArrayBuffer(d), 0, d.length);
    if (!pool || poolAt + d.length > 8192) { pool = new MArrayBuffer(8192); poolAt = 0; }
    for (let i = 0; i < d.length; i++) pool.$d[poolAt + i] = d[i];
    const b = new MBuffer(pool, poolAt, d.length); poolAt = (poolAt + d.length + 7) & ~7; return b;
}
class MBuffer extends MUint8Array {
    static alloc(n, v) { n = conc(n); if (!(n >= 0)) throw RE('The value of "size" is out of range'); const b = new MBuffer(new MArrayBuffer(new Array(n).fill(0)), 0, n); if (v) b.fill(v); return b; }
    static allocUnsafe(n) { return pooled(new Array(conc(n)).fill(0)); } static allocUnsafeSlow(n) { return MBuffer.alloc(n); }
    static from(x, off, len) {
        if (x instanceof MArrayBuffer) { const o = conc(off) || 0; return new MBuffer(x, o, len === undefined ? x.$d.length - o : conc(len)); }
        if (x instanceof MUint8Array) return pooled(raw(x));
        if (Array.isArray(x)) return pooled(x.map(v => toBytes(v, 1)[0]));
        if (typ(x) === 'string') { if (off !== undefined && off !== 'utf8' && off !== 'utf-8') { if (isS(x)) fatal('encoding'); return pooled([...Buffer.from(x, off)]); } const s = strb(x); if (!s) fatal('bytes of an opaque text'); return pooled([...s]); }
        throw new TypeError('The first argument must be of type string or an instance of Buffer, ArrayBuffer, or Array or an Array-like Object.');
    }
    static concat(l, n) { for (const x of l) if (!(x instanceof MUint8Array)) throw new TypeError('The "list" argument must be an instance of Buffer or Uint8Array'); let d = []; for (const x of l) d = d.concat(raw(x)); if (n !== undefined) { n = conc(n); while (d.length < n) d.push(0); d = d.slice(0, n); } return pooled(d); }
    static isBuffer(x) { return x instanceof MBuffer; }
    static byteLength(x) { return x instanceof MUint8Array ? x.$len : x instanceof MArrayBuffer ? x.$d.length : strb(x).length; }
    slice(a, b) { return this.subarray(a, b); }
    equals(o) { return bytesEq(raw(this), raw(o)); }
    copy(t, ts, a, b) { const [x, y] = clampRange(a, b, this.$len); const d = raw(this).slice(x, y); ts = conc(ts) || 0; let n = 0; for (; n < d.length && ts + n < t.$len; n++) t.$buf.$d[t.$off + ts + n] = d[n]; return n; }
    toString(enc, a, b) { const [x, y] = clampRange(a, b, this.$len); const d = raw(this).slice(x, y); if (d.every(v => typeof v === 'number')) return Buffer.from(d).toString(enc); if (enc && enc !== 'utf8' && enc !== 'utf-8') fatal('Buffer.toString ' + enc); return str(d); }
    toJSON() { return { type: 'Buffer', data: raw(this) }; }
    $at(off, n) {
        if (off === undefined) off = 0;
        if (typ(off) !== 'number') throw new TypeError('The "offset" argument must be of type number.');
        if (isS(off)) { if (branch(cmp('<', off, 0)) || branch(cmp('<', this.$len - n, off))) throw RE('offset'); off = conc(off); }
        if (!Number.isInteger(off)) throw RE('The value of "offset" is out of range. It must be an integer.');
        if (this.$len - n < 0) throw RE('Attempt to access memory outside buffer bounds');
        if (off < 0 || off + n > this.$len) throw RE('The value of "offset" is out of range.');
        return this.$off + off;
    }
    $rd(off, n, signed, k, rev) { const p = this.$at(off, n); let d = this.$buf.$d.slice(p, p + n); if (rev) d = d.reverse(); return fromBytes(d, signed, k); }
    $wr(v, off, n, signed, k, rev) {
        if (k === 'big') { if (typ(v) !== 'bigint') throw new TypeError('Cannot mix BigInt and other types, use explicit conversions'); } else { if (!isS(v)) { v = Number(v); if (!(v === v)) v = 0; } else if (v.$k === 'bool') v = num('num', int(v).e, 0n, 1n); else if (v.$k !== 'num') fatal('number written from ' + v.$k); if (!isS(v) && !Number.isInteger(v) && Number.isFinite(v)) v = Math.trunc(v); }
        const lo = signed ? -(1n << big(8 * n - 1)) : 0n, hi = (1n << big(8 * n - (signed ? 1 : 0))) - 1n;
        if (isS(v)) { if (branch(cmp('<', v, k === 'big' ? lo : Number(lo))) || branch(cmp('<', k === 'big' ? hi : hi, v))) throw RE('The value of "value" is out of range.'); }
        else if (v === Infinity || v === -Infinity || big(v) < lo || big(v) > hi) throw RE('The value of "value" is out of range.');
        const p = this.$at(off, n); let d = toBytes(v, n); if (rev) d.reverse();
        for (let i = 0; i < n; i++) this.$buf.$d[p + i] = d[i];
        return p - this.$off + n;
    }
    $rf(off, n, rev) { const p = this.$at(off, n); let d = this.$buf.$d.slice(p, p + n); if (rev) d = d.reverse(); if (d.every(b => typeof b === 'number')) return n === 4 ? Buffer.from(d).readFloatLE() : Buffer.from(d).readDoubleLE(); const s = new Sym('flt', ''); s.$bytes = d; return s; }
    $wf(v, off, n, rev) {
        const p = this.$at(off, n); let d;
        if (isS(v)) { if (v.$k !== 'flt' || v.$bytes.length !== n) { if (v.$k === 'flt') d = resize(v, n); else fatal('float written from ' + v.$k); } else d = [...v.$bytes]; } else d = fbytes(Number(v), n);
        if (rev) d.reverse(); for (let i = 0; i < n; i++) this.$buf.$d[p + i] = d[i]; return p - this.$off + n;
    }
}
/// a float written in another size than it was read in
function resize(v, n) {
    const m = v.$bytes.length; const f = b => '((_ to_fp ' + (b.length === 4 ? '8 24' : '11 53') + ') (concat ' + [...b].reverse().map(byteE).join(' ') + '))';
    const r = []; const names = []; for (let i = 0; i < n; i++) { const x = 'f' + st.terms++; S0.solver.put('(declare-const ' + x + ' (_ BitVec 8))'); names.push(x); }
    S0.solver.put('(assert (= ' + f(names) + ' ((_ to_fp ' + (n === 4 ? '8 24' : '11 53') + ') RNE ' + f(v.$bytes) + ')))'); return names;
}
for (const [n, w, signed, k] of [['UInt8', 1, 0], ['Int8', 1, 1]]) { MBuffer.prototype['read' + n] = MBuffer.prototype['read' + n.replace('UInt', 'Uint')] = function (o) { return this.$rd(o, w, signed, 'num'); }; MBuffer.prototype['write' + n] = MBuffer.prototype['write' + n.replace('UInt', 'Uint')] = function (v, o) { return this.$wr(v, o, w, signed, 'num'); }; }
for (const e of ['LE', 'BE']) {
    for (const [n, w, signed, k] of [['UInt16', 2, 0, 'num'], ['UInt32', 4, 0, 'num'], ['Int16', 2, 1, 'num'], ['Int32', 4, 1, 'num'], ['BigUInt64', 8, 0, 'big'], ['BigInt64', 8, 1, 'big']]) {
        const r = function (o) { return this.$rd(o, w, signed, k, e === 'BE'); }, q = function (v, o) { return this.$wr(v, o, w, signed, k, e === 'BE'); };
        for (const m of [n, n.replace('UInt', 'Uint')]) { MBuffer.prototype['read' + m + e] = r; MBuffer.prototype['write' + m + e] = q; }
    }
    for (const [n, w] of [['Float', 4], ['Double', 8]]) { MBuffer.prototype['read' + n + e] = function (o) { return this.$rf(o, w, e === 'BE'); }; MBuffer.prototype['write' + n + e] = function (v, o) { return this.$wf(v, o, w, e === 'BE'); }; }
    for (const g of ['UInt', 'Uint']) { MBuffer.prototype['read' + g + e] = function (o, n) { return this.$rd(o, n, 0, 'num', e === 'BE'); }; MBuffer.prototype['write' + g + e] = function (v, o, n) { return this.$wr(v, o, n, 0, 'num', e === 'BE'); }; }
}
class MDataView {
    constructor(b, off, len) { if (!(b instanceof MArrayBuffer)) throw new TypeError('First argument to DataView constructor must be an ArrayBuffer'); this.$v = new MBuffer(b, conc(off) || 0, len); }
    get byteLength() { return this.$v.$len; } get byteOffset() { return this.$v.$off; } get buffer() { return this.$v.$buf; }
}
for (const [n, m, w] of [['Uint8', 'UInt8', 1], ['Int8', 'Int8', 1], ['Uint16', 'UInt16', 2], ['Int16', 'Int16', 2], ['Uint32', 'UInt32', 4], ['Int32', 'Int32', 4], ['BigUint64', 'BigUInt64', 8], ['BigInt64', 'BigInt64', 8], ['Float32', 'Float', 4], ['Float64', 'Double', 8]]) {
    MDataView.prototype['get' + n] = function (o, le) { return this.$v['read' + m + (w === 1 ? '' : le ? 'LE' : 'BE')](o); };
    MDataView.prototype['set' + n] = function (o, v, le) { // wraps around instead of throwing
        if (!n.startsWith('Float')) { const d = toBytes(isS(v) ? v : n.startsWith('Big') ? v : Math.trunc(Number(v)) || 0, w); if (!le) d.reverse(); const p = this.$v.$at(o, w); for (let i = 0; i < w; i++) this.$v.$buf.$d[p + i] = d[i]; } else this.$v['write' + m + (le ? 'LE' : 'BE')](v, o);
    };
}
class MTextEncoder { get encoding() { return 'utf-8'; } encode(s) { if (s === undefined) s = ''; const b = strb(s); if (!b) fatal('bytes of an opaque text'); return new MUint8Array(new MArrayBuffer([...b])); } }
class MTextDecoder {
    constructor(l, o) { if (l !== undefined && !/^utf-?8$/i.test(l)) fatal('TextDecoder ' + l); this.ignoreBOM = !!(o && o.ignoreBOM); this.fatal = !!(o && o.fatal); }
    decode(x) {
        if (x === undefined) return '';
        let d = x instanceof MUint8Array ? raw(x) : x instanceof MArrayBuffer ? x.$d.slice() : x instanceof MDataView ? raw(x.$v) : null;
        if (!d) throw new TypeError('The "list" argument must be an instance of SharedArrayBuffer, ArrayBuffer or ArrayBufferView.');
        if (!this.ignoreBOM && d.length >= 3 && branch(bytesEq(d.slice(0, 3), [0xef, 0xbb, 0xbf]))) d = d.slice(3);
        if (d.every(b => typeof b === 'number')) return new TextDecoder('utf-8', { ignoreBOM: true, fatal: this.fatal }).decode(Uint8Array.from(d));
        if (this.fatal) fatal('TextDecoder fatal'); return str(d);
    }
}
class MMap {
    constructor(it) { this.$l = []; if (it) for (const [k, v] of it) this.set(k, v); }
    $find(k) { for (let i = 0; i < this.$l.length; i++) { const q = this.$l[i][0]; if (isS(k) || isS(q) ? branch(seq(q, k)) : Object.is(q, k) || q === k) return i; } return -1; }
    get(k) { const i = this.$find(k); return i < 0 ? undefined : this.$l[i][1]; } has(k) { return this.$find(k) >= 0; }
    set(k, v) { const i = this.$find(k); if (i < 0) this.$l.push([k, v]); else this.$l[i][1] = v; return this; }
    delete(k) { const i = this.$find(k); if (i < 0) return false; this.$l.splice(i, 1); return true; } clear() { this.$l = []; }
    get size() { return this.$l.length; }
    // entries may be removed or added while they are visited
    *$it(f) { const seen = []; for (;;) { const e = this.$l.find(x => !seen.includes(x)); if (!e) return; seen.push(e); yield f(e); } }
    [Symbol.iterator]() { return this.$it(e => [e[0], e[1]]); } entries() { return this[Symbol.iterator](); } keys() { return this.$it(e => e[0]); } values() { return this.$it(e => e[1]); }
    forEach(f) { for (const [k, v] of this) f(v, k, this); }
}
class MSet {
    constructor(it) { this.$m = new MMap(); if (it) for (const k of it) this.add(k); }
    add(k) { this.$m.set(k, k); return this; } has(k) { return this.$m.has(k); } delete(k) { return this.$m.delete(k); } clear() { this.$m.clear(); } get size() { return this.$m.size; }
    [Symbol.iterator]() { return this.$m.keys(); } values() { return this.$m.keys(); } keys() { return this.$m.keys(); } forEach(f) { for (const k of this) f(k, k, this); }
}
function MNumber(x) { if (new.target) return fatal('new Number'); if (!isS(x)) return x === undefined && !arguments.length ? 0 : Number(x); if (x.$k === 'num' || x.$k === 'flt') return x; if (x.$k === 'big') return num('num', x.$e, x.$lo, x.$hi, x.$bytes); if (x.$k === 'bool') return num('num', int(x).e, 0n, 1n); return fatal('Number of a text'); }
for (const k of ['MAX_SAFE_INTEGER', 'MIN_SAFE_INTEGER', 'MAX_VALUE', 'MIN_VALUE', 'EPSILON', 'POSITIVE_INFINITY', 'NEGATIVE_INFINITY', 'NaN', 'parseInt', 'parseFloat']) MNumber[k] = Number[k];
MNumber.isInteger = x => isS(x) ? x.$k === 'num' : Number.isInteger(x);
MNumber.isSafeInteger = x => isS(x) ? x.$k === 'num' && and(cmp('<=', Number.MIN_SAFE_INTEGER, x), cmp('<=', x, Number.MAX_SAFE_INTEGER)) : Number.isSafeInteger(x);
const fltBits = x => { const e = '(concat ' + [...x.$bytes].reverse().map(byteE).join(' ') + ')'; return x.$bytes.length === 4 ? [e, '((_ extract 30 23) ' + e + ')', '#xff', '((_ extract 22 0) ' + e + ')', '#b' + '0'.repeat(23)] : [e, '((_ extract 62 52) ' + e + ')', '#b' + '1'.repeat(11), '((_ extract 51 0) ' + e + ')', '#x' + '0'.repeat(13)]; };
function isNan(x) { if (!isS(x)) return isNaN(x); if (x.$k === 'flt') { const b = fltBits(x); return bool('(and (= ' + b[1] + ' ' + b[2] + ') (not (= ' + b[3] + ' ' + b[4] + ')))'); } if (x.$k === 'big') throw new TypeError('Cannot convert a BigInt value to a number'); return false; }
function isFin(x) { if (!isS(x)) return isFinite(x); if (x.$k === 'flt') { const b = fltBits(x); return bool('(not (= ' + b[1] + ' ' + b[2] + '))'); } if (x.$k === 'big') throw new TypeError('Cannot convert a BigInt value to a number'); return true; }
MNumber.isNaN = x => isS(x) ? (x.$k === 'big' ? false : isNan(x)) : Number.isNaN(x);
MNumber.isFinite = x => isS(x) ? (x.$k === 'big' ? false : isFin(x)) : Number.isFinite(x);
Object.defineProperty(MNumber, Symbol.hasInstance, { value: x => x instanceof Number });
function MBigInt(x) { if (!isS(x)) return BigInt(x); if (x.$k === 'big') return x; if (x.$k === 'num') return num('big', x.$e, x.$lo, x.$hi, x.$bytes); return fatal('BigInt of ' + x.$k); }
MBigInt.asUintN = (n, x) => isS(x) ? (n <= 64 ? fromBytes(toBytes(x, n / 8), false, 'big') : fatal('asUintN')) : BigInt.asUintN(n, x); MBigInt.asIntN = (n, x) => isS(x) ? fromBytes(toBytes(x, n / 8), true, 'big') : BigInt.asIntN(n, x);
const MMath = new Proxy(Math, { get(t, p) {
    if (p === 'round' || p === 'floor' || p === 'ceil' || p === 'trunc') return x => isS(x) ? (x.$k === 'num' ? x : fatal('Math.' + p)) : t[p](x);
    if (p === 'min' || p === 'max') return (...a) => a.reduce((x, y) => !isS(x) && !isS(y) ? t[p](x, y) : branch(cmp('<', x, y)) === (p === 'min') ? x : y);
    if (p === 'abs') return x => isS(x) ? (branch(cmp('<', x, 0)) ? neg(x) : x) : t.abs(x);
    if (p === 'random') return () => fatal('Math.random');
    const f = t[p]; return typeof f !== 'function' ? f : (...a) => a.some(isS) ? fatal('Math.' + String(p)) : f(...a);
} });
const MObject = new Proxy(Object, { get(t, p) { if (p === 'is') return (a, b) => isS(a) || isS(b) ? seq(a, b) : Object.is(a, b); return t[p]; } });
function MString(x) { return isS(x) ? (x.$k === 'str' ? x : (st.opaque++, str(null))) : String(x); }
MString.fromCharCode = String.fromCharCode; MString.raw = String.raw;
function MBoolean(x) { return isS(x) ? truthy(x) : Boolean(x); }
class MDate { constructor(x) { this.$t = x === undefined ? now() : x; } getTime() { return this.$t; } valueOf() { return this.$t; } static now() { return now(); } toISOString() { return 'T'; } }
let clock = 1700000000000; const now = () => st && st.clock !== undefined ? st.clock : clock;
const silent = new Proxy({}, { get: () => () => undefined });

// ------------------------------------------------------------------ interface of the harness
function model() {  // concrete inputs of this path; call inside of a satisfiable check
    const names = []; for (const i of st.inputs) if (i.s) for (const b of i.s) names.push(b);
    const v = S0.solver.values(names); let k = 0;
    return st.inputs.map(i => i.s ? { b: i.s.map(() => v[k++].toString(16).padStart(2, '0')).join('') } : { c: i.c });
}
function violation(kind, msg, e) { S0.solver.check(e, () => { S0.violations++; st.bad++; S0.onViolation({ kind, msg, stack: where(), inputs: model() }); }); }
function where() { return (new Error().stack || '').split('\n').slice(2).filter(l => !/rt\.js/.test(l)).slice(0, 6).map(l => l.trim().replace(/^at /, '').replace(/\(?\/\S*\//, '(')).join(' < '); }
const api = {
    sym: true,
    choice, bound: (q, t) => S0.deep ? t : q, pick: a => a[choice(a.length)],
    bytes(n) { alive(); const s = []; for (let i = 0; i < n; i++) { const x = 'i' + st.syms++; S0.solver.put('(declare-const ' + x + ' (_ BitVec 8))'); s.push(x); } if (n) st.inputs.push({ s }); S0.maxSym = Math.max(S0.maxSym, st.syms); return s; },
    uint(n) { return fromBytes(api.bytes(n), false, n === 8 ? 'big' : 'num'); }, sint(n) { return fromBytes(api.bytes(n), true, n === 8 ? 'big' : 'num'); },
    flt(n) { const s = new Sym('flt', ''); s.$bytes = api.bytes(n); api.assume(flip(isNan(s))); return s; },
    bool() { const b = api.bytes(1)[0]; api.assume(bool('(bvule ' + b + ' #x01)')); return bool('(= ' + b + ' #x01)'); },
    /// a text of the given characters, each with this many bytes of UTF-8
    str(widths) {
        let r = []; let u = 0;
        for (const w of widths) {
            const b = api.bytes(w), rng = (x, l, h) => api.assume(bool('(and (bvule ' + hexv(big(l), 8) + ' ' + x + ') (bvule ' + x + ' ' + hexv(big(h), 8) + '))'));
            if (w === 1) rng(b[0], 0, 127); else if (w === 2) rng(b[0], 0xc2, 0xdf); else if (w === 3) { rng(b[0], 0xe0, 0xef); api.assume(bool('(and (=> (= ' + b[0] + ' #xe0) (bvule #xa0 ' + b[1] + ')) (=> (= ' + b[0] + ' #xed) (bvule ' + b[1] + ' #x9f)))')); } else { rng(b[0], 0xf0, 0xf4); api.assume(bool('(and (=> (= ' + b[0] + ' #xf0) (bvule #x90 ' + b[1] + ')) (=> (= ' + b[0] + ' #xf4) (bvule ' + b[1] + ' #x8f)))')); }
            for (let i = 1; i < w; i++) rng(b[i], 0x80, 0xbf);
            r = r.concat(b); u += w === 4 ? 2 : 1;
        }
        return str(r, u);
    },
    assume(x) { alive(); if (x === true) return; if (x === false) { st.assumed = true; halt(); } if (x.$k !== 'bool') x = truthy(x); if (st.at >= st.prefix.length && !S0.solver.check(x.$e)) { st.assumed = true; halt(); } S0.solver.put('(assert ' + x.$e + ')'); st.known.set(x.$e, true); },
    check(x, msg) {
        alive(); S0.obligations++;
        if (!isS(x)) { if (!x) { violation('check', msg, null); halt(); } return; }
        x = truthy(x); if (x === true) return; if (x === false) { violation('check', msg, null); halt(); }
        if (st.known.get(x.$e) === true) return;
        const n = S0.violations; violation('check', msg, '(not ' + x.$e + ')');
        if (S0.violations > n) { if (!S0.solver.check(x.$e)) halt(); S0.solver.put('(assert ' + x.$e + ')'); }
        st.known.set(x.$e, true);
    },
    reach(l) { alive(); st.reach.push(l); },
    halt() { halt(); },
    steps(n) { st.steps = 0; S0.maxSteps = n; },
    /// symbolic bytes as a buffer with its own memory
    buf(b) { return new MBuffer(new MArrayBuffer([...b]), 0, b.length); },
    ab(b) { return new MArrayBuffer([...b]); },
    u8a(b) { return new MUint8Array(new MArrayBuffer([...b])); },
    raw(x) { return x instanceof MUint8Array ? raw(x) : x instanceof MArrayBuffer ? x.$d.slice() : fatal('raw'); },
    /// the bytes of a value: le integer, float or text
    enc(x, n) { if (typ(x) === 'string') return strb(x); if (isS(x) && x.$k === 'flt') return x.$bytes; return toBytes(x, n); },
    fenc(x, n) { return isS(x) ? x.$bytes : fbytes(x, n); },
    eqBytes: bytesEq,
    same: seq, and, or, not: flip, eq: seq, isSym: isS,
};
const builtins = { Buffer: MBuffer, Uint8Array: MUint8Array, ArrayBuffer: MArrayBuffer, SharedArrayBuffer: class {}, DataView: MDataView, TextEncoder: MTextEncoder, TextDecoder: MTextDecoder, Map: MMap, Set: MSet, Number: MNumber, BigInt: MBigInt, Math: MMath, Object: MObject, String: MString, Boolean: MBoolean, Date: MDate, isNaN: isNan, isFinite: isFin, console: silent };
const ops = { bin, tv, c, sw, neg, plus, inc, fst, fn, ix, typeOf };

// ------------------------------------------------------------------ exploration
async function explore(entry, o) {
    S0 = { solver: new Solver(), stack: [[]], functions: new Set(), violations: 0, onViolation: o.onViolation, deep: o.deep, maxSteps: o.steps, obligations: 0, maxSym: 0 };
    const r = { paths: 0, assumed: 0, forks: 0, reach: {}, error: '', errors: 0, timeouts: 0, instructions: 0 };
    const t0 = Date.now();
    while (S0.stack.length) {
        if (Date.now() - t0 > o.time * 1000) { r.timeouts = 1; break; }
        const prefix = S0.stack.pop();
        st = { prefix, at: 0, dec: [], inputs: [], known: new Map(), steps: 0, terms: 0, syms: 0, reach: [], opaque: 0, dead: null, forks: 0, bad: 0, assumed: false };
        S0.maxSteps = o.steps; pool = null;
        S0.solver.put('(push 1)');
        let end = 'return';
        try { const q = entry(); if (q && typeof q.then === 'function') await q; }
        catch (e) {
            if (!st.dead && !(e instanceof Fatal)) { const m = 'an exception leaves the code: ' + (e && e.message !== undefined ? String(e.message) : e); try { violation('throw', m.replace(/[0-9]+/g, 'N').slice(0, 200), null); st.dead = new Halt(); } catch (x) { st.dead = x; } if (process.env.TSYM_TRACE) console.error(e); }
            else if (!st.dead) st.dead = e;
        }
        r.instructions += st.steps; r.forks += st.forks;
        if (st.dead instanceof Fatal) { r.errors++; if (!r.error) { r.error = st.dead.message + ' @ ' + (st.dead.stack || '').split('\n').slice(1).filter(l => !/rt\.js/.test(l)).slice(0, 3).map(l => l.trim().replace(/\/\S*\//, '')).join(' < '); } S0.solver.put('(pop 1)'); if (r.errors > 20) break; continue; }
        if (st.assumed) r.assumed++; else {
            r.paths++;
            for (const l of new Set(st.reach)) r.reach[l] = (r.reach[l] || 0) + 1;
            if (!st.dead && !st.bad && o.onSample && o.want(r.paths)) S0.solver.check(null, () => o.onSample({ end, reach: st.reach.join(','), inputs: model() }));
        }
        S0.solver.put('(pop 1)'); S0.solver.flush();
    }
    const s = S0.solver; s.close();
    return { paths: r.paths, assumed_out: r.assumed, forks: r.forks, queries: s.queries, sat: s.sat, unsat: s.unsat, unknown: s.unknown, solver_s: s.time, instructions: r.instructions, obligations: S0.obligations, max_symbolic_bytes: S0.maxSym, reach: Object.entries(r.reach).map(([k, v]) => [Number(k), v]), wall_s: (Date.now() - t0) / 1000, functions: [...S0.functions], violations: S0.violations, errors: r.errors, error: r.error, timeouts: r.timeouts };
}
/// runs code outside of an exploration (loading of modules), where nothing is symbolic
function boot(f) {
    const fresh = { prefix: [], at: 0, dec: [], inputs: [], known: new Map(), steps: 0, terms: 0, syms: 0, reach: [], opaque: 0, dead: null, forks: 0, bad: 0 };
    const s = st, z = S0; if (!st) { st = fresh; S0 = { maxSteps: Infinity, functions: new Set() }; }
    try { return f(); } finally { st = s; S0 = z; }
}
module.exports = { explore, api, builtins, ops, Fatal, boot };
