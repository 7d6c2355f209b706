// Schema, symbolic values, documented layout and equality: shared by the entries. Written from the documentation, not
// from the generated code.
const PRIM = { u8: 1, u16: 2, u32: 4, u64: 8, i8: 1, i16: 2, i32: 4, i64: 8, f32: 4, f64: 8, bool: 1, str: 0 };
exports.PRIM = PRIM;
/// declarations of a schema: ids are given to groups, messages and fields in the order of their declaration
exports.parse = function (text) {
    const t = text.match(/[A-Za-z0-9_.]+|\[\]|[{};?]/g); let i = 0, id = 0; const all = {};
    const body = (path) => {
        while (i < t.length && t[i] !== '}') {
            const kind = t[i++], name = t[i++]; i++;
            const d = { kind, name, path: [...path, name], group: path, id: ++id, fields: [] };
            if (kind === 'group') body(d.path);
            else {
                while (t[i] !== '}') {
                    const f = { name: '', type: t[i++], arr: false, opt: false };
                    if (t[i] === '[]') { f.arr = true; i++; }
                    if (kind === 'enum' && t[i] === ';') { f.name = f.type; f.type = 'str'; f.bare = true; } else f.name = t[i++];
                    if (t[i] === '?') { f.opt = true; i++; }
                    i++;
                    if (kind === 'struct') f.id = ++id; else f.ix = d.fields.length;
                    d.fields.push(f);
                }
                all[d.path.join('.')] = d;
            }
            i++;
        }
    };
    body([]);
    for (const d of Object.values(all)) for (const f of d.fields) if (!(f.type in PRIM)) f.ref = all[[...d.group, f.type].join('.')] || all[f.type];
    return all;
};
exports.cls = (G, d) => d.path.reduce((o, k) => o[k], G);

// ---------------------------------------------------------------- symbolic values
let slot = 0, varied = -1, kind = 1;
exports.vary = function (n) { slot = 0; varied = H.choice(n); kind = H.choice(6); };
exports.vary_none = function () { slot = 0; varied = -1; kind = 1; };
exports.settled = function () { H.assume(varied < slot || varied <= 0); if (varied === 0 && slot === 0) H.assume(kind === 0); };
const shape = () => slot++ === varied ? kind : 1;
const variant = n => { if (slot++ === varied) { H.assume(kind === 0); return H.choice(n); } return 0; };
const prim = t => { switch (t) { case 'str': return H.str([[], [1, 2], [3], [4], [1, 1, 1, 1], [2, 3, 4]][shape()]); case 'bool': return H.bool(); case 'f32': return H.flt(4); case 'f64': return H.flt(8); default: return t[0] === 'u' ? H.uint(PRIM[t]) : H.sint(PRIM[t]); } };
const one = (G, f) => f.ref ? exports.sym(G, f.ref) : prim(f.type);
exports.sym = function (G, d) {
    if (d.kind === 'enum') { const f = d.fields[variant(d.fields.length)]; return { [f.name]: f.bare ? '' : f.arr ? many(G, f) : one(G, f) }; }
    const p = {};
    for (const f of d.fields) p[f.name] = f.opt && shape() === 0 ? undefined : f.arr ? many(G, f) : one(G, f);
    return new (exports.cls(G, d))(p);
};
const many = (G, f) => { const n = [0, 2, 1, 3, 4, 9][shape()], r = []; for (let i = 0; i < n; i++) r.push(one(G, f)); return r; };

// ---------------------------------------------------------------- layout
const le = (v, n) => H.enc(v, n);
exports.le = le;
const value = (f, v) => f.ref ? exports.lay(f.ref, v) : f.type === 'str' ? H.enc(v) : f.type === 'bool' ? H.enc(v, 1) : f.type[0] === 'f' ? H.fenc(v, PRIM[f.type]) : le(v, PRIM[f.type]);
const content = (f, v) => {
    if (!f.arr) return value(f, v);
    let r = []; for (const x of v) { const b = value(f, x); if (f.ref) r = r.concat(le(b.length, 8)); else if (f.type === 'str') r = r.concat(le(b.length, 4)); r = r.concat(b); }
    return r;
};
exports.content = content;
exports.record = (id, short, b, rank) => { rank = rank || (short ? 1 : 8); return [id & 255, id >> 8, rank * 8, ...le(b.length, rank), ...b]; };
/// records of a struct in the order of its declaration
exports.recs = (d, v) => d.fields.map(f => { const x = v[f.name]; return f.opt && x === undefined ? exports.record(f.id, true, []) : exports.record(f.id, !f.ref && !f.arr && f.type !== 'str', content(f, x)); });
exports.lay = function (d, v) {
    if (d.kind === 'enum') { const f = d.fields.find(f => v[f.name] !== undefined); return [...le(f.ix, 2), ...content(f, v[f.name])]; }
    return [].concat(...exports.recs(d, v));
};

// ---------------------------------------------------------------- equality
const same1 = (G, f, a, b) => {
    if (f.ref) return exports.same(G, f.ref, a, b);
    if (f.type === 'str') return typeof b === 'string' ? H.same(a, b) : false;
    if (f.type === 'bool') return typeof b === 'boolean' ? H.same(a, b) : false;
    if (f.type === 'u64' || f.type === 'i64') return typeof b === 'bigint' ? H.same(a, b) : false;
    if (typeof b !== 'number') return false;
    return f.type[0] === 'f' ? H.eqBytes(H.fenc(a, PRIM[f.type]), H.fenc(b, PRIM[f.type])) : H.same(a, b);
};
exports.same = function (G, d, a, b) {
    if (typeof b !== 'object' || b === null) return false;
    if (d.kind === 'struct' && !(b instanceof exports.cls(G, d))) return false;
    if (d.kind === 'enum' && Object.keys(b).filter(k => b[k] !== undefined).length !== 1) return false;
    let r = true;
    for (const f of d.fields) {
        const x = a[f.name], y = b[f.name];
        if (x === undefined || y === undefined) {
            if (x === undefined && y === undefined) continue;
            if (f.opt && y === undefined) H.check(content(f, x).length > 0, 'KF:a present optional whose content encodes to zero bytes is decoded as absent');
            return false;
        }
        if (f.arr) { if (!(y instanceof Array) || y.length !== x.length) return false; for (let i = 0; i < x.length; i++) r = H.and(r, same1(G, f, x[i], y[i])); }
        else r = H.and(r, same1(G, f, x, y));
    }
    return r;
};
