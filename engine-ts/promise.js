// Promises with a queue of jobs the harness runs itself, so that nothing happens behind the back of the exploration.
const jobs = []; let loose = new Set();
const dead = e => { const n = e && e.constructor && e.constructor.name; return n === 'Halt' || n === 'Fatal'; };
class P {
    constructor(f) { this.$s = 0; this.$v = undefined; this.$r = []; this.$h = false; const [a, b] = P.$fns(this); try { f(a, b); } catch (e) { if (dead(e)) throw e; b(e); } }
    static $fns(p) {
        let done = false;
        return [v => { if (!done) { done = true; P.$res(p, v); } }, e => { if (!done) { done = true; P.$set(p, 2, e); } }];
    }
    static $res(p, v) {
        if (v === p) return P.$set(p, 2, new TypeError('Chaining cycle detected for promise'));
        if (v !== null && (typeof v === 'object' || typeof v === 'function')) {
            let t; try { t = v.then; } catch (e) { if (dead(e)) throw e; return P.$set(p, 2, e); }
            if (typeof t === 'function') { jobs.push(() => { const [a, b] = P.$fns(p); try { t.call(v, a, b); } catch (e) { if (dead(e)) throw e; b(e); } }); return; }
        }
        P.$set(p, 1, v);
    }
    static $set(p, s, v) { if (p.$s) return; p.$s = s; p.$v = v; if (s === 2 && !p.$h) loose.add(p); for (const r of p.$r) P.$job(p, r); p.$r = []; }
    static $job(p, r) { jobs.push(() => { const f = p.$s === 1 ? r.f : r.g; if (typeof f !== 'function') return p.$s === 1 ? r.a(p.$v) : r.b(p.$v); let x; try { x = f(p.$v); } catch (e) { if (dead(e)) throw e; return r.b(e); } r.a(x); }); }
    then(f, g) { let a, b; const q = new P((x, y) => { a = x; b = y; }); const r = { f, g, a, b }; this.$h = true; loose.delete(this); if (this.$s) P.$job(this, r); else this.$r.push(r); return q; }
    catch(g) { return this.then(undefined, g); }
    finally(f) { return this.then(v => P.resolve(f()).then(() => v), e => P.resolve(f()).then(() => { throw e; })); }
    static resolve(v) { return v instanceof P ? v : new P(a => a(v)); }
    static reject(e) { return new P((_, b) => b(e)); }
    static all(l) { return new P((a, b) => { const r = []; let n = 1; [...l].forEach((p, i) => { n++; P.resolve(p).then(v => { r[i] = v; if (--n === 0) a(r); }, b); }); if (--n === 0) a(r); }); }
    static allSettled(l) { return P.all([...l].map(p => P.resolve(p).then(value => ({ status: 'fulfilled', value }), reason => ({ status: 'rejected', reason })))); }
    static race(l) { return new P((a, b) => { for (const p of l) P.resolve(p).then(a, b); }); }
}
P.$drain = n => { let k = 0; while (jobs.length) { if (++k > n) throw new Error('the code keeps the queue of promises busy forever'); jobs.shift()(); } const r = [...loose].map(p => p.$v); loose = new Set(); return r; };
P.$reset = () => { jobs.length = 0; loose = new Set(); };
exports.Promise = P;
