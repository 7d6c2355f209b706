// Entries over the generated TypeScript consumer: P23 (ans_, bro_), P24 (hs_), P26 (far_), and over both ends together: P27 (e2e_).
const C = require('clibri'), M = require('model'), X = require('c/index'), Q = X.Protocol, I = Q.InternalServiceGroup, E = exports;
const F = require('flow'), P = require('p/implementation/protocol'), U = require('users').U;
const HEAD = 26, bytesOf = x => H.raw(x);
class Peer {
    constructor(options) {
        C.reset(); const w = this; w.sent = []; w.ready = []; w.connected = 0; w.gone = 0; w.errors = []; w.got = []; w.fail = () => undefined; w.closed = 0;
        w.events = { data: new C.Subject(), connected: new C.Subject(), disconnected: new C.Subject(), error: new C.Subject() };
        w.client = { getEvents: () => w.events, send(b) { const e = w.fail(w.sent.length); if (e instanceof Error) return e; w.sent.push(bytesOf(b)); if (w.wire) w.wire(b); return undefined; }, destroy() { w.closed++; return Promise.resolve(); } };
        w.key = { id: H.uint(2), name: 'k' };
        w.consumer = new X.Consumer(w.client, w.key, options);
        w.consumer.ready.subscribe(u => w.ready.push(u)); w.consumer.connected.subscribe(() => w.connected++); w.consumer.disconnected.subscribe(() => w.gone++); w.consumer.error.subscribe(e => w.errors.push(e));
        for (const k of ['Note', 'Extra', 'GHNote', 'Mail']) w.consumer.broadcast[k].subscribe(m => w.got.push([k, m]));
    }
    data(b) { this.events.data.emit(H.ab(b)); }
    async settle() { const l = await H.drain(); H.check(l.length === 0, 'a rejected promise is left without a handler'); }
    /// the sequence of a package the consumer sent
    seq(i) { return num(this.sent[i].slice(6, 10)); }
    is(i, cls) { return this.sent[i] !== undefined && H.eqBytes(this.sent[i].slice(0, 4), M.le(cls.getId(), 4)); }
    async open(uuid) {
        this.events.connected.emit(); await this.settle(); const k = this.sent.length - 1; this.data(bytesOf(new I.SelfKeyResponse({ uuid }).pack(this.seq(k)))); await this.settle();
        this.data(bytesOf(new I.HashResponse({ error: undefined }).pack(this.seq(k + 1)))); await this.settle(); H.check(this.ready.length === 1 && this.ready[0] === uuid, 'a consumer is not ready after the handshake'); this.sent = []; this.ready = []; this.got = [];
    }
}
const num = b => { const v = b.map(x => Number(x)); return v[0] + v[1] * 256 + v[2] * 65536 + v[3] * 16777216; };
const track = p => { const t = { state: 'open', v: undefined, n: 0 }; p.then(v => { t.state = 'done'; t.v = v; t.n++; }, e => { t.state = 'failed'; t.v = e; t.n++; }); return t; };

// ---------------------------------------------------------------- P24: a consumer is ready only after the handshake
/// the answers to the key and to the hash, of every kind
E.hs_answers = async () => {
    const w = new Peer(); H.check(w.sent.length === 0, 'a consumer sends before it is connected'); let threw = false; try { w.consumer.uuid; } catch (e) { threw = true; } H.check(threw, 'a consumer has a uuid before the handshake');
    w.events.connected.emit(); await w.settle(); H.check(w.connected === 1, 'a connection is not reported'); H.check(w.sent.length === 1 && w.is(0, Q.Key), 'the handshake does not start with the key'); H.check(H.eqBytes(w.sent[0].slice(HEAD), bytesOf(new Q.Key(w.key).encode())), 'another key is sent');
    const s = w.seq(0), kinds = ['right', 'other', 'hash', 'sequence', 'broadcast', 'none'];
    const put = (i, right, n) => { const k = H.pick(kinds), d = k === 'sequence' ? 1 + H.choice(2) * 40 : 0; if (k === 'right' || k === 'sequence') w.data(bytesOf(right.pack(n + d))); else if (k === 'other') w.data(bytesOf(new Q.Pong({ n: H.uint(2) }).pack(n))); else if (k === 'hash') w.data(bytesOf(i ? new I.SelfKeyResponse({ uuid: 'zz' }).pack(n) : new I.HashResponse({ error: undefined }).pack(n))); else if (k === 'broadcast') w.data(bytesOf(new Q.Note({ n: H.uint(1) }).pack(0))); return k === 'right'; };
    const a = put(0, new I.SelfKeyResponse({ uuid: 'u-1' }), s); await w.settle(); H.check(w.ready.length === 0, 'a consumer is ready before its hash is accepted');
    if (!a) { H.check(w.sent.length === 1, 'the hash is sent though the key was not confirmed'); H.check(!w.ready.length, 'a consumer is ready though the key was not confirmed'); return H.reach(1); }
    H.check(w.consumer.uuid === 'u-1', 'a consumer has another uuid than the one it was given'); H.check(w.sent.length === 2 && w.is(1, I.HashRequest), 'the hash is not sent after the key'); H.check(!H.same(w.seq(1), s), 'a sequence is used twice');
    H.check(H.eqBytes(w.sent[1].slice(HEAD), bytesOf(new I.HashRequest({ protocol: X.Consumer.PROTOCOL_HASH, workflow: X.Consumer.WORKFLOW_HASH }).encode())), 'other hashes than those of the protocol and the workflow are sent');
    const refused = H.choice(2) === 1, b = put(1, new I.HashResponse({ error: refused ? 'no' : undefined }), w.seq(1)); await w.settle();
    H.check(w.ready.length === (b && !refused ? 1 : 0), b && !refused ? 'a consumer is not ready after the handshake' : 'a consumer is ready though its hash was not accepted'); if (w.ready.length) { H.check(w.ready[0] === 'u-1', 'another uuid is reported'); H.reach(2); } H.reach(1);
};
/// both ends have the same hashes, else no consumer could ever be ready
E.hs_hashes = async () => { const p = require('p/implementation').Producer.hash; H.check(p.PROTOCOL === X.Consumer.PROTOCOL_HASH && p.WORKFLOW === X.Consumer.WORKFLOW_HASH && p.PROTOCOL.length === 64 && p.WORKFLOW.length === 64 && p.PROTOCOL !== p.WORKFLOW, 'producer and consumer have different hashes'); H.reach(1); };
/// the transport fails while the handshake is sent
E.hs_fails = async () => { const w = new Peer(), at = H.choice(3); w.fail = i => i === at ? new Error('closed') : undefined; w.events.connected.emit(); await w.settle(); if (at > 0) { w.data(bytesOf(new I.SelfKeyResponse({ uuid: 'u' }).pack(w.seq(0)))); await w.settle(); } if (at > 1) { w.data(bytesOf(new I.HashResponse({ error: undefined }).pack(w.seq(1)))); await w.settle(); } H.check(w.ready.length === (at > 1 ? 1 : 0), 'a consumer is ready though the handshake was not sent'); H.reach(1); };
/// after a disconnection the consumer starts anew: another handshake, another uuid, nothing of the old stream
E.hs_again = async () => {
    const w = new Peer(), at = H.choice(3); w.events.connected.emit(); await w.settle(); if (at > 0) { w.data(bytesOf(new I.SelfKeyResponse({ uuid: 'old' }).pack(w.seq(0)))); await w.settle(); } if (at > 1) { w.data(bytesOf(new I.HashResponse({ error: undefined }).pack(w.seq(1)))); await w.settle(); }
    const note = bytesOf(new Q.Note({ n: H.uint(1) }).pack(0)), cut = H.choice(note.length); if (cut) w.data(note.slice(0, cut)); await w.settle(); const n = w.ready.length; H.check(n === (at > 1 ? 1 : 0), 'a consumer is ready too early');
    w.events.disconnected.emit(); await w.settle(); H.check(w.gone === 1, 'a disconnection is not reported'); let threw = false; try { w.consumer.uuid; } catch (e) { threw = true; } H.check(threw, 'a consumer keeps its uuid after a disconnection');
    w.sent = []; w.ready = []; w.events.connected.emit(); await w.settle(); H.check(w.sent.length === 1 && w.is(0, Q.Key), 'a consumer which is connected again does not start a handshake'); w.data(bytesOf(new I.SelfKeyResponse({ uuid: 'new' }).pack(w.seq(0)))); await w.settle(); H.check(w.ready.length === 0, 'a consumer is ready before its hash is accepted again'); H.check(w.sent.length === 2, 'the hash is not sent again, or the rest of a package of the last connection gets in the way'); w.data(bytesOf(new I.HashResponse({ error: undefined }).pack(w.seq(1)))); await w.settle();
    H.check(w.ready.length === 1 && w.ready[0] === 'new' && w.consumer.uuid === 'new', 'a consumer which is connected again does not get ready'); const m = { n: H.uint(1) }; w.data(bytesOf(new Q.Note(m).pack(0))); await w.settle(); H.check(w.got.length === 1 && H.same(w.got[0][1].n, m.n), 'a broadcast after a new connection is lost'); H.reach(1);
};
/// the registry of the consumers
E.hs_global = async () => {
    const own = H.choice(2) === 1; C.reset(); H.check(X.Consumer.get() instanceof Error, 'there is a consumer before one was made'); let told = 0; const sub = X.Consumer.wait(() => told++); H.check(!(sub instanceof Error), 'nobody can wait for a consumer'); const box = C.globals(), before = { ...box };
    const w = (() => { const r = C.reset; C.reset = () => undefined; try { return new Peer({ global: own }); } finally { C.reset = r; } })(); void before;
    H.check(told === (own ? 1 : 0), 'the ones waiting for a consumer are not told once'); H.check(own ? X.Consumer.get() === w.consumer : X.Consumer.get() instanceof Error, 'the registered consumer is another one'); if (own) { let threw = false; try { new X.Consumer({ ...w.client, getEvents: () => ({ data: new C.Subject(), connected: new C.Subject(), disconnected: new C.Subject(), error: new C.Subject() }) }, w.key); } catch (e) { threw = true; } H.check(threw, 'a second consumer is registered'); H.check(X.Consumer.wait(() => 0) instanceof Error, 'one waits for a consumer which is there'); }
    w.consumer.destroy(); await w.settle(); H.check(w.closed === 1 && X.Consumer.get() instanceof Error, 'a destroyed consumer stays'); w.events.connected.emit(); await w.settle(); H.check(w.sent.length === 0 && w.connected === 0, 'a destroyed consumer goes on'); H.reach(1);
};

// ---------------------------------------------------------------- P23: every answer goes to its request
const KIND = {
    ping: { make: (w, c) => new X.Ping({ n: H.uint(2) }, c), ok: [['response', () => [Q.Pong, { n: H.uint(2) }]], ['err', () => [Q.Err, { text: H.pick(['', 'e']) }]]] },
    ask: { make: (w, c) => new X.GAsk({ n: H.uint(1) }, c), ok: [['yes', () => [Q.G.Yes, { n: H.uint(1) }]], ['pong', () => [Q.Pong, { n: H.uint(2) }]], ['later', () => [Q.G.H.Pong, { n: H.uint(1) }]], ['err', () => [Q.G.No, { why: 'w' }]]] },
    hping: { make: (w, c) => new X.GHPing({ n: H.uint(1) }, c), ok: [[typeof X.GHPing.prototype.done === 'function' ? 'done' : 'response', () => [Q.G.H.Pong, { n: H.uint(1) }]], ['err', () => [Q.Err, { text: 't' }]]] },
    tick: { make: (w, c) => new X.BeaconTick({ n: H.uint(1) }, c), ok: [['response', () => [I.BeaconConfirmation, { error: undefined }]]] },
    tock: { make: (w, c) => new X.BeaconGTock({ n: H.uint(1) }, c), ok: [['response', () => [I.BeaconConfirmation, { error: undefined }]]] },
};
const WRONG = { ping: () => new Q.G.Yes({ n: 1 }), ask: () => new Q.Err({ text: '' }), hping: () => new Q.Pong({ n: 1 }), tick: () => new I.HashResponse({ error: undefined }), tock: () => new Q.Pong({ n: 3 }) };

const equal = (v, o) => { let r = true; for (const k of Object.keys(o)) r = H.and(r, H.same(v[k], o[k])); return r; };
/// sends a request and notes which handlers were called
const send = (w, k, c) => {
    const r = KIND[k].make(w, c === undefined ? w.consumer : c), x = { k, r, hit: [] }; for (const h of ['response', 'err', 'yes', 'pong', 'later', 'done']) if (typeof r[h] === 'function') r[h](m => x.hit.push([h, m]));
    x.i = w.sent.length; x.t = track(r.send()); return x;
};
const sentOne = (w, x) => { H.check(w.sent.length === x.i + 1, 'a request is not sent exactly once'); H.check(H.eqBytes(w.sent[x.i].slice(0, 4), M.le(x.r.getId(), 4)) && H.eqBytes(w.sent[x.i].slice(HEAD), bytesOf(x.r.encode())), 'another request is sent'); x.seq = w.seq(x.i); };
const answered = (x, h, m) => { if (x.k === 'tick' || x.k === 'tock') { H.check(x.t.state === 'done' && x.hit.length === 1 && x.hit[0][0] === 'response', 'the confirmation of a beacon is not delivered'); return; } H.check(x.t.state === 'done' && x.t.n === 1 && equal(x.t.v, m), 'a request is not resolved with its answer'); H.check(x.hit.length === 1 && x.hit[0][0] === h && equal(x.hit[0][1], m), 'the handler of another answer is called, or none'); };
/// several requests at once, answered in any order, with broadcasts and foreign sequences in between
const outstanding = async (n, kinds, cut) => {
    const w = new Peer(); await w.open('me'); const xs = [], seen = [];
    for (let i = 0; i < n; i++) { const x = send(w, H.pick(kinds)); await w.settle(); sentOne(w, x); H.check(xs.every(y => y.seq !== x.seq) && x.seq !== 0, 'a sequence is used twice'); xs.push(x); }
    const left = xs.slice(); let notes = 0, stream = [];
    while (left.length) {
        const x = left.splice(H.choice(left.length), 1)[0], [h, f] = H.pick(KIND[x.k].ok), [cls, m] = f();
        const extra = H.choice(3); let b = [];
        if (extra === 1) { const v = { n: H.uint(1) }; b = b.concat(bytesOf(new Q.Note(v).pack(0))); seen.push(v); notes++; }
        if (extra === 2) b = b.concat(bytesOf(new cls(m).pack(x.seq + 1000)));
        b = b.concat(bytesOf(new cls(m).pack(x.seq)));
        const at = cut ? H.choice(b.length) : 0; if (at) { w.data(b.slice(0, at)); await w.settle(); } w.data(b.slice(at)); await w.settle();
        answered(x, h, m); for (const y of left) H.check(y.t.state === 'open' && y.hit.length === 0, 'an answer is given to another request'); H.check(w.got.length === notes && w.got.every(([k, v], i) => k === 'Note' && H.same(v.n, seen[i].n)), 'a broadcast is lost, doubled, or an answer is taken for one');
        w.data(bytesOf(new cls(m).pack(x.seq))); await w.settle(); H.check(x.t.n === 1 && x.hit.length === 1, 'a second answer is delivered');
    }
    H.check(w.consumer._pending === undefined || w.consumer._pending.size === 0, 'a request stays in the table of the pending ones after its answer'); H.reach(1);
};
E.ans_order = () => outstanding(H.bound(2, 3), ['ping', 'ask'], false);
E.ans_kinds = () => outstanding(2, ['ping', 'ask', 'hping', 'tick', 'tock'], false);
E.ans_cut = () => outstanding(1, ['ping', 'ask', 'hping', 'tick'], true);
/// an answer of a kind the request does not have
E.ans_wrong = async () => { const w = new Peer(); await w.open('me'); const k = H.pick(Object.keys(KIND)), x = send(w, k); await w.settle(); sentOne(w, x); w.data(bytesOf(WRONG[k]().pack(x.seq))); await w.settle(); H.check(x.t.state === 'failed', 'an answer of another kind is accepted'); H.check(x.hit.every(([h]) => h === 'err' && (k === 'tick' || k === 'tock')), 'a handler is called with an answer of another kind'); const y = send(w, 'ping'); await w.settle(); sentOne(w, y); const m = { n: H.uint(2) }; w.data(bytesOf(new Q.Pong(m).pack(y.seq))); await w.settle(); answered(y, 'response', m); H.reach(1); };
/// a beacon the producer refuses
E.ans_beacon = async () => { const w = new Peer(); await w.open('me'); const x = send(w, H.pick(['tick', 'tock'])); await w.settle(); sentOne(w, x); const bad = H.choice(2) === 1; w.data(bytesOf(new I.BeaconConfirmation({ error: bad ? 'no' : undefined }).pack(x.seq))); await w.settle(); H.check(x.t.state === (bad ? 'failed' : 'done') && x.hit.length === 1 && x.hit[0][0] === (bad ? 'err' : 'response'), 'the confirmation of a beacon is misread'); H.reach(1); };
/// one request object: sent again after its answer, refused while it waits, dead after destroy; a transport which fails
E.ans_state = async () => {
    const w = new Peer(); await w.open('me'); const k = H.pick(['ping', 'ask', 'tick']), [h, f] = KIND[k].ok[0], x = send(w, k); await w.settle(); sentOne(w, x); const again = track(x.r.send()); await w.settle(); H.check(again.state === 'failed' && w.sent.length === 1, 'a request is sent again while it waits for its answer');
    if (H.choice(2)) { x.r.destroy(); const [cls, m] = f(); w.data(bytesOf(new cls(m).pack(x.seq))); await w.settle(); H.check(x.t.state === 'failed' && x.hit.length === 0, 'the answer of a destroyed request is delivered'); const t = track(x.r.send()); await w.settle(); H.check(t.state === 'failed' && w.sent.length === 1, 'a destroyed request is sent'); return H.reach(1); }
    for (let i = 0; i < 2; i++) { const [cls, m] = f(); x.seq = w.seq(w.sent.length - 1); w.data(bytesOf(new cls(m).pack(x.seq))); await w.settle(); answered(x, h, m); x.hit.length = 0; x.t = track(x.r.send()); await w.settle(); H.check(w.sent.length === i + 2 && H.eqBytes(w.sent[i + 1].slice(0, 4), w.sent[0].slice(0, 4)) && H.eqBytes(w.sent[i + 1].slice(HEAD), w.sent[0].slice(HEAD)), 'a request cannot be sent again after its answer'); H.check(w.seq(i + 1) !== w.seq(i), 'a sequence is used twice'); } H.reach(1);
};
E.ans_unsent = async () => { const w = new Peer(); await w.open('me'); const k = H.pick(['ping', 'ask', 'hping', 'tick', 'tock']); w.fail = () => new Error('closed'); const x = send(w, k); await w.settle(); H.check(x.t.state === 'failed' && w.sent.length === 0 && x.hit.length === 0, 'a request which was not sent does not fail'); w.fail = () => undefined; x.i = 0; x.t = track(x.r.send()); await w.settle(); H.check(x.t.state === 'open' && w.sent.length === 1, 'a request which failed to be sent cannot be sent again'); const [h, f] = KIND[k].ok[0], [cls, m] = f(); w.data(bytesOf(new cls(m).pack(w.seq(0)))); await w.settle(); answered(x, h, m); H.reach(1); };
/// a request without a consumer
/// a connection which is lost takes the requests with it which wait for an answer; they can be sent again afterwards
E.ans_lost = async () => {
    const w = new Peer(); await w.open('me'); const xs = []; for (let i = 0; i < 2; i++) { xs.push(send(w, H.pick(['ping', 'ask', 'tick']))); await w.settle(); sentOne(w, xs[i]); } const k = H.choice(3);
    if (k) { const x = xs[k - 1], [h, f] = KIND[x.k].ok[0], [cls, m] = f(); w.data(bytesOf(new cls(m).pack(x.seq))); await w.settle(); answered(x, h, m); }
    w.events.disconnected.emit(); await w.settle(); xs.forEach((x, i) => H.check(x.t.state === (i === k - 1 ? 'done' : 'failed'), 'a request is left waiting after the connection is lost')); await w.open('again'); const x = xs[0], n = w.sent.length; x.hit.length = 0; x.t = track(x.r.send()); await w.settle(); H.check(w.sent.length === n + 1, 'a request cannot be sent after a new connection'); const [h, f] = KIND[x.k].ok[0], [cls, m] = f(); w.data(bytesOf(new cls(m).pack(w.seq(n)))); await w.settle(); answered(x, h, m); H.reach(1);
};
E.ans_none = async () => { C.reset(); const k = H.pick(Object.keys(KIND)), r = KIND[k].make(undefined, undefined), t = track(r.send()); H.check((await H.drain()).length === 0, 'a rejected promise is left without a handler'); H.check(t.state === 'failed', 'a request without a consumer does not fail'); H.reach(1); };
/// a broadcast is delivered once, to those who listen for it, in the order of arrival
E.bro_order = async () => {
    const w = new Peer(); await w.open('me'); const kinds = { Note: [Q.Note, () => ({ n: H.uint(1) })], Extra: [Q.Extra, () => ({ s: H.pick(['', 'x']) })], GHNote: [Q.G.H.Note, () => ({ n: H.uint(1) })], Mail: [Q.Mail, () => ({ n: H.uint(1) })], none: [Q.Pong, () => ({ n: H.uint(2) })] }, want = []; let b = [];
    for (let i = 0; i < H.bound(3, 4); i++) { const k = H.pick(Object.keys(kinds)), m = kinds[k][1](), seq = H.pick([0, 77]); b = b.concat(bytesOf(new kinds[k][0](m).pack(seq))); if (k !== 'none') want.push([k, m]); }
    const at = H.choice(3) * 20; if (at) w.data(b.slice(0, at)); w.data(b.slice(at)); await w.settle(); H.check(w.got.length === want.length, 'a broadcast is lost or doubled'); want.forEach(([k, m], i) => H.check(w.got[i][0] === k && equal(w.got[i][1], m), 'a broadcast is delivered as another one, or out of order')); H.reach(1);
};
/// a bad message between good ones
E.bro_bad = async () => {
    const w = new Peer(); await w.open('me'); const x = send(w, 'ping'); await w.settle(); sentOne(w, x); const m = { n: H.uint(2) }, v = { n: H.uint(1) }; const tail = bytesOf(new Q.Note(v).pack(0)).slice(4, 18);
    const n = H.choice(3), junk = H.pick(['id', 'sign', 'kind', 'body']), id = junk === 'id' ? 60000 : junk === 'kind' ? Q.Kind.getId() : Q.Note.getId(), bad = M.le(id, 4).concat(junk === 'sign' ? [tail[0] ^ 1, ...tail.slice(1)] : tail, M.le(n, 8), H.bytes(n)); const b = bytesOf(new Q.Note(v).pack(0)).concat(bad, bytesOf(new Q.Pong(m).pack(x.seq)), bytesOf(new Q.Note(v).pack(0))), at = H.choice(b.length);
    if (at) w.data(b.slice(0, at)); w.data(b.slice(at)); await w.settle(); answered(x, 'response', m); const good = w.got.filter(([k, q]) => k === 'Note'); H.check(good.length >= 2 && H.same(good[0][1].n, v.n) && H.same(good[good.length - 1][1].n, v.n), 'a message which cannot be read takes others with it'); H.reach(1);
};
// ---------------------------------------------------------------- P26: nothing the producer sends breaks the consumer
const far = async f => { const w = new Peer(), st = H.pick(['new', 'key', 'ready', 'pending']); if (st === 'key') { w.events.connected.emit(); await w.settle(); } if (st === 'ready' || st === 'pending') await w.open('me'); const x = st === 'pending' ? send(w, 'ping') : undefined; await w.settle(); await f(w, x); await w.settle(); H.reach(1); };
E.tot_far_bytes = () => far(async w => { w.data(H.bytes(H.choice(H.bound(6, 8)))); await w.settle(); w.data(H.bytes(H.choice(3))); });
E.tot_far_package = () => far(async (w, x) => { const n = H.choice(H.bound(3, 4)); w.data(H.bytes(4).concat(H.bytes(2), x && H.choice(2) ? M.le(w.seq(w.sent.length - 1), 4) : H.bytes(4), M.le(0, 8), M.le(n, 8), H.bytes(n))); });
E.tot_far_body = () => far(async (w, x) => { const m = H.pick([Q.Pong, I.SelfKeyResponse, I.HashResponse, I.BeaconConfirmation, Q.Note, Q.G.H.Pong, Q.Kind, Q.Err]), n = H.choice(H.bound(5, 7)), h = bytesOf(new Q.Pong({ n: 0 }).pack(w.sent.length && H.choice(2) ? w.seq(w.sent.length - 1) : 0)).slice(4, 18); w.data(M.le(m.getId(), 4).concat(h, M.le(n, 8), H.bytes(n))); });
E.tot_far_event = () => far(async w => { for (let i = 0; i < 3; i++) { const k = H.pick(['connected', 'disconnected', 'error', 'data']); w.events[k].emit(k === 'error' ? new Error('e') : k === 'data' ? H.ab(bytesOf(new I.SelfKeyResponse({ uuid: H.pick(['', ' ', 'x']) }).pack(w.sent.length ? w.seq(w.sent.length - 1) : 1))) : undefined); await w.settle(); } });

// ---------------------------------------------------------------- P27: both ends together
/// consumers and a producer joined by streams which are cut anywhere and delivered in any order between the streams
class Net {
    constructor(n) {
        this.w = new F.World(); this.peers = []; for (let i = 0; i < n; i++) { const p = new Peer({ global: false }); p.uuid = 'peer-' + i; p.up = []; p.down = []; p.wire = b => { p.up = p.up.concat(bytesOf(b)); }; this.peers.push(p); }
        const send = this.w.server.send; this.w.server.send = (b, u) => { const p = this.peers.find(q => q.uuid === u); if (p) p.down = p.down.concat(bytesOf(b)); return send(b, u); };
    }
    async settle() { await this.w.settle(); }
    /// carries up to n bytes of a stream
    async move(p, dir, n) { const b = p[dir].slice(0, n); p[dir] = p[dir].slice(n); if (b.length) { if (dir === 'up') this.w.data(p.uuid, b); else p.data(b); } await this.settle(); }
    async run() { for (let k = 0; k < 40; k++) { let any = false; for (const p of this.peers) for (const d of ['up', 'down']) if (p[d].length) { any = true; await this.move(p, d, p[d].length); } if (!any) return; } H.check(false, 'the two ends never come to rest'); }
    async open() { for (const p of this.peers) { this.w.connect(p.uuid); p.events.connected.emit(); await this.settle(); } await this.run(); for (const p of this.peers) { H.check(p.ready.length === 1 && p.ready[0] === p.uuid && p.consumer.uuid === p.uuid, 'a consumer does not get ready'); p.got = []; p.sent = []; } H.check(this.w.dropped.length === 0 && this.w.errors.length === 0, 'the handshake of the two ends fails'); this.w.clear(); }
}
E.e2e_handshake = async () => {
    const net = new Net(2), [a, b] = net.peers; for (const p of net.peers) { net.w.connect(p.uuid); p.events.connected.emit(); } await net.settle();
    for (let i = 0; i < H.bound(4, 6); i++) { const p = H.pick([a, b]), d = H.pick(['up', 'down']); await net.move(p, d, H.pick([1, 20, 1000])); H.check(net.peers.every(q => q.ready.length === 0 || q.ready[0] === q.uuid), 'a consumer gets the uuid of another one'); }
    await net.run(); for (const p of net.peers) { H.check(p.ready.length === 1 && p.consumer.uuid === p.uuid, 'a consumer does not get ready'); const id = net.w.producer._consumers.get(p.uuid).getIdentification(); H.check(H.same(id.getKey().id, p.key.id) && id.getKey().name === 'k', 'the producer knows another key'); } H.check(net.w.dropped.length === 0 && net.w.errors.length === 0, 'the handshake of the two ends fails'); H.reach(1);
};
/// requests of two consumers: each gets the answer to its own, whatever is delivered first
E.e2e_requests = async () => {
    const net = new Net(2), [a, b] = net.peers; await net.open(); const xs = [], late = [], hold = H.choice(2) === 1; net.w.answer = (name, m, s, i) => { const r = F.reply(name, m, s); return hold ? new Promise(f => late.push(() => f(r))) : Promise.resolve(r); };
    for (let i = 0; i < 3; i++) { const p = H.pick([a, b]), x = send(p, H.pick(['ping', 'ask', 'tick'])); x.p = p; xs.push(x); await net.settle(); }
    for (let i = 0; i < 2; i++) { const p = H.pick([a, b]); await net.move(p, 'up', H.pick(H.bound(2, 3) === 2 ? [10, 1000] : [10, 27, 1000])); } await net.run(); while (late.length) { late.splice(H.choice(late.length), 1)[0](); await net.settle(); } await net.run();
    for (const x of xs) { const m = x.k === 'ping' ? { n: x.r.n } : x.k === 'ask' ? { n: x.r.n } : {}; answered(x, x.k === 'ping' ? 'response' : x.k === 'ask' ? 'pong' : 'response', m); } H.check(net.w.calls.length === 3, 'a request does not reach its handler once'); H.check(a.got.length === 0 && b.got.length === 0, 'an answer is taken for a broadcast'); H.check(net.w.dropped.length === 0 && net.w.errors.length === 0, 'a request fails'); H.reach(1);
};
/// broadcasts of an action and of an event reach the consumers they are meant for
E.e2e_broadcasts = async () => {
    const net = new Net(3), [a, b, c] = net.peers; await net.open(); const to = net.peers.filter(() => H.choice(2) === 1).map(p => p.uuid), n = H.uint(1), opt = H.choice(2) === 1; net.w.answer = (name, m, s) => { const r = new F.R.ask(new P.G.Yes({ n })); r.broadcast(to).Note(new P.Note({ n })); r.broadcast(s.filter.except(s.consumer.uuid())).GHNote(new P.G.H.Note({ n })); if (opt) r.broadcast(to).Extra(new P.Extra({ s: 'x' })); return Promise.resolve(r); };
    const x = send(b, 'ask'); await net.settle(); await net.run(); answered(x, 'yes', { n }); for (const p of net.peers) { const me = to.includes(p.uuid), k = p.got.map(g => g[0]); H.check(k.filter(q => q === 'Note').length === (me ? 1 : 0) && k.filter(q => q === 'Extra').length === (me && opt ? 1 : 0) && k.filter(q => q === 'GHNote').length === (p === b ? 0 : 1) && k.length === (me ? 1 : 0) + (me && opt ? 1 : 0) + (p === b ? 0 : 1), 'a broadcast does not reach exactly the chosen consumers'); for (const [q, m] of p.got) H.check(q === 'Extra' ? m.s === 'x' : H.same(m.n, n), 'a broadcast arrives with another content'); } void c; H.reach(1);
};
