// Entries over the generated TypeScript producer: P20 (gate_), P21 (req_, bea_, evt_), P22 (con_), P25 (key_), P26 (tot_).
const C = require('clibri'), U = require('users').U, M = require('model'), P = require('p/implementation/protocol'), { Producer } = require('p/implementation'), { Context } = require('p/context');
const S = M.parse(require('schema').flow), I = P.InternalServiceGroup, E = exports;
const R = { ping: require('p/implementation/responses/ping').Response, ask: require('p/implementation/responses/g.ask').Response, hping: require('p/implementation/responses/g.h.ping').Response };
const O = { alarm: require('p/implementation/events/alarm').Output, fire: require('p/implementation/events/g.fire').Output, connected: require('p/implementation/events/connected').Output, disconnected: require('p/implementation/events/disconnected').Output };
const HEAD = 26, HASH = Producer.hash, A = 'client-a', B = 'client-b', D = 'client-c';
const bytesOf = x => H.raw(x);

// ---------------------------------------------------------------- the world around a producer
const quiet = () => Promise.resolve();
class World {
    constructor(options) {
        const w = this;
        w.sent = []; w.dropped = []; w.calls = []; w.errors = []; w.on = []; w.off = []; w.refuse = () => undefined; w.after = [];
        w.events = { ready: new C.Subject(), shutdown: new C.Subject(), connected: new C.Subject(), disconnected: new C.Subject(), error: new C.Subject(), received: new C.Subject() };
        w.server = {
            getEvents: () => w.events, listen: () => Promise.resolve(), shutdown: () => Promise.resolve(),
            send(buffer, uuid) { const b = bytesOf(buffer); w.sent.push({ uuid, b }); w.after.push(['sent', uuid, b]); const e = w.refuse(uuid, b); return e === undefined ? Promise.resolve() : e; },
            disconnect(uuid) { w.dropped.push(uuid); w.after.push(['dropped', uuid]); return Promise.resolve(); },
        };
        for (const k of Object.keys(U)) delete U[k];
        U.ready = U.shutdown = () => Promise.resolve();
        U.event = (name, ...a) => U[name](...a);
        U.error = (error, context, producer, consumer, filter) => { w.errors.push({ type: error.getErrType ? error.getErrType() : 'server', uuid: consumer && consumer.uuid() }); return Promise.resolve(); };
        U.connected = (consumer, filter) => { w.on.push({ uuid: consumer.uuid(), all: filter.all() }); return Promise.resolve(w.hello ? w.hello(filter) : new O.connected().broadcast([]).Extra(new P.Extra({ s: '' }))); };
        U.disconnected = (consumer, filter) => { w.off.push({ uuid: consumer.uuid(), all: filter.all(), id: consumer }); return Promise.resolve(w.bye ? w.bye(filter) : new O.disconnected().broadcast([]).Mail(new P.Mail({ n: 0 }))); };
        U.call = (name, msg, scope) => { const i = w.calls.length; w.calls.push({ name, msg, uuid: scope.consumer.uuid(), scope }); w.after.push(['call', i]); return w.answer(name, msg, scope, i); };
        w.answer = (name, msg) => Promise.resolve(reply(name, msg));
        w.producer = new Producer(w.server, new Context(), options === undefined ? undefined : new C.Options(options));
    }
    connect(uuid) { this.events.connected.emit(uuid); }
    lose(uuid) { this.events.disconnected.emit(uuid); }
    data(uuid, b) { this.events.received.emit({ uuid, buffer: H.ab(b) }); }
    /// runs what is pending; nothing may be left without a handler
    async settle() { const l = await H.drain(); H.check(l.length === 0, 'a rejected promise is left without a handler'); }
    async open(uuid) {
        this.connect(uuid); this.data(uuid, bytesOf(new P.Key({ id: 1 }).pack(1))); this.data(uuid, bytesOf(hash().pack(2)));
        await this.settle(); this.clear();
    }
    clear() { this.sent = []; this.dropped = []; this.calls = []; this.errors = []; this.on = []; this.off = []; this.after = []; }
}
const reply = (name, msg) => name === 'ping' ? new R.ping(new P.Pong({ n: msg.n })) : name === 'g.ask' ? new R.ask(new P.Pong({ n: msg.n })) : name === 'g.h.ping' ? hdone(msg.n, []) : undefined;
const hdone = (n, to) => { const r = new R.hping(new P.G.H.Pong({ n })); return r.broadcast ? r.broadcast(to).Mail(new P.Mail({ n })) : r; };
const hash = (p, w) => new I.HashRequest({ protocol: p === undefined ? HASH.PROTOCOL : p, workflow: w === undefined ? HASH.WORKFLOW : w });
/// a package the producer sent: to whom, in answer to what, with which content
const expect = (s, uuid, cls, seq, value, what) => {
    what = what || 'an answer';
    H.check(s !== undefined, what + ' is missing');
    H.check(s.uuid === uuid, what + ' goes to another client');
    H.check(s.b.length >= HEAD && H.eqBytes(s.b.slice(0, 4), M.le(cls.getId(), 4)), what + ' is another message');
    H.check(H.eqBytes(s.b.slice(6, 10), M.le(seq, 4)), what + ' carries another sequence');
    if (value !== undefined) H.check(H.eqBytes(s.b.slice(HEAD), bytesOf(new cls(value).encode())), what + ' has another content');
};

// ---------------------------------------------------------------- P20: nothing but the handshake before the handshake
const KINDS = ['key', 'hash', 'bad', 'ping', 'ask', 'hping', 'tick', 'tock', 'other', 'answer'];
const SEL = { ping: [P.Ping, 'ping'], ask: [P.G.Ask, 'g.ask'], hping: [P.G.H.Ping, 'g.h.ping'], tick: [P.Tick, 'tick'], tock: [P.G.Tock, 'g.tock'] };
/// a message of the kind, with symbolic content and sequence
const make = k => {
    const seq = H.uint(4); let m;
    switch (k) {
        case 'key': m = new P.Key({ id: H.uint(2) }); break;
        case 'hash': m = hash(); break;
        case 'bad': m = H.choice(2) ? hash('x', undefined) : hash(undefined, HASH.WORKFLOW.slice(0, 63)); break;
        case 'other': m = new P.Other({ n: H.uint(1) }); break;
        case 'answer': m = new P.Pong({ n: H.uint(2) }); break;
        default: m = new SEL[k][0]({ n: k === 'ping' ? H.uint(2) : H.uint(1) });
    }
    return { k, m, seq, b: bytesOf(m.pack(seq)) };
};
/// what has to follow from a message, by the description of the protocol
class Gate {
    constructor(uuid) { this.uuid = uuid; this.key = false; this.hash = false; this.calls = 0; this.out = []; this.drops = 0; this.errors = []; }
    step(x) {
        if (x.k === 'key' && !this.hash) { this.key = true; this.out.push([I.SelfKeyResponse, x.seq, { uuid: this.uuid }]); }
        else if (x.k === 'hash') { this.hash = true; this.out.push([I.HashResponse, x.seq, { error: undefined }]); }
        else if (x.k === 'bad') { this.out.push([I.HashResponse, x.seq, 'error']); this.drops++; this.errors.push('hash'); }
        else if (!this.hash) { this.drops++; this.errors.push('HashError'); }
        else if (!this.key) { this.drops++; this.errors.push('KeyError'); }
        else if (SEL[x.k]) this.calls++;
        else { this.drops++; this.errors.push('ProcessingIncomeData'); }
    }
}
const compare = (w, gs) => {
    for (const g of gs) {
        H.check(w.calls.filter(c => c.uuid === g.uuid).length === g.calls, g.calls === 0 ? 'a handler is called for a client which did not complete the handshake' : 'a handler is not called exactly once for a message of a client which completed the handshake');
        H.check(w.dropped.filter(u => u === g.uuid).length >= g.drops && (g.drops > 0 || !w.dropped.includes(g.uuid)), 'traffic before the handshake neither leads to an answer nor to a disconnection, or a client is dropped without a reason');
        const o = w.sent.filter(s => s.uuid === g.uuid && hs(s)); H.check(o.length === g.out.length, 'the number of answers to the handshake is wrong');
        g.out.forEach(([cls, seq, v], i) => { expect(o[i], g.uuid, cls, seq, v === 'error' ? undefined : v, 'an answer to the handshake'); if (v === 'error') { const r = I.HashResponse.from(H.ab(o[i].b.slice(HEAD))); H.check(!(r instanceof Error) && r.error !== undefined, 'a wrong hash is confirmed'); } });
        const e = w.errors.filter(x => x.uuid === g.uuid).map(x => x.type); H.check(e.length === g.errors.length && e.every((t, i) => t === g.errors[i] || g.errors[i] === 'hash' && (t === 'ProtocolHash' || t === 'WorkflowHash')), 'rejected traffic is not reported as an error of this kind');
    }
    H.check(w.sent.every(s => gs.some(g => g.uuid === s.uuid)), 'something is sent to another client');
};
const SVC = [I.SelfKeyResponse, I.HashResponse]; const hs = s => SVC.some(c => H.eqBytes(s.b.slice(0, 4), M.le(c.getId(), 4)));
const gate = async (n, kinds) => {
    const w = new World(), g = new Gate(A); w.connect(A);
    for (let i = 0; i < n; i++) { const x = make(H.pick(kinds)); g.step(x); w.data(A, x.b); await w.settle(); compare(w, [g]); if (g.calls) H.reach(2); }
    H.reach(1);
};
E.gate_steps = () => gate(H.bound(3, 4), KINDS);
E.gate_long = () => gate(H.bound(4, 6), ['key', 'hash', 'bad', 'ping']);
/// all in one chunk, or cut anywhere into two
const gateChunk = async (n, kinds, cut) => {
    const w = new World(), g = new Gate(A), xs = []; w.connect(A);
    for (let i = 0; i < n; i++) xs.push(make(H.pick(kinds)));
    const b = [].concat(...xs.map(x => x.b)), at = cut ? H.choice(b.length) : 0;
    if (at) w.data(A, b.slice(0, at)); w.data(A, b.slice(at)); await w.settle();
    let stop = xs.findIndex(x => x.k === 'other' || x.k === 'answer'); void stop;
    for (const x of xs) g.step(x); compare(w, [g]); if (g.calls) H.reach(2); H.reach(1);
};
E.gate_chunk = () => gateChunk(H.bound(3, 4), KINDS, false);
E.gate_cut = () => gateChunk(3, ['key', 'hash', 'bad', 'ping'], true);
/// any pair of hashes: only the right one opens the gate
E.gate_hash = async () => {
    const w = new World(); w.connect(A); w.data(A, bytesOf(new P.Key({ id: 7 }).pack(1)));
    const text = good => H.choice(2) ? good : H.str(Array(H.pick([64, 0, 1, 63, 65])).fill(1)), p = text(HASH.PROTOCOL), q = text(HASH.WORKFLOW);
    const ok = H.and(H.same(p, HASH.PROTOCOL), H.same(q, HASH.WORKFLOW)); w.data(A, bytesOf(hash(p, q).pack(2))); await w.settle();
    w.data(A, bytesOf(new P.Ping({ n: 5 }).pack(3))); await w.settle();
    if (w.calls.length) { H.check(ok, 'a client with another protocol or workflow is accepted'); H.reach(2); } else { H.check(H.not(ok), 'a client with the right protocol and workflow is refused'); H.check(w.dropped.includes(A), 'a client with another protocol or workflow is neither told nor dropped'); }
    H.reach(1);
};
/// the handshake of a client opens the gate for no other
E.gate_two = async () => {
    const w = new World(), g = { [A]: new Gate(A), [B]: new Gate(B) }; w.connect(A); w.connect(B);
    for (let i = 0; i < H.bound(4, 5); i++) { const u = H.pick([A, B]), x = make(H.pick(['key', 'hash', 'ping'])); g[u].step(x); w.data(u, x.b); await w.settle(); }
    compare(w, [g[A], g[B]]); if (w.calls.length) H.reach(2); H.reach(1);
};
/// a client which was not given the key of the producer, by the strategy chosen
E.gate_assigned = async () => {
    const how = H.pick(['Log', 'EmitError', 'Disconnect', 'EmitErrorAndDisconnect', 'Ignore']), w = new World({ producerIndentificationStrategy: how }); await w.open(A);
    const given = H.choice(2); if (given) w.producer._consumers.get(A).getIdentification().assign(new P.Grant({ name: 'x', level: H.uint(1) }), H.choice(2) === 1);
    const x = make(H.pick(['ping', 'tick', 'ask'])); w.data(A, x.b); await w.settle();
    const pass = given || how === 'Log' || how === 'Ignore';
    H.check(w.calls.length === (pass ? 1 : 0), pass ? 'a client is refused though the strategy lets it pass' : 'a client without an assigned key reaches a handler');
    H.check(w.dropped.length === (!pass && how.endsWith('isconnect') ? 1 : 0), 'a client without an assigned key is not treated by the chosen strategy');
    H.check(w.errors.filter(e => e.type === 'AssignedKeyError').length === (!pass && how.startsWith('Emit') ? 1 : 0), 'a missing assigned key is not reported by the chosen strategy'); H.reach(1);
};

// ---------------------------------------------------------------- P21: every request is answered once, to its sender
const STRATEGY = ['EmitErrorAndDisconnect', 'EmitError', 'Disconnect', 'Log'];
const failed = (w, uuid, how, n, what) => {
    H.check(w.errors.filter(e => e.uuid === uuid && e.type === 'ProcessingIncomeData').length === (how.startsWith('Emit') ? n : 0), what + ': the error is not reported as the strategy says');
    H.check(w.dropped.filter(u => u === uuid).length === (how.endsWith('isconnect') ? n : 0), what + ': the client is not treated as the strategy says');
};
/// a request of the kind: bytes and the answer its handler gives
const REQ = { ping: P.Ping, ask: P.G.Ask, hping: P.G.H.Ping, tick: P.Tick, tock: P.G.Tock };
const ask = (k, seq) => { const n = k === 'ping' ? H.uint(2) : H.uint(1), m = new REQ[k]({ n }); return { k, n, seq, b: bytesOf(m.pack(seq)) }; };
/// what the handler returns: the response, and what has to reach the client in consequence (null: a failure)
const outcome = (k, how) => {
    const n = H.uint(1);
    switch (how) {
        case 'err': return k === 'ping' ? [new R.ping(new P.Err({ text: 'e' })), P.Err, { text: 'e' }] : k === 'ask' ? [new R.ask(new P.G.No({ why: 'w' })), P.G.No, { why: 'w' }] : k === 'hping' ? [new R.hping(new P.Err({ text: 'e' })), P.Err, { text: 'e' }] : null;
        case 'ok': return k === 'ping' ? [new R.ping(new P.Pong({ n })), P.Pong, { n }] : k === 'ask' ? [new R.ask(new P.Pong({ n })), P.Pong, { n }] : k === 'hping' ? [hdone(n, []), P.G.H.Pong, { n }] : [undefined, I.BeaconConfirmation, { error: undefined }];
        default: return null;
    }
};
/// requests of two clients; the handlers finish in any order and in any way
const requests = async (n, kinds, hows, way) => {
    const how = H.pick(way), w = new World({ consumerErrorHandelingStrategy: how }); await w.open(A); await w.open(B); w.clear();
    const open = [], xs = []; w.answer = (name, msg, scope, i) => new Promise((a, b) => { open.push({ a, b, name, msg, uuid: scope.consumer.uuid() }); });
    for (let i = 0; i < n; i++) {
        const x = ask(H.pick(kinds), H.uint(4)); x.uuid = H.pick([A, B]); xs.push(x); w.data(x.uuid, x.b); await w.settle();
        H.check(open.length === i + 1, 'the handler of a request is not called exactly once'); const o = open[i];
        H.check(o.uuid === x.uuid && H.same(o.msg.n, x.n) && o.name === SEL[x.k][1], 'the handler gets another request, or another client'); x.o = o;
    }
    const left = xs.slice(), lost = { [A]: 0, [B]: 0 };
    while (left.length) {
        const x = left.splice(H.choice(left.length), 1)[0], r = outcome(x.k, H.pick(hows)); w.sent = [];
        if (r === null) { x.o.b(new Error('no')); lost[x.uuid]++; } else x.o.a(r[0]);
        await w.settle();
        if (r === null) H.check(w.sent.length === 0, 'a request whose handler failed is answered'); else { H.check(w.sent.length === 1, 'a request is not answered exactly once'); expect(w.sent[0], x.uuid, r[1], x.seq, r[2]); H.reach(2); }
        for (const u of [A, B]) failed(w, u, how, lost[u], 'a handler which fails');
    }
    H.check(open.length === n, 'a handler is called without a request'); H.reach(1);
};
E.req_order = () => requests(H.bound(3, 4), ['ping', 'ask'], ['ok'], STRATEGY.slice(0, 1));
E.req_mixed = () => requests(2, ['ping', 'ask', 'hping', 'tick', 'tock'], ['ok', 'err', 'reject'], STRATEGY.slice(0, 1));
E.req_strategy = () => requests(2, ['ping', 'tick'], ['ok', 'reject'], STRATEGY);
/// a request is answered whatever it shares a chunk with, and however the chunks are cut
E.req_chunk = async () => {
    const how = H.pick(STRATEGY), w = new World({ consumerErrorHandelingStrategy: how }); await w.open(A);
    const foreign = bytesOf(new P.Other({ n: H.uint(1) }).pack(1)), unknown = M.le(60000, 4).concat([0, 0], M.le(9, 4), M.le(0, 8), M.le(2, 8), H.bytes(2));
    const parts = [], seqs = []; let bad = 0, before = 0;
    for (let i = 0; i < 3; i++) { const k = H.pick(['ping', 'foreign', 'unknown']); if (k === 'ping') { const x = ask('ping', H.uint(4)); parts.push(x.b); seqs.push(x); if (!bad) before++; } else { parts.push(k === 'foreign' ? foreign : unknown); bad++; } }
    const b = [].concat(...parts), at = H.choice(b.length); if (at) w.data(A, b.slice(0, at)); w.data(A, b.slice(at)); await w.settle();
    const stay = !how.endsWith('isconnect'), k = w.calls.length; // a client which is to be dropped need not be served any further
    H.check(k <= seqs.length && k >= (stay ? seqs.length : before), 'a request in a chunk with a message which cannot be processed is lost'); for (let i = 0; i < k; i++) expect(w.sent[i], A, P.Pong, seqs[i].seq, { n: seqs[i].n });
    H.check(w.sent.length === k, 'a message which cannot be processed is answered'); H.check(bad > 0 ? how === 'Log' || w.errors.length + w.dropped.length > 0 : w.errors.length + w.dropped.length === 0, 'an error is not reported, or without a reason'); if (bad === 0) H.reach(2); H.reach(1);
};
const subset = (l, n) => l.filter(() => H.choice(2) === 1).slice(0, n === undefined ? l.length : n);
/// the broadcasts of an action: exactly those the handler gave, to exactly the clients it chose, after the answer
E.req_action = async () => {
    const how = H.pick(STRATEGY), w = new World({ consumerErrorHandelingStrategy: how }); await w.open(A); await w.open(B); await w.open(D); w.clear();
    const n = H.uint(1), all = { Note: [P.Note, P.Note.getId() ], Extra: [P.Extra], GHNote: [P.G.H.Note] }, bs = [], val = { Note: { n: H.uint(1) }, Extra: { s: 'x' }, GHNote: { n: H.uint(1) } };
    const to = H.pick([[], [B], [A, D], [A, B, D], ['gone', D]]), names = H.pick([['Note', 'GHNote'], ['Note', 'Extra', 'GHNote'], ['GHNote', 'Extra', 'Note'], ['Note'], ['GHNote'], ['Extra'], []]);
    w.answer = (name, msg, scope) => { const r = new R.ask(new P.G.Yes({ n })); for (const k of names) { r.broadcast(k === 'Extra' ? [A] : to)[k](new all[k][0](val[k])); bs.push([k, k === 'Extra' ? [A] : to]); } return Promise.resolve(r); };
    const x = ask('ask', H.uint(4)); w.data(B, x.b); await w.settle();
    const good = names.includes('Note') && names.includes('GHNote');
    if (!good) { H.check(w.sent.length === 0, 'an answer without a required broadcast is sent'); failed(w, B, how, 1, 'an answer without a required broadcast'); return H.reach(1); }
    expect(w.sent[0], B, P.G.Yes, x.seq, { n }); let i = 1;
    for (const [k, uuids] of bs) for (const u of uuids) { const s = w.sent.slice(1).filter(q => q.uuid === u && H.eqBytes(q.b.slice(0, 4), M.le(all[k][0].getId(), 4))); H.check(s.length === 1, 'a broadcast does not reach every chosen client exactly once'); expect(s[0], u, all[k][0], 0, val[k], 'a broadcast'); i++; }
    H.check(w.sent.length === i, 'something is sent to a client which was not chosen'); H.check(w.dropped.length === 0 && w.errors.length === 0, 'a client is dropped without a reason'); H.reach(2); H.reach(1);
};
/// a broadcast which does not belong to the answer, or given twice, is refused; an action without broadcasts needs none
E.req_refuse = async () => {
    const w = new World(); await w.open(A); await w.open(B); w.clear(); const how = H.pick(['other', 'twice', 'later', 'none', 'err', 'missing']); let threw = false; const n = H.uint(1);
    w.answer = () => {
        const f = g => { try { g(); } catch (e) { threw = true; } };
        let r;
        switch (how) {
            case 'other': r = new R.ask(new P.Pong({ n })); f(() => r.broadcast([B]).Note(new P.Note({ n }))); break;
            case 'twice': r = new R.ask(new P.G.Yes({ n })).broadcast([B]).Note(new P.Note({ n })).broadcast([B]).GHNote(new P.G.H.Note({ n })); f(() => r.broadcast([A]).Note(new P.Note({ n: 1 }))); break;
            case 'later': r = new R.ask(new P.G.H.Pong({ n })).broadcast([B]).Mail(new P.Mail({ n })); break;
            case 'none': r = new R.ask(new P.Pong({ n })); break;
            case 'err': r = new R.ask(new P.G.No({ why: 'x' })); break;
            default: r = new R.ask(new P.G.H.Pong({ n }));
        }
        return Promise.resolve(r);
    };
    const x = ask('ask', H.uint(4)); w.data(A, x.b); await w.settle();
    H.check(threw === (how === 'other' || how === 'twice'), 'a broadcast which the action does not have, or a second one, is accepted');
    if (how === 'missing') { H.check(w.sent.length === 0 && w.errors.length === 1, 'an answer without its required broadcast is sent'); return H.reach(1); }
    expect(w.sent[0], A, how === 'twice' ? P.G.Yes : how === 'later' ? P.G.H.Pong : how === 'err' ? P.G.No : P.Pong, x.seq, how === 'err' ? { why: 'x' } : { n });
    const rest = w.sent.slice(1); H.check(rest.length === (how === 'twice' ? 2 : how === 'later' ? 1 : 0) && rest.every(s => s.uuid === B), 'other broadcasts than the given ones are sent'); if (how === 'later') expect(rest[0], B, P.Mail, 0, { n }, 'a broadcast'); H.reach(1);
};
/// an action which is the only one of its request has its broadcasts too
E.req_single = async () => {
    const w = new World(); await w.open(A); await w.open(B); w.clear(); const n = H.uint(1), to = H.pick([[], [B], [A, B]]), given = H.choice(2) === 1; let r;
    w.answer = () => { r = new R.hping(new P.G.H.Pong({ n })); H.check(typeof r.broadcast === 'function', 'the broadcasts of the only action of a request are lost'); if (given) r.broadcast(to).Mail(new P.Mail({ n })); return Promise.resolve(r); };
    const x = ask('hping', H.uint(4)); w.data(A, x.b); await w.settle();
    if (!given) { H.check(w.sent.length === 0 && w.errors.length === 1, 'an answer without its required broadcast is sent'); return H.reach(1); }
    expect(w.sent[0], A, P.G.H.Pong, x.seq, { n }); H.check(w.sent.length === 1 + to.length, 'the number of broadcasts is wrong'); to.forEach(u => expect(w.sent.slice(1).find(s => s.uuid === u), u, P.Mail, 0, { n }, 'a broadcast')); H.reach(1);
};
/// the deferred job runs once, after the answer; not at all if there is none. A transport which fails is an error of the request
E.req_deferred = async () => {
    const how = H.pick(STRATEGY), k = H.pick(['ping', 'ask', 'hping', 'tick']), bad = H.pick(['', 'handler', 'send']), w = new World({ consumerErrorHandelingStrategy: how }); await w.open(A); await w.open(B); w.clear(); let ran = 0, sent = -1;
    w.refuse = (u, b) => bad === 'send' && u === A ? Promise.reject(new Error('closed')) : undefined; const plain = w.answer;
    w.answer = (name, msg, scope, i) => { scope.deferred(() => { ran++; sent = w.sent.length; }); return bad === 'handler' ? Promise.reject(new Error('x')) : k === 'ask' ? Promise.resolve(new R.ask(new P.G.H.Pong({ n: 1 })).broadcast([B]).Mail(new P.Mail({ n: 2 }))) : plain(name, msg, scope, i); };
    const x = ask(k, H.uint(4)); w.data(A, x.b); await w.settle();
    if (bad) { H.check(ran === 0, 'the deferred job runs though the request failed'); failed(w, A, how, 1, 'a request which fails'); } else { H.check(ran === 1 && sent === (k === 'ask' ? 2 : 1), 'the deferred job does not run once, after the answer'); H.check(w.errors.length === 0 && w.dropped.length === 0, 'a request is reported as failed'); }
    H.check(w.dropped.every(u => u === A), 'another client is dropped'); H.reach(1);
};
/// one client which cannot be reached does not keep a broadcast from the others
E.req_unreachable = async () => {
    const w = new World(); await w.open(A); await w.open(B); await w.open(D); w.clear(); const gone = H.pick([[], [B], [D], [B, D]]), n = H.uint(1);
    w.refuse = (u, b) => gone.includes(u) ? Promise.reject(new Error('closed')) : undefined;
    w.answer = () => Promise.resolve(new R.ask(new P.G.H.Pong({ n })).broadcast([B, D]).Mail(new P.Mail({ n })));
    const x = ask('ask', H.uint(4)); w.data(A, x.b); await w.settle();
    H.check(w.sent.length === 3, 'a client which cannot be reached keeps a broadcast from the others'); expect(w.sent[0], A, P.G.H.Pong, x.seq, { n }); H.check(w.dropped.length === 0, 'the sender of a request is dropped because a broadcast failed'); H.reach(1);
};
/// events of the server: what the handler gives is sent to exactly the chosen clients, if nothing required is missing
E.evt_server = async () => {
    const w = new World(), on = subset([A, B, D]); for (const u of on) await w.open(u); w.clear();
    const n = H.uint(1), v = H.uint(1), fire = H.choice(2) === 1, given = fire ? H.pick([['Mail'], []]) : H.pick([['Note', 'GHNote'], ['Note', 'Extra', 'GHNote'], ['GHNote'], ['Note', 'Extra'], []]), seen = [], to = H.pick(['all', 'except', 'none']);
    const val = { Note: [P.Note, { n: v }], Extra: [P.Extra, { s: 's' }], GHNote: [P.G.H.Note, { n }], Mail: [P.Mail, { n: v }] }; let who = [];
    const go = o => (e, filter) => { seen.push(e); who = to === 'all' ? filter.all() : to === 'except' ? filter.except(A) : []; for (const k of given) o.broadcast(who)[k](new val[k][0](val[k][1])); return Promise.resolve(o); };
    U.alarm = (e, f) => go(new O.alarm())(e, f); U['g.fire'] = (e, f) => go(new O.fire())(e, f);
    if (fire) w.producer.events.gFire.emit(new P.G.Fire({ n })); else w.producer.events.alarm.emit(new P.Alarm({ n })); await w.settle();
    H.check(seen.length === 1 && H.same(seen[0].n, n), 'the handler of an event is not called exactly once with its event');
    const set = to === 'all' ? on : to === 'except' ? on.filter(u => u !== A) : []; H.check(who.length === set.length && set.every(u => who.includes(u)), 'a filter gives other clients than the connected ones');
    const good = fire ? given.length === 1 : given.includes('Note') && given.includes('GHNote');
    H.check(w.sent.length === (good ? given.length * set.length : 0), good ? 'a broadcast of an event does not reach exactly the chosen clients' : 'an event without a required broadcast is sent');
    if (good) for (const k of given) for (const u of set) { const s = w.sent.filter(q => q.uuid === u && H.eqBytes(q.b.slice(0, 4), M.le(val[k][0].getId(), 4))); H.check(s.length === 1, 'a broadcast does not reach every chosen client exactly once'); expect(s[0], u, val[k][0], 0, val[k][1], 'a broadcast'); }
    H.reach(1);
};

// ---------------------------------------------------------------- P22: who is connected
/// connections come and go in any order, also twice, also unknown ones
E.con_steps = async () => {
    const w = new World(), us = [A, B, D], on = []; const mk = u => { w.clear(); return u; };
    w.hello = f => new O.connected().broadcast(f.all()).Extra(new P.Extra({ s: 'hi' })); w.bye = f => new O.disconnected().broadcast(f.all()).Mail(new P.Mail({ n: 3 }));
    for (let i = 0; i < H.bound(4, 6); i++) {
        const u = mk(H.pick(us)), act = H.pick(['connect', 'lose', 'data']), known = on.includes(u);
        if (act === 'connect') { w.connect(u); if (!known) on.push(u); } else if (act === 'lose') { w.lose(u); if (known) on.splice(on.indexOf(u), 1); } else w.data(u, bytesOf(new P.Key({ id: 1 }).pack(9)));
        await w.settle(); const same = l => l.length === on.length && on.every(x => l.includes(x));
        H.check(w.on.length === (act === 'connect' && !known ? 1 : 0) && w.off.length === (act === 'lose' && known ? 1 : 0), 'a connection or a disconnection is not reported exactly once');
        for (const e of w.on.concat(w.off)) { H.check(e.uuid === u, 'another client is reported'); H.check(same(e.all), 'a filter gives other clients than the connected ones'); }
        const want = act === 'connect' && known ? 'Connection' : act === 'lose' && !known ? 'Disconnection' : act === 'data' && !known ? 'ProcessingIncomeData' : undefined;
        H.check(want === undefined ? w.errors.length === 0 : w.errors.length === 1 && w.errors[0].type === want, 'a contradictory event of the transport is not reported as such');
        if (act === 'data') { H.check(w.sent.length === (known ? 1 : 0), 'data of a client which is not connected is answered'); if (known) expect(w.sent[0], u, I.SelfKeyResponse, 9, { uuid: u }); }
        else { const k = w.on.length ? P.Extra : P.Mail, n = w.on.length + w.off.length ? on.length : 0; H.check(w.sent.length === n && (n === 0 || on.every(x => w.sent.some(s => s.uuid === x && H.eqBytes(s.b.slice(0, 4), M.le(k.getId(), 4))))), 'the broadcast of a connection does not reach exactly the chosen clients'); }
        H.check(w.dropped.length === 0, 'a client is dropped without a reason');
    }
    H.reach(1);
};
/// a client which comes back starts anew: no handshake, no rest of a package and no key is left of its last visit
E.con_again = async () => {
    const w = new World(), other = H.choice(2) === 1; await w.open(A); if (other) await w.open(B); w.clear();
    const x = bytesOf(new P.Ping({ n: H.uint(2) }).pack(5)), cut = H.choice(x.length); if (cut) w.data(A, x.slice(0, cut)); await w.settle(); H.check(w.calls.length === 0, 'half of a package is processed');
    w.lose(A); await w.settle(); w.connect(A); await w.settle(); w.clear();
    H.check(w.producer._consumers.get(A).getIdentification().getKey() === undefined, 'a client keeps the key of its last visit');
    const y = bytesOf(new P.Ping({ n: H.uint(2) }).pack(6)); w.data(A, y); await w.settle();
    H.check(w.calls.length === 0 && w.sent.length === 0 && w.dropped.length >= 1 && w.dropped.every(u => u === A), 'a client which comes back is served without a handshake');
    w.lose(A); await w.settle(); w.connect(A); await w.settle(); w.clear(); const k = H.uint(2);
    w.data(A, bytesOf(new P.Key({ id: k }).pack(1))); w.data(A, bytesOf(hash().pack(2))); const z = ask('ping', H.uint(4)); w.data(A, z.b); await w.settle();
    H.check(w.calls.length === 1 && H.same(w.calls[0].msg.n, z.n) && H.same(w.calls[0].scope.consumer.getKey().id, k), 'a client which comes back is not served after a handshake'); expect(w.sent[2], A, P.Pong, z.seq, { n: z.n });
    if (other) { w.clear(); const q = ask('ping', H.uint(4)); w.data(B, q.b); await w.settle(); expect(w.sent[0], B, P.Pong, q.seq, { n: q.n }); } H.reach(1);
};
/// pieces of the packages of two clients, interleaved, never mix
E.con_pieces = async () => {
    const w = new World(); await w.open(A); await w.open(B); w.clear(); const x = ask('ping', H.uint(4)), y = ask('ask', H.uint(4));
    const i = H.choice(x.b.length + 1), j = H.choice(y.b.length + 1), order = H.pick(['abAB', 'abBA', 'aAbB', 'baAB']); const put = { a: () => i && w.data(A, x.b.slice(0, i)), b: () => j && w.data(B, y.b.slice(0, j)), A: () => i < x.b.length && w.data(A, x.b.slice(i)), B: () => j < y.b.length && w.data(B, y.b.slice(j)) };
    for (const c of order) put[c](); await w.settle(); H.check(w.sent.length === 2 && w.errors.length === 0, 'pieces of the packages of two clients are mixed up'); expect(w.sent.find(s => s.uuid === A), A, P.Pong, x.seq, { n: x.n }); expect(w.sent.find(s => s.uuid === B), B, P.Pong, y.seq, { n: y.n }); H.reach(1);
};
/// filters select exactly the connected clients the callback accepts
E.con_filter = async () => {
    const w = new World(), us = [A, B, D], on = []; for (const u of us) if (H.choice(2)) { on.push(u); await w.open(u); } if (!on.length) return H.reach(1); w.clear();
    const from = H.pick(on), pick = subset(us), one = H.pick(us); let r; w.answer = (n, m, s) => { const f = s.filter; r = { all: f.all(), except: f.except(one), exclude: f.exclude(pick), filter: f.filter(i => pick.includes(i.uuid())) }; return Promise.resolve(new R.ping(new P.Pong({ n: 1 }))); };
    const gone = on.filter(u => u !== from && H.choice(2)); for (const u of gone) w.lose(u); await w.settle(); const now = on.filter(u => !gone.includes(u)), eq = (l, m) => l.length === m.length && m.every(u => l.includes(u));
    w.data(from, ask('ping', H.uint(4)).b); await w.settle();
    H.check(eq(r.all, now) && eq(r.except, now.filter(u => u !== one)) && eq(r.exclude, now.filter(u => !pick.includes(u))) && eq(r.filter, now.filter(u => pick.includes(u))), 'a filter gives other clients than the ones it is asked for'); H.reach(1);
};

// ---------------------------------------------------------------- P25: what is known about a client
const part = (o, names) => { const r = {}; for (const k of names) if (H.choice(2)) r[k] = o[k]; return r; };
E.key_given = async () => {
    const w = new World(); w.connect(A); const id = w.producer._consumers.get(A).getIdentification(); H.check(!id.hasKey() && id.getKey() === undefined && id.getAssigned() === undefined && id.uuid() === A, 'a new client is known already'); let last;
    for (let i = 0; i < H.bound(2, 3); i++) { const k = { id: H.uint(2), name: H.pick([undefined, 'n', 'mm']), flag: H.pick([undefined, true, false]) }; w.data(A, bytesOf(new P.Key(k).pack(i))); await w.settle(); last = k; const g = id.getKey(); H.check(id.hasKey() && H.and(H.same(g.id, k.id), H.and(g.name === k.name, g.flag === k.flag)), 'the key of a client is not the one it gave last'); expect(w.sent[i], A, I.SelfKeyResponse, i, { uuid: A }); }
    H.check(w.calls.length === 0, 'a handler is called'); H.reach(1);
};
/// keys are merged field by field unless they are replaced
E.key_merge = async () => {
    const w = new World(); w.connect(A); const id = w.producer._consumers.get(A).getIdentification(); let key, grant;
    for (let i = 0; i < H.bound(3, 3); i++) {
        const over = H.choice(2) === 1;
        if (H.choice(2)) { const v = { id: H.uint(2), name: H.pick([undefined, 'a' + i]), flag: H.pick([undefined, false, true]) }; H.check(id.key(new P.Key(v), over) === A, 'another client is identified'); if (over || !key) key = v; else key = { id: v.id, name: v.name === undefined ? key.name : v.name, flag: v.flag === undefined ? key.flag : v.flag }; }
        else { const v = { name: H.pick([undefined, '', 'b' + i]), level: H.pick([undefined, 0, 7]) }; id.assign(new P.Grant(v), over); if (over || !grant) grant = v; else grant = { name: v.name === undefined ? grant.name : v.name, level: v.level === undefined ? grant.level : v.level }; }
        const g = id.getKey(), q = id.getAssigned();
        H.check(key === undefined ? g === undefined : H.and(H.same(g.id, key.id), g.name === key.name && g.flag === key.flag), 'keys of a client are merged wrongly'); H.check(grant === undefined ? q === undefined : q.name === grant.name && q.level === grant.level, 'assigned keys of a client are merged wrongly'); H.check(id.hasKey() === (key !== undefined), 'a key is forgotten');
    }
    H.reach(1);
};
/// what a handler learns about the sender is the sender's
E.key_scope = async () => {
    const w = new World(), k = { [A]: H.uint(2), [B]: H.uint(2) }; for (const u of [A, B]) { w.connect(u); w.data(u, bytesOf(new P.Key({ id: k[u] }).pack(1))); w.data(u, bytesOf(hash().pack(2))); } await w.settle(); w.clear();
    for (let i = 0; i < 2; i++) { const u = H.pick([A, B]), x = ask(H.pick(['ping', 'ask', 'tick']), 1); w.data(u, x.b); await w.settle(); const c = w.calls[i]; H.check(c && c.uuid === u && H.same(c.scope.consumer.getKey().id, k[u]) && c.scope.producer === w.producer, 'a handler is told another sender'); const g = c.scope.consumer.getAssigned(); c.scope.consumer.assign(new P.Grant({ level: i + 1 }), true); void g; }
    H.check(w.calls[0].uuid === w.calls[1].uuid || w.calls[0].scope.consumer.getAssigned().level === 1, 'a key assigned to one client is given to another'); H.reach(1);
};

// ---------------------------------------------------------------- P26: nothing a client sends disturbs the producer or another client
const alive = async w => { w.clear(); w.refuse = () => undefined; w.answer = (name, msg) => Promise.resolve(new R.ping(new P.Pong({ n: msg.n }))); const x = ask('ping', H.uint(4)); w.data(B, x.b); await w.settle(); H.check(w.sent.length === 1, 'a client is not served any more because of what another one sent'); expect(w.sent[0], B, P.Pong, x.seq, { n: x.n }); H.check(!w.dropped.includes(B), 'a client is dropped because of what another one sent'); };
const hostile = async f => { const w = new World({ consumerErrorHandelingStrategy: H.pick(STRATEGY) }); await w.open(B); const st = H.pick(['new', 'key', 'open', 'none']); if (st === 'open') await w.open(A); else if (st !== 'none') { w.connect(A); if (st === 'key') w.data(A, bytesOf(new P.Key({ id: 1 }).pack(1))); } await w.settle(); w.clear(); await f(w); await w.settle(); H.check(!w.dropped.includes(B) && w.sent.every(s => s.uuid !== B), 'another client is disturbed'); await alive(w); H.reach(1); };
E.tot_bytes = () => hostile(async w => { w.data(A, H.bytes(H.choice(H.bound(6, 8)))); await w.settle(); w.data(A, H.bytes(H.choice(3))); });
/// a package with a head of any kind
E.tot_package = () => hostile(async w => { const n = H.choice(H.bound(3, 5)); w.data(A, H.bytes(4).concat(H.bytes(2), H.bytes(4), M.le(0, 8), M.le(n, 8), H.bytes(n))); });
/// a known message with a body of any kind
E.tot_body = () => hostile(async w => { const m = H.pick([P.Ping, P.Key, P.G.H.Ping, I.HashRequest, P.Kind, P.Tick]), n = H.choice(H.bound(5, 7)), h = bytesOf(new P.Ping({ n: 0 }).pack(7)).slice(4, 18); w.data(A, M.le(m.getId(), 4).concat(h, M.le(n, 8), H.bytes(n))); });
/// handlers and the transport fail in every way
E.tot_fail = () => hostile(async w => {
    const bad = H.pick(['handler', 'throw', 'send', 'drop', 'error', 'all']); const no = () => Promise.reject(new Error('x'));
    if (bad === 'handler' || bad === 'all') w.answer = no; if (bad === 'throw') w.answer = () => { throw new Error('x'); }; if (bad === 'send' || bad === 'all') w.refuse = u => u === A ? no() : undefined;
    if (bad === 'drop' || bad === 'all') w.server.disconnect = u => { w.dropped.push(u); return no(); }; if (bad === 'error' || bad === 'all') { const e = U.error; U.error = (...a) => { e(...a); return no(); }; }
    for (let i = 0; i < 2; i++) { const x = make(H.pick(['key', 'hash', 'bad', 'ping', 'ask', 'tick', 'other'])); w.data(A, x.b); await w.settle(); }
});
/// events of the transport and of the server, whatever the handlers do
E.tot_events = async () => {
    const w = new World(); await w.open(B); w.clear(); const no = () => Promise.reject(new Error('x')), f = H.pick(['ok', 'reject']); if (f === 'reject') { U.ready = U.shutdown = U.error = U.connected = U.disconnected = U.alarm = U['g.fire'] = no; } else { U.alarm = () => Promise.resolve(new O.alarm()); U['g.fire'] = () => Promise.resolve(new O.fire().broadcast([B]).Mail(new P.Mail({ n: 1 }))); }
    for (let i = 0; i < 2; i++) { const k = H.pick(['ready', 'shutdown', 'connected', 'disconnected', 'error', 'alarm', 'fire', 'received']); if (k === 'alarm') w.producer.events.alarm.emit(new P.Alarm({ n: 1 })); else if (k === 'fire') w.producer.events.gFire.emit(new P.G.Fire({ n: 1 })); else w.events[k].emit(k === 'error' ? new Error('e') : k === 'received' ? { uuid: 'nobody', buffer: H.ab(H.bytes(3)) } : k === 'ready' || k === 'shutdown' ? undefined : A); await w.settle(); }
    H.check(!w.dropped.includes(B), 'a client is dropped'); await alive(w); H.reach(1);
};
Object.assign(E, { World, reply, R }); Object.assign(E, require('peer'));
