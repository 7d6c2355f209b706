import os
KIT = open(os.path.join(V, 'tools/seeds/lib/kit.js')).read()
PROT = open(os.path.join(V, 'harness/ts/flow/p.prot')).read()
WF = open(os.path.join(V, 'harness/ts/flow/ts.workflow')).read()
PT = 'cli/src/workflow/render/producer/typescript/'
CT = 'cli/src/workflow/render/consumer/typescript/'
FLOW_DEMO = '''#!/bin/bash
cd "$(dirname "$0")" && exec timeout 120 node demo.js
'''


def fseed(id, prop, needs, breaks, edits, demo):
    seed(id, prop, needs, breaks, edits, {'demo.sh': FLOW_DEMO, 'kit.js': KIT, 'p.prot': PROT, 'w.workflow': WF, 'demo.js': '''const K = require('./kit.js'), A = K.assert, fs = require('fs'), U = {};
const W = K.workflow(fs.readFileSync(__dirname + '/p.prot', 'utf8'), fs.readFileSync(__dirname + '/w.workflow', 'utf8'), U), P = W.protocol, I = P.InternalServiceGroup;
U['events/connected'] = () => Promise.resolve(new (W.part('events/connected').Output)().broadcast([]).Extra(new P.Extra({ s: '' })));
U['events/disconnected'] = () => Promise.resolve(new (W.part('events/disconnected').Output)().broadcast([]).Mail(new P.Mail({ n: 0 })));
''' + demo})


fseed('F01-haskey', 'P20', 'a client which never gave its key but was given an assigned key by the server, and then sends a request', 'an assigned key counts as the key of the client, so its requests reach the handlers',
      [(PT + 'render_identification.rs', 'return this._key !== undefined;', 'return this._key !== undefined || this._assigned !== undefined;')],
      '''K.run(async () => { let id, calls = 0; const c = U['events/connected']; U['events/connected'] = (x, f) => { id = x; return c(); }; U['responses/ping'] = m => { calls++; return Promise.resolve(new (W.part('responses/ping').Response)(new P.Pong({ n: 1 }))); };
const s = K.serve(W); s.events.connected.emit('a'); await K.settle(); id.assign(new P.Grant({ name: 'x' }), true); s.data('a', s.hash().pack(1)); s.data('a', new P.Ping({ n: 1 }).pack(2)); await K.settle(); A.strictEqual(calls, 0); });''')

fseed('F02-hashonce', 'P20', 'a client whose second hash request names another protocol than the first', 'the hashes are compared only on the first request, later ones are confirmed whatever they say',
      [(PT + 'render_mod.rs', 'if (consumerHash.protocol !== Producer.hash.PROTOCOL) {', 'if (!consumer.isHashAccepted() && consumerHash.protocol !== Producer.hash.PROTOCOL) {')],
      '''K.run(async () => { const s = K.serve(W); await s.open('a', new P.Key({ id: 1 })); s.data('a', new I.HashRequest({ protocol: 'zz', workflow: W.producer.hash.WORKFLOW }).pack(9)); await K.settle(); A.ok(s.dropped.includes('a')); });''')

fseed('F03-scope', 'P21', 'two requests of the same kind which are processed at the same time and finish in the other order', 'the sequence of an answer is kept in a variable shared by all requests of the kind, so answers carry the sequence of the latest request',
      [(PT + 'render_request_handler.rs', '''export function handler(
    request: Protocol.[[request]],
    consumer: Identification,
    filter: Filter,
    context: Context,
    producer: Producer,
    sequence: number
): Promise<void> {
	return new Promise((resolve, reject) => {
        const scope = new Scope(consumer, filter, context, producer);
		response(request, scope)
			.then((res) => {
				const error: Error | undefined = res.error();''', '''let current: number = 0;
export function handler(
    request: Protocol.[[request]],
    consumer: Identification,
    filter: Filter,
    context: Context,
    producer: Producer,
    sequence: number
): Promise<void> {
	current = sequence;
	return new Promise((resolve, reject) => {
        const scope = new Scope(consumer, filter, context, producer);
		response(request, scope)
			.then((res) => {
				sequence = current;
				const error: Error | undefined = res.error();''')],
      '''K.run(async () => { const go = []; U['responses/g.ask'] = m => new Promise(r => go.push(() => r(new (W.part('responses/g.ask').Response)(new P.Pong({ n: m.n }))))); const s = K.serve(W); await s.open('a', new P.Key({ id: 1 }));
s.data('a', new P.G.Ask({ n: 1 }).pack(11), new P.G.Ask({ n: 2 }).pack(12)); await K.settle(); go[1](); go[0](); await K.settle(); A.deepStrictEqual(s.sent.map(x => x[1].readUInt32LE(6)).sort(), [11, 12]); });''')

fseed('F04-fail', 'P21', 'a broadcast to several clients of which one has just gone', 'one client that cannot be reached makes the whole broadcast fail, so the messages after it and the completion of the request are lost',
      [(PT + 'render_mod.rs', '''                this._server.send(buffer, uuid).catch((err: Error) => {{
                    this._logger.err(
                        `fail to send data to ${{uuid}}; error: ${{err.message}}`
                    );
                }})''', '''                this._server.send(buffer, uuid)''')] if False else
      [(PT + 'render_mod.rs', 'this._server.send(buffer, uuid).catch((err: Error) => {', 'this._server.send(buffer, uuid).catch((err: Error) => {\n                    this._consumers.delete(uuid);')],
      '''K.run(async () => { U['responses/ping'] = m => Promise.resolve(new (W.part('responses/ping').Response)(new P.Pong({ n: m.n }))); U['events/g.fire'] = (m, f) => Promise.resolve(new (W.part('events/g.fire').Output)().broadcast(f.all()).Mail(new P.Mail({ n: 1 })));
const s = K.serve(W); await s.open('a', new P.Key({ id: 1 })); await s.open('b', new P.Key({ id: 1 })); let bad = true; s.fail = u => bad && u === 'a'; s.producer.events.gFire.emit(new P.G.Fire({ n: 1 })); await K.settle(); bad = false; s.sent.length = 0;
s.data('a', new P.Ping({ n: 3 }).pack(5)); await K.settle(); A.strictEqual(s.sent.length, 1); });''')

fseed('F05-except', 'P22', 'two clients whose identifiers begin alike', 'a client is left out of a filter if its identifier begins with the excluded one',
      [(PT + 'static/implementation/consumer/filter.ts', 'return identification.uuid() !== uuid;', 'return identification.uuid().indexOf(uuid) !== 0;')],
      '''K.run(async () => { let f; const c = U['events/connected']; U['events/connected'] = (x, g) => { f = g; return c(); }; const s = K.serve(W); for (const u of ['1', '12', '3']) s.events.connected.emit(u); await K.settle(); A.deepStrictEqual(f.except('1'), ['12', '3']); });''')

fseed('F06-buffer', 'P22', 'a client that disconnects in the middle of a package and whose identifier is used again', 'the partial packages are kept per identifier, so the new client begins with the rest of the old one',
      [(PT + 'static/implementation/consumer/index.ts', '''	private readonly _buffer: Protocol.BufferReaderMessages =
		new Protocol.BufferReaderMessages();
''', '''	private static _buffers: Map<string, Protocol.BufferReaderMessages> =
		new Map();
	private readonly _buffer: Protocol.BufferReaderMessages;
'''), (PT + 'static/implementation/consumer/index.ts', '''		this._options = options;
''', '''		this._options = options;
		this._buffer = Consumer._buffers.get(uuid) || new Protocol.BufferReaderMessages();
		Consumer._buffers.set(uuid, this._buffer);
''')],
      '''K.run(async () => { U['responses/ping'] = m => Promise.resolve(new (W.part('responses/ping').Response)(new P.Pong({ n: m.n }))); const s = K.serve(W); await s.open('a', new P.Key({ id: 1 })); s.data('a', Buffer.from(new P.Ping({ n: 1 }).pack(1)).slice(0, 30)); s.events.disconnected.emit('a'); await K.settle();
await s.open('a', new P.Key({ id: 1 })); s.data('a', new P.Ping({ n: 1 }).pack(5)); await K.settle(); A.strictEqual(s.sent.length, 1); });''')

fseed('F07-pending', 'P23', 'a message of a broadcast which arrives between the request and its answer, when the request has the sequence the broadcast carries', 'sequences start at 0, the sequence of broadcasts, so a broadcast is taken for the answer of the first request',
      [(CT + 'render_consumer.rs', 'private _sequence: number = 1;', 'private _sequence: number = 0;')],
      '''K.run(async () => { const s = K.client(W, { id: 1 }); let got = 0; s.consumer.broadcast.Note.subscribe(() => got++); s.events.connected.emit(); await K.settle(); s.data(new P.Note({ n: 1 }).pack(0)); await K.settle(); A.strictEqual(got, 1); });''')

fseed('F08-again', 'P24', 'a consumer which loses its connection and is connected again', 'the uuid of the last connection is kept, the new one is refused',
      [(CT + 'render_consumer.rs', '''        this._logger.debug(`Client is disconnected`);
        this.uuid = undefined;
''', '''        this._logger.debug(`Client is disconnected`);
''')],
      '''K.run(async () => { const s = K.client(W, { id: 1 }); for (const u of ['x', 'y']) { s.sent.length = 0; s.events.connected.emit(); await K.settle(); s.data(new I.SelfKeyResponse({ uuid: u }).pack(s.seq(0))); await K.settle(); s.data(new I.HashResponse({ error: undefined }).pack(s.seq(1))); await K.settle(); A.strictEqual(s.consumer.uuid, u); s.events.disconnected.emit(); await K.settle(); } });''')

fseed('F09-merge', 'P25', 'a merge of a key whose field is zero or an empty text', 'fields are merged only if they are truthy, so a level of 0 or an empty name does not replace the former one',
      [(PT + 'render_identification.rs', '''r#"if (key.[[field]] !== undefined) {
        this._assigned''', '''r#"if (key.[[field]]) {
        this._assigned''')],
      '''K.run(async () => { let id; const c = U['events/connected']; U['events/connected'] = (x, g) => { id = x; return c(); }; const s = K.serve(W); s.events.connected.emit('a'); await K.settle(); id.assign(new P.Grant({ level: 5, name: 'q' }), true); id.assign(new P.Grant({ level: 0 }), false); A.strictEqual(id.getAssigned().level, 0); A.strictEqual(id.getAssigned().name, 'q'); });''')

fseed('F10-catch', 'P26', 'a confirmation of a handshake that cannot be sent because the client has gone', 'the failure of sending the confirmation of the hash is not handled and ends the process of the server',
      [(PT + 'render_mod.rs', '''.pack(message.header.sequence, event.uuid)
                ).catch((err: Error) => {
                    this._logger.err(
                        `Fail to send hash check response to ${event.uuid}; error: ${err.message}`
                    );
                });''', '''.pack(message.header.sequence, event.uuid)
                ).then(() => {
                    this._logger.verb(
                        `Hash check response is sent to ${event.uuid}`
                    );
                });''')],
      '''K.run(async () => { const s = K.serve(W); s.events.connected.emit('a'); s.fail = () => true; s.data('a', s.hash().pack(2)); await K.settle(); });''')

fseed('F11-required', 'P21', 'an event with two required broadcasts of which only the second is given', 'only the last required broadcast is looked for',
      [(PT + 'render_event_emitter.rs', '''			if (error !== undefined) {
				return;
			}
			if (
				this._broadcasts.find((msg) => {''', '''			error = undefined;
			if (
				this._broadcasts.find((msg) => {''')],
      '''K.run(async () => { const O = W.part('events/alarm').Output; U['events/alarm'] = (m, f) => Promise.resolve(new O().broadcast(f.all()).GHNote(new P.G.H.Note({ n: 1 }))); const s = K.serve(W); await s.open('a', new P.Key({ id: 1 })); s.producer.events.alarm.emit(new P.Alarm({ n: 1 })); await K.settle(); A.strictEqual(s.sent.length, 0); });''')

fseed('F12-tail', 'P27', 'a connection on which another stream of data was cut in the middle', 'the producer drops a client at a chunk which holds less than a header',
      [(PT + 'static/implementation/consumer/index.ts', '''		const errors = this._buffer.chunk(buffer);
''', '''		if (this._buffer.len() === 0 && buffer.byteLength < 4) {
			return new Error(`Not enough data`);
		}
		const errors = this._buffer.chunk(buffer);
''')],
      '''K.run(async () => { U['responses/ping'] = m => Promise.resolve(new (W.part('responses/ping').Response)(new P.Pong({ n: m.n }))); const s = K.serve(W); await s.open('a', new P.Key({ id: 1 })); const b = Buffer.from(new P.Ping({ n: 1 }).pack(1)); s.data('a', b.slice(0, 2)); s.data('a', b.slice(2)); await K.settle(); A.strictEqual(s.sent.length, 1); });''')
