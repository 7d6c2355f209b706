// Generates a TypeScript protocol (or the producer and the consumer of a workflow) with the built generator and loads it.
const fs = require('fs'), path = require('path'), cp = require('child_process'), os = require('os');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const CLI = '/repo/cli/target/release/clibri';
class Subscription { constructor(s, f) { this.s = s; this.f = f; } destroy() { this.s.l = this.s.l.filter(x => x !== this); } unsubscribe() { this.destroy(); } }
class Subject { constructor() { this.l = []; } subscribe(f) { const s = new Subscription(this, f); this.l.push(s); return s; } emit(v) { for (const s of this.l.slice()) s.f(v); } destroy() { this.l = []; } }
class Logger { clone() { return new Logger(); } } for (const k of ['verb', 'debug', 'info', 'warn', 'err', 'env']) Logger.prototype[k] = m => m;
const box = {}; let guids = 0;
const clibri = { Subscription, Subject, Logger, DefaultLogger: Logger, Server: class {}, Client: class {}, globals: () => box, guid: () => 'guid-' + guids++,
    ConsumerErrorHandelingStrategy: { EmitError: 'EmitError', Disconnect: 'Disconnect', EmitErrorAndDisconnect: 'EmitErrorAndDisconnect', Log: 'Log' },
    ProducerIdentificationStrategy: { Log: 'Log', EmitError: 'EmitError', Disconnect: 'Disconnect', EmitErrorAndDisconnect: 'EmitErrorAndDisconnect', Ignore: 'Ignore' },
    Options: class { constructor(o) { this.logger = new Logger(); this.consumerErrorHandelingStrategy = o.consumerErrorHandelingStrategy || 'EmitErrorAndDisconnect'; this.producerIndentificationStrategy = o.producerIndentificationStrategy || 'Log'; } } };
function dir() { const d = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-')); process.on('exit', () => fs.rmSync(d, { recursive: true, force: true })); return d; }
function loader(top, stubs) {
    const cache = new Map();
    const get = f => {
        if (cache.has(f)) return cache.get(f).exports;
        const m = { exports: {} }; cache.set(f, m);
        const js = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { module: 'commonjs', target: 'es2020' } }).outputText;
        const req = n => {
            if (n === 'clibri') return clibri; if (!n.startsWith('.')) return require(n);
            const b = path.resolve(path.dirname(f), n), t = [b + '.ts', b + '/index.ts'].find(x => fs.existsSync(x));
            const k = t && path.relative(top, t).replace(/\.ts$/, ''); if (stubs && stubs[k]) return stubs[k]; return get(t);
        };
        new Function('exports', 'require', 'module', js).call(m.exports, m.exports, req, m); return m.exports;
    };
    return get;
}
exports.protocol = text => {
    const d = dir(); fs.writeFileSync(d + '/p.prot', text); cp.execFileSync(CLI, ['--src', 'p.prot', '-ts', 'p.ts', '-o', '--em'], { cwd: d, stdio: 'ignore' });
    return loader(d)(d + '/p.ts');
};
/// users: name of a handler -> function
exports.workflow = (prot, wf, users) => {
    const d = dir(); fs.mkdirSync(d + '/p/src', { recursive: true }); fs.mkdirSync(d + '/c/src', { recursive: true }); for (const s of 'pc') fs.writeFileSync(d + '/' + s + '/package.json', '{}');
    fs.writeFileSync(d + '/p.prot', prot); fs.writeFileSync(d + '/w.workflow', wf); cp.execFileSync(CLI, ['-s', 'p.prot', '-wf', 'w.workflow', '-cd', 'c/src', '-pd', 'p/src'], { cwd: d, stdio: 'ignore' });
    const stubs = {}; for (const k of ['responses', 'events', 'beacons']) if (fs.existsSync(d + '/p/src/' + k)) for (const f of fs.readdirSync(d + '/p/src/' + k)) { const n = f.replace(/\.ts$/, ''); const g = (...a) => (users[k + '/' + n] || (() => Promise.resolve()))(...a); stubs[k + '/' + n] = { response: g, emit: g }; }
    const p = loader(d + '/p/src', stubs), c = loader(d + '/c/src');
    return { clibri, producer: p(d + '/p/src/implementation/index.ts').Producer, protocol: p(d + '/p/src/implementation/protocol/index.ts'), part: n => p(d + '/p/src/implementation/' + n + '.ts'), Context: p(d + '/p/src/context.ts').Context, consumer: c(d + '/c/src/index.ts') };
};
exports.settle = async () => { for (let i = 0; i < 5; i++) await new Promise(r => setImmediate(r)); };
/// a producer with a server that records
exports.serve = (w, options) => {
    const e = {}; for (const k of ['ready', 'shutdown', 'connected', 'disconnected', 'error', 'received']) e[k] = new Subject();
    const s = { events: e, sent: [], dropped: [], fail: () => false, getEvents: () => e, listen: () => Promise.resolve(), shutdown: () => Promise.resolve(), send(b, u) { s.sent.push([u, Buffer.from(b)]); return s.fail(u) ? Promise.reject(new Error('closed')) : Promise.resolve(); }, disconnect(u) { s.dropped.push(u); return Promise.resolve(); } };
    s.data = (u, ...b) => e.received.emit({ uuid: u, buffer: new Uint8Array(Buffer.concat(b.map(x => Buffer.from(x)))).buffer });
    s.producer = new w.producer(s, new w.Context(), options && new clibri.Options(options));
    s.hash = () => new w.protocol.InternalServiceGroup.HashRequest({ protocol: w.producer.hash.PROTOCOL, workflow: w.producer.hash.WORKFLOW });
    s.open = async (u, key) => { e.connected.emit(u); s.data(u, key.pack(1), s.hash().pack(2)); await exports.settle(); s.sent.length = 0; };
    return s;
};
/// a consumer with a client that records
exports.client = (w, key, options) => {
    const e = {}; for (const k of ['data', 'connected', 'disconnected', 'error']) e[k] = new Subject();
    const s = { events: e, sent: [], getEvents: () => e, send(b) { s.sent.push(Buffer.from(b)); return s.fail && s.fail() ? new Error('closed') : undefined; }, destroy: () => Promise.resolve() };
    s.data = (...b) => e.data.emit(new Uint8Array(Buffer.concat(b.map(x => Buffer.from(x)))).buffer);
    s.seq = i => s.sent[i].readUInt32LE(6);
    s.consumer = new w.consumer.Consumer(s, key, options); return s;
};
exports.assert = require('assert');
exports.run = f => { process.on('unhandledRejection', e => { console.log(e); process.exit(4); }); Promise.resolve().then(f).then(() => process.exit(0), e => { console.log(e); process.exit(3); }); setTimeout(() => process.exit(5), 60000); };
