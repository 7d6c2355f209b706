// The interfaces of the clibri library the generated code is written against (the library itself isn't in the repository).
class Subscription { constructor(s, f) { this.$s = s; this.$f = f; } destroy() { const i = this.$s.$l.indexOf(this); if (i >= 0) this.$s.$l.splice(i, 1); } unsubscribe() { this.destroy(); } }
class Subject { constructor(name) { this.name = name; this.$l = []; } subscribe(f) { const s = new Subscription(this, f); this.$l.push(s); return s; } emit(v) { for (const s of this.$l.slice()) s.$f(v); } destroy() { this.$l = []; } }
class Logger { clone() { return new Logger(); } }
for (const k of ['verb', 'debug', 'info', 'warn', 'err', 'env']) Logger.prototype[k] = function (m) { return m; };
exports.Subscription = Subscription; exports.Subject = Subject; exports.Logger = Logger; exports.DefaultLogger = Logger;
exports.ConsumerErrorHandelingStrategy = { EmitError: 'EmitError', Disconnect: 'Disconnect', EmitErrorAndDisconnect: 'EmitErrorAndDisconnect', Log: 'Log' };
exports.ProducerIdentificationStrategy = { Log: 'Log', EmitError: 'EmitError', Disconnect: 'Disconnect', EmitErrorAndDisconnect: 'EmitErrorAndDisconnect', Ignore: 'Ignore' };
exports.Options = class { constructor(o) { this.logger = new Logger(); this.consumerErrorHandelingStrategy = o.consumerErrorHandelingStrategy || 'EmitErrorAndDisconnect'; this.producerIndentificationStrategy = o.producerIndentificationStrategy || 'Log'; } };
exports.Server = class {}; exports.Client = class {};
const box = {}; let n = 0;
exports.globals = () => box; exports.guid = () => 'guid-' + n++;
exports.reset = () => { for (const k of Object.keys(box)) delete box[k]; };
