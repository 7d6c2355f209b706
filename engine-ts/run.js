'use strict';
// node run.js --entry E --json F --viol F --samples F --time S --param DEEP [--steps N] DIR
const fs = require('fs'), path = require('path');
const { explore, api, builtins, ops, boot } = require('./rt.js');
const { load } = require('./load.js');
const { Promise: Queue } = require('./promise.js');
const a = process.argv.slice(2), o = {}; let dir;
for (let i = 0; i < a.length; i++) if (a[i].startsWith('--')) o[a[i].slice(2)] = a[++i]; else dir = a[i];
(async () => {
    const cfg = JSON.parse(fs.readFileSync(path.join(dir, 'cfg.json')));
    const viol = o.viol && fs.openSync(o.viol, 'w'), smp = o.samples && fs.openSync(o.samples, 'w');
    api.drain = () => Queue.$drain(20000);
    const make = () => boot(() => load(path.join(dir, 'sym'), cfg, ops, cfg.queue ? { ...builtins, Promise: Queue } : builtins, api, {}));
    let h = make(); if (!h[o.entry]) throw new Error('no entry ' + o.entry);
    const r = await explore(() => { Queue.$reset(); if (cfg.fresh) h = make(); return h[o.entry](); }, {
        deep: Number(o.param || 0), time: Number(o.time || 600), steps: Number(o.steps || 5e6),
        onViolation: v => { if (viol) fs.writeSync(viol, JSON.stringify(v) + '\n'); else console.log(JSON.stringify(v)); },
        want: n => n <= 4 || (n < 4000 && n % 97 === 0), onSample: s => smp && fs.writeSync(smp, JSON.stringify(s) + '\n'),
    });
    r.entry = o.entry;
    if (o.json) fs.writeFileSync(o.json, JSON.stringify(r)); else { delete r.functions; console.log(JSON.stringify(r)); }
    process.exit(0);
})().catch(e => { console.error(e); process.exit(2); });
