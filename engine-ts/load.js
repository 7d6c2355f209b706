'use strict';
// Loads compiled modules with the given builtins in place of the real ones.
const fs = require('fs'), path = require('path');
const NAMES = ['Buffer', 'Uint8Array', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'TextEncoder', 'TextDecoder', 'Map', 'Set', 'Number', 'BigInt', 'Math', 'Object', 'String', 'Boolean', 'Date', 'isNaN', 'isFinite', 'console', 'setTimeout', 'clearTimeout', 'Promise'];
/// dir holds files named by cfg.modules: [[name for require, file]]; the harness is the last of them
function load(dir, cfg, $, b, H, space) {
    const files = new Map(cfg.modules), cache = new Map();
    const names = NAMES.filter(n => b[n] !== undefined);
    const req = from => name => {
        let k = name; if (name.startsWith('.')) k = path.posix.join(path.posix.dirname(from), name);
        for (const q of [k, k + '/index', name]) if (files.has(q)) return get(q);
        if (cfg.stubs && cfg.stubs[name]) return get(cfg.stubs[name]);
        throw new Error('module ' + name + ' of ' + from + ' is not loaded');
    };
    const get = k => {
        if (cache.has(k)) return cache.get(k).exports;
        const m = { exports: {} }; cache.set(k, m);
        const f = new Function('exports', 'require', 'module', '$', 'H', 'global', 'globalThis', 'window', 'process', ...names, fs.readFileSync(path.join(dir, files.get(k)), 'utf8') + '\n//# sourceURL=' + files.get(k));
        f.call(m.exports, m.exports, req(k), m, $, H, space, space, undefined, undefined, ...names.map(n => b[n]));
        return m.exports;
    };
    return get(cfg.harness);
}
module.exports = { load };
