'use strict';
// node compile.js DIR: compiles the sources named by DIR/cfg.json ([name, file.js, source, tag]) for both engines
const fs = require('fs'), path = require('path'), { compile } = require('./xform.js');
const dir = process.argv[2], cfg = JSON.parse(fs.readFileSync(path.join(dir, 'cfg.json')));
for (const d of ['sym', 'nat']) fs.mkdirSync(path.join(dir, d), { recursive: true });
for (const [, file, src, tag] of cfg.modules) {
    const t = fs.readFileSync(src, 'utf8');
    fs.writeFileSync(path.join(dir, 'sym', file), compile(t, tag || '', path.basename(src)));
    fs.writeFileSync(path.join(dir, 'nat', file), compile(t, null, path.basename(src)));
}
