'use strict';
// Answers frames on standard input by calling into the WebAssembly module named by the argument. A frame
// starts with what the clock shall say (a double, milliseconds) and whether there is entropy.
const fs = require('fs');
const crypto = require('crypto');

class Unsupported extends Error {}
const heap = [];
let clock = 0;
let dry = false;
// What the module may ask of the JavaScript world, by the names that wasm-bindgen gives them.
const js = [
    [/^__wbg_now_/, () => clock],
    [/^__wbg_new_?0_/, () => heap.push(new Date(clock)) - 1],
    [/^__wbg_(getTime|valueOf)_/, (i) => heap[i].getTime()],
    [/^__wbindgen_object_drop_ref/, (i) => { heap[i] = undefined; }],
];
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = {};
let memory;
const host = {
    entropy: (at, n) => {
        if (!dry) crypto.randomFillSync(new Uint8Array(memory.buffer, at >>> 0, n >>> 0));
        return dry ? 0 : 1;
    },
    complain: (at, n) => { fs.writeSync(2, Buffer.from(memory.buffer, at >>> 0, n >>> 0).toString() + '\n'); },
};
for (const { module: m, name, kind } of WebAssembly.Module.imports(module_)) {
    if (kind !== 'function') throw new Unsupported(`${kind} ${m}.${name}`);
    const known = m === 'host' ? host[name] : (js.find(([re]) => re.test(name)) || [])[1];
    (imports[m] = imports[m] || {})[name] = known || (() => { throw new Unsupported(name); });
}
const { exports: x } = new WebAssembly.Instance(module_, imports);
memory = x.memory;
x.start();

function read(n) {
    const b = Buffer.alloc(n);
    for (let at = 0; at < n;) {
        let k;
        try {
            k = fs.readSync(0, b, at, n - at);
        } catch (e) {
            if (e.code === 'EAGAIN') continue;
            throw e;
        }
        if (k === 0) process.exit(0);
        at += k;
    }
    return b;
}
for (;;) {
    const head = read(13);
    clock = head.readDoubleLE(4);
    dry = head[12] === 0;
    const frame = read(head.readUInt32LE(0) - 9);
    let out;
    try {
        const at = x.room(frame.length) >>> 0;
        new Uint8Array(memory.buffer, at, frame.length).set(frame);
        const from = x.answer(dry ? 1 : 0) >>> 0;
        out = Buffer.from(memory.buffer, from, x.answered() >>> 0);
    } catch (e) {
        fs.writeSync(2, e instanceof Unsupported ? `unsupported operation: ${e.message}\n` : `panicked at ${e.stack}\n`);
        process.exit(1);
    }
    for (let at = 0; at < out.length;) at += fs.writeSync(1, out, at);
}
