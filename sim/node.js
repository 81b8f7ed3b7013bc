// node.js MODULE: a node that runs the WebAssembly module and answers requests until the wire is closed.
'use strict';
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const node = new WebAssembly.Instance(module_, {}).exports;

function read(n) {
  const b = Buffer.alloc(n);
  for (let at = 0; at < n;) {
    let k;
    try {
      k = fs.readSync(0, b, at, n - at, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') process.exit(0);
      throw e;
    }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}

function write(b) {
  for (let at = 0; at < b.length;) {
    try {
      at += fs.writeSync(1, b, at);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}

for (;;) {
  const request = read(read(4).readUInt32LE(0));
  // Whatever leaves the module other than by returning is the death of the node.
  const at = node.far_room(request.length) >>> 0;
  new Uint8Array(node.memory.buffer, at, request.length).set(request);
  const n = node.far_answer() >>> 0;
  const answer = Buffer.from(new Uint8Array(node.memory.buffer, node.far_at() >>> 0, n));
  const len = Buffer.alloc(4);
  len.writeUInt32LE(answer.length, 0);
  write(Buffer.concat([len, answer]));
}
