// Runs calls of the WebAssembly module: one line of JSON in, one line out.
// {"calls": ["[\"text\", {}]", ...]} -> {"results": [{v: {...}} or {threw: "..."}, ...], "exit": code or null, "log": "..."}
// Every job gets a fresh instance of the module.
'use strict';
const fs = require('fs');
function out(s) {
  const b = Buffer.from(s);
  for (let i = 0; i < b.length;) i += fs.writeSync(3, b, i);
}
let log = '';
console.log = (...a) => { log += a.join(' ') + '\n'; };
console.error = console.warn = console.log;
require(process.argv[2]);
const bytes = fs.readFileSync(process.argv[3]);
let ready = WebAssembly.compile(bytes);
async function job(j) {
  const mod = await ready;
  log = '';
  delete globalThis.generateQRCode;
  const go = new Go();
  let exit = null;
  go.exit = c => { exit = c; };
  const inst = await WebAssembly.instantiate(mod, go.importObject);
  go.run(inst).catch(e => { log += e; });
  await 0;
  const f = globalThis.generateQRCode;
  const results = [];
  for (const src of j.calls) {
    const args = (0, eval)('(' + src + ')');
    try {
      const r = f.apply(undefined, args);
      const o = { type: typeof r };
      if (r !== null && typeof r === 'object') {
        for (const k of ['success', 'error', 'base64EncodedImage']) {
          o[k] = r[k];
          o['type_' + k] = typeof r[k];
        }
      }
      results.push({ v: o });
    } catch (e) {
      results.push({ threw: String(e) });
    }
  }
  return { results, exit, log: log.slice(0, 1500), mem: inst.exports.mem.buffer.byteLength };
}
let buf = '';
let chain = Promise.resolve();
process.stdin.on('data', d => {
  buf += d;
  for (;;) {
    const i = buf.indexOf('\n');
    if (i < 0) return;
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    chain = chain.then(() => job(JSON.parse(line))).then(r => out(JSON.stringify(r) + '\n')).catch(e => out(JSON.stringify({ results: [], fault: String(e && e.stack || e), log }) + '\n'));
  }
});
process.stdin.on('end', () => process.exit(0));
