'use strict';
// Explore compiled object trees as a behaviour of spec/objects.qnt prescribes.
// objects.js JOBS OUT: JOBS is [{id, wasm, deployed: bool, steps: [{op, node, args, obs, back}], kinds}]
const fs = require('fs');
const path = require('path');
const { Halt, World, makeInstance, hex } = require(path.join(__dirname, '../rt/host.js'));
const [jobsFile, outFile] = process.argv.slice(2);

function check(job) {
  const r = { id: job.id, calls: 0, bytes: 0, errors: [] };
  const root = new Uint8Array(fs.readFileSync(job.wasm));
  let cur = { node: 0, code: root, subs: new Map(), mod: null };
  const err = (i, what, expected, got) => { r.errors.push({ call: i, what, expected, got }); };
  const modules = new Map();
  const load = c => {
    const k = hex(c.code);
    if (!modules.has(k)) modules.set(k, new WebAssembly.Module(c.code));
    return modules.get(k);
  };
  // the file next to the module is the same bytes behind their length, and the same again in hex
  const cbin = new Uint8Array(fs.readFileSync(job.wasm.replace(/\.wasm$/, '.cbin')));
  const n = root.length, pre = [n >>> 24, n >>> 16 & 255, n >>> 8 & 255, n & 255];
  if (hex(cbin) !== hex(Uint8Array.from(pre)) + hex(root)) err(-1, 'the .cbin file', 'the module behind its length', hex(cbin).slice(0, 40));
  if (fs.readFileSync(job.wasm.replace(/\.wasm$/, '.cbin.hex'), 'latin1') !== hex(cbin)) err(-1, 'the .cbin.hex file', 'the .cbin file in hex', '');
  for (let i = 0; i < job.steps.length && !r.errors.length; i++) {
    const s = job.steps[i];
    fs.writeFileSync(outFile + '.progress', job.id + '\t' + i);
    if (s.op === 'root') { cur = { node: 0, code: root, subs: new Map() }; continue; }
    if (s.op === 'descend') {
      if (!cur.subs.has(s.node)) { err(i, 'the code of object ' + s.node, 'seen', 'not seen'); break; }
      cur = { node: s.node, code: cur.subs.get(s.node), subs: new Map() };
      continue;
    }
    if (!['deploy', 'call', 'nocall'].includes(s.op)) continue;
    let mod;
    try { mod = load(cur); } catch (e) { err(i, 'the code of object ' + cur.node, 'a wasm module', String(e).slice(0, 100)); break; }
    const has = job.hasDep[cur.node];
    const want = ['_start', 'deploy'].concat(has ? ['call'] : []).sort();
    const got = WebAssembly.Module.exports(mod).filter(x => x.kind === 'function' && x.name !== '__wasm_call_ctors').map(x => x.name).sort();
    if (JSON.stringify(want) !== JSON.stringify(got)) { err(i, 'the entry points of object ' + cur.node, want, got); break; }
    if (s.op === 'nocall') continue;
    const w = new World();
    w.calldata = Uint8Array.from(s.args);
    w.code = cur.code;
    let st = 'returned', out = new Uint8Array(0);
    try {
      const inst = makeInstance(mod, w);
      if (inst.exports._start) inst.exports._start();
      inst.exports[s.op]();
    } catch (e) {
      if (e instanceof Halt) { st = e.kind; out = e.data; } else st = 'trap: ' + e.message;
    }
    r.calls++;
    if (st !== 'finish') { err(i, s.op + ' of object ' + cur.node, 'finish', st); break; }
    if (w.logs.length !== s.obs.length) { err(i, 'the number of parts seen by ' + s.op, s.obs.length, w.logs.length); break; }
    for (let k = 0; k < s.obs.length; k++) {
      const o = s.obs[k], l = w.logs[k], d = Uint8Array.from(l.data);
      r.bytes += d.length;
      if (Number(l.topics[0]) !== o.node) { err(i, 'the part seen', o.node, String(l.topics[0])); break; }
      if (o.size >= 0) {
        if (Number(l.topics[1]) !== o.size) { err(i, 'the size of part ' + o.node, o.size, String(l.topics[1])); break; }
        if (hex(d) !== hex(Uint8Array.from(o.bytes))) { err(i, 'the bytes of part ' + o.node, hex(Uint8Array.from(o.bytes)).slice(0, 80), hex(d).slice(0, 80)); break; }
      } else {
        const len = d.length >= 4 ? d[0] * 2 ** 24 + d[1] * 2 ** 16 + d[2] * 256 + d[3] : -1;
        if (len !== d.length - 4 || Number(l.topics[1]) !== d.length) { err(i, 'the length prefix of object ' + o.node, d.length - 4, len); break; }
        cur.subs.set(o.node, d.slice(4));
      }
    }
    if (!r.errors.length && hex(out) !== hex(Uint8Array.from(s.back))) err(i, 'the arguments seen by ' + s.op, hex(Uint8Array.from(s.back)).slice(0, 80), hex(out).slice(0, 80));
  }
  return r;
}
const out = [];
for (const j of JSON.parse(fs.readFileSync(jobsFile))) out.push(check(j));
fs.writeFileSync(outFile, JSON.stringify(out));
