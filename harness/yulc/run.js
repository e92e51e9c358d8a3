'use strict';
// Run compiled contracts and compare every call with what the specification says.
// run.js JOBS OUT: JOBS is [{id, wasm, deploy, calls: [{env, res}]}]
const fs = require('fs');
const path = require('path');
const { Halt, World, instantiate, hex, wordBytes } = require(path.join(__dirname, '../rt/host.js'));
const [jobsFile, outFile] = process.argv.slice(2);
const jobs = JSON.parse(fs.readFileSync(jobsFile));
const ENV = ['address', 'caller', 'origin', 'callvalue', 'gasprice', 'basefee', 'blobbasefee', 'chainid', 'timestamp', 'number', 'gaslimit', 'coinbase', 'gas'];

// The world outside: the same pure functions as in spec/yul.qnt.
const W = 1n << 256n, A20 = 1n << 160n;
const noise = (r, i) => ((r + (1n << 200n) + i) * (2n * r + 2n * i + 1n)) % W;
const noiseBytes = (r, i, n) => { const x = noise(r, i), o = []; for (let k = 0; k < n; k++) o.push(Number(((x >> BigInt(k % 240)) + BigInt(7 * k)) & 0xffn)); return o; };
const hash = b => { let h = BigInt(b.length + 1); for (const x of b) h = (h * 257n + BigInt(x) + 1n) % W; return h; };
// a stamp on every log, call and creation: how many writes, logs, calls and creations came before
function stamps(w) {
  const before = () => w.trace.filter(t => t[0] === 'sstore').length + w.logs.length + w.calls.length + w.creates.length;
  for (const l of ['logs', 'calls', 'creates']) { const a = w[l]; a.push = r => { r.at = before(); return Array.prototype.push.call(a, r); }; }
}
function outside(w, env) {
  w.balances = { get: a => a === w.env.address ? BigInt(env.selfbalance) : noise(a, 77n) };
  w.extcode = { get: a => noiseBytes(a, 82n, Number(noise(a, 78n) % 100n)) };
  w.codehash = a => noise(a, 79n);
  w.blockhash = n => noise(n, 80n);
  w.onKeccak = b => wordBytes(hash(b));
  w.onCall = rec => {
    const n = BigInt(w.calls.length - 1), k = noise(noise(rec.to, 81n + n), 5n) >> 100n;
    const soft = k % 256n < 24n || (1n <= rec.to && rec.to <= 10n && k % 2n === 0n);
    return { status: soft ? 1 : k % 256n < 252n ? 0 : k % 256n < 255n ? 1 : 2, ret: noiseBytes(rec.to, 83n + n, soft ? 70 : Number((k >> 8n) % 70n)) };
  };
  w.onCreate = rec => {
    const k = noise(noise(hash([...rec.code, ...rec.data]), BigInt(90 + w.creates.length - 1)), 5n) >> 60n;
    return { status: (k >> 30n) % 64n === 0n ? 1 : 0, addr: k % A20 };
  };
}
function world(job, env, storage) {
  const w = new World();
  for (const k of ENV) if (env[k] !== undefined) w.env[k] = BigInt(env[k]);
  w.calldata = Uint8Array.from(env.data);
  w.code = Uint8Array.from(env.code || []);
  outside(w, env);
  stamps(w);
  w.storage = new Map(storage);
  return w;
}

function one(job, entry, w) {
  let st = 'returned', out = [];
  try {
    const inst = instantiate(job.wasm, w);
    if (inst.exports._start) inst.exports._start();
    inst.exports[entry]();
  } catch (e) {
    if (e instanceof Halt) { st = e.kind; out = Array.from(e.data); }
    else if (e instanceof WebAssembly.RuntimeError) st = 'trap: ' + e.message;
    else if (e instanceof RangeError) st = 'trap: ' + e.message;
    else throw e;
  }
  return { st, out };
}
function check(job) {
  let storage = new Map((job.sto || []).map(([k, v]) => [hex(wordBytes(BigInt(k))), BigInt(v)]));
  const r = { id: job.id, calls: 0, errors: [] };
  if (job.deploy && job.calls.length) { // the constructor sets the immutables
    const w = world(job, job.calls[0].env, storage);
    const g = one(job, 'deploy', w);
    if (g.st !== 'returned' && g.st !== 'finish') { r.errors.push({ call: 0, what: 'deployment', expected: 'finish', got: g.st }); return r; }
    storage = w.storage;
  }
  for (let i = 0; i < job.calls.length; i++) {
    const { env, res } = job.calls[i];
    if (res.st === 'run') break;
    const w = world(job, env, storage);
    fs.writeFileSync(outFile + '.progress', job.id + '\t' + i);
    let g;
    try { g = one(job, job.entry || 'call', w); } catch (e) { r.errors.push({ call: i, what: 'harness: ' + (e.stack || e) }); break; }
    r.calls++;
    const writes = [];
    for (const t of w.trace) if (t[0] === 'sstore') writes.push([BigInt('0x' + t[1]).toString(), t[2].toString()]);
    const want = [];
    for (let k = 0; k < res.writes.length; k += 2) want.push([String(res.writes[k].v), String(res.writes[k + 1].v)]);
    const wl = res.logs.map(l => ({ topics: l.topics.map(String), data: hex(Uint8Array.from(l.data)), at: l.at }));
    const gl = w.logs.map(l => ({ topics: l.topics.map(String), data: hex(l.data), at: res.calls ? l.at : undefined }));
    const cmp = (what, a, b) => {
      if (JSON.stringify(a) === JSON.stringify(b)) return true;
      r.errors.push({ call: i, what, expected: a, got: b }); return false;
    };
    const st = g.st === 'returned' ? 'finish' : g.st;
    let ok = true;
    for (let k = 0; ok && k < Math.min(want.length, writes.length); k++) ok = cmp('storage write ' + k, want[k], writes[k]);
    ok = ok && cmp('outcome', res.st, st);
    ok = ok && cmp('number of storage writes', want.length, writes.length);
    ok = ok && cmp('output', hex(Uint8Array.from(res.out)), hex(Uint8Array.from(g.out)));
    ok = ok && cmp('logs', wl, gl);
    ok = ok && cmp('calls', (res.calls || []).map(c => [c.kind, String(c.gas), String(c.callee), String(c.value), hex(Uint8Array.from(c.data)), c.at]),
                   w.calls.map(c => [c.kind, String(c.gas), String(c.to), String(c.value), hex(c.data), c.at]));
    ok = ok && cmp('contracts created', (res.created || []).map(c => [c.two ? 1 : 0, String(c.value), hex(Uint8Array.from(c.code)), hex(Uint8Array.from(c.data)), String(c.salt), c.at]),
                   w.creates.map(c => [c.is2, String(c.value), hex(c.code), hex(c.data), String(c.salt), c.at]));
    if (!ok) break;
    if (res.st === 'finish' || res.st === 'selfdestruct') storage = w.storage;
  }
  return r;
}
const out = [];
for (const j of jobs) out.push(check(j));
fs.writeFileSync(outFile, JSON.stringify(out));
