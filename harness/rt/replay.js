'use strict';
// replay.js HANDLER VARIANTS.json OUT.json trace.itf.json...
// Replays behaviours of the specification against the compiled runtime.
const fs = require('fs');
const { Session } = require('./session.js');
const [, , handlerName, variantsFile, outFile, ...traces] = process.argv;
const handler = require('./handlers_' + handlerName + '.js');
const variants = JSON.parse(fs.readFileSync(variantsFile));

function conv(v) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map(conv);
  if ('#bigint' in v) return BigInt(v['#bigint']);
  if ('#map' in v) return new Map(v['#map'].map(([k, x]) => [conv(k), conv(x)]));
  if ('#set' in v) return new Set(v['#set'].map(conv));
  if ('#tup' in v) return v['#tup'].map(conv);
  const o = {}; for (const k of Object.keys(v)) if (k !== '#meta') o[k] = conv(v[k]); return o;
}
const { blobBytes } = require('./evmmem.js');
const unblob = l => l.length ? blobBytes(l[0], l.slice(1)) : [];
const json = v => JSON.parse(JSON.stringify(v, (k, x) => typeof x === 'bigint' ? '0x' + x.toString(16) : x instanceof Map ? [...x] : x));

const out = { traces: 0, runs: 0, execs: 0, steps: 0, ops: {}, violations: [], distinct: 0 };
const seen = new Set();
const MAXV = 20;
// the step under way, for the watchdog: a step that never ends is a finding, not a tool error
const progFd = fs.openSync(outFile + '.progress', 'w');
function progress(file, variant, i) { fs.writeSync(progFd, (file + '\t' + variant + '\t' + i + '\n').padEnd(400), 0); }
for (const file of traces) {
  const doc = JSON.parse(fs.readFileSync(file));
  out.traces++;
  const states = doc.states.map(st => { const o = {}; for (const k of Object.keys(st)) if (k[0] !== '#' && !k.startsWith('mbt::')) o[k.split('::').pop()] = conv(st[k]); return o; });
  // long byte strings come as [length, words...]; a command has all four or none
  for (const { c, cd } of states) if (c && c.out2.length && cd && cd.w)
    for (const k of ['data', 'data2', 'out', 'out2']) c[k] = unblob(c[k]).map(BigInt);
  for (const v of variants) {
    if (handler.accepts && !handler.accepts(v, states)) continue;
    let s = new Session(v);
    out.runs++;
    try { if (handler.begin) handler.begin(s, states[0]); }
    catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      out.violations.push({ variant: v.name, trace: file, index: 0, error: `the runtime traps on its first calls: ${e.message}`, history: [] });
      continue;
    }
    const hist = [];
    for (let i = 0; i < states.length; i++) {
      const st = states[i], c = st.c;
      if (!c || c.op === 'init') continue;
      hist.push(c);
      out.execs++;
      progress(file, v.name, i);
      let err;
      // a trap is an answer of the runtime; anything else is a mistake of the harness
      try { err = handler.step(s, c, st); }
      catch (e) {
        if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError && /call stack/.test(e.message))) throw e;
        err = `${c.op} traps: ${e.message}`;
      }
      if (v === variants[0]) {
        out.steps++; out.ops[c.op] = (out.ops[c.op] || 0) + 1;
        const key = c.op + '|' + c.args.join(',') + '|' + c.data.join('.') + '|' + c.data2.join('.');
        if (!seen.has(key)) seen.add(key);
        if (!out.sample && i > 2) out.sample = { trace: require('path').basename(file), step: i, command: json(c) };
      }
      if (err && handler.known && handler.known(v, c, st, err)) err = null;
      if (err) {
        if (out.violations.length < MAXV)
          out.violations.push({ variant: v.name, trace: file, index: i, error: err, history: json(handler.stateless ? [c] : hist.slice(-40)) });
        if (!handler.stateless) break;
        s = new Session(v);
      }
    }
  }
}
out.distinct = seen.size;
fs.writeFileSync(outFile, JSON.stringify(out, null, 1));
