'use strict';
const { wordBytes } = require('./host.js');
// Compare the whole EVM memory of an instance with the specification's memory.
function expectedMemory(map, limit) {
  const b = Buffer.alloc(limit);
  for (const [pg, ws] of map) for (let i = 0; i < 32; i++) {
    const a = Number(pg) * 1024 + 32 * i, w = ws[i];
    if (w === 0n) continue;
    const wb = wordBytes(w);
    for (let k = 0; k < 32; k++) { if (a + k < limit) b[a + k] = wb[k]; else if (wb[k]) throw new Error('spec memory beyond limit'); }
  }
  return b;
}
function compareMemory(s, map, limit) {
  for (const pg of map.keys()) limit = Math.max(limit, (Number(pg) + 1) * 1024);
  const base = s.evmBase(), m = s.mem();
  const avail = Math.min(limit, m.length - base);
  const exp = expectedMemory(map, limit);
  const got = Buffer.from(m.buffer, base, avail);
  if (Buffer.compare(got, exp.subarray(0, avail)) !== 0) {
    let i = 0; while (got[i] === exp[i]) i++;
    return `EVM memory byte ${i} is ${got[i]}, expected ${exp[i]}`;
  }
  for (let i = avail; i < limit; i++) if (exp[i] !== 0) return `EVM memory byte ${i} was never materialised, expected ${exp[i]}`;
  return null;
}
// a long byte string of the specification: [length, words...]
function blobBytes(n, ws) {
  const b = new Uint8Array(32 * ws.length);
  ws.forEach((w, i) => b.set(wordBytes(w), 32 * i));
  return Array.from(b.slice(0, Number(n)));
}
module.exports = { compareMemory, blobBytes };
