'use strict';
const { wordBytes, fromBE, fromLE, leBytes, eqBytes, show } = require('./session.js');
const { compareMemory } = require('./evmmem.js');
const n = x => Number(BigInt.asIntN(32, x));
const M = (1n << 256n) - 1n;
const initial = (seed, j) => (seed * (2n * BigInt(j) + 1n) + BigInt(j)) & M;
function reset(s) { s.batches = []; s.taken = new Set(); s.evmHigh = 0; }
module.exports = {
  accepts: () => true,
  begin(s) { reset(s); },
  step(s, c, st) {
    const x = s.x, a = c.args;
    const at = (b, j) => s.mem().slice(s.batches[b].p[j], s.batches[b].p[j] + 32);
    const put = (b, j, v) => s.mem().set(s.batches[b].kind ? leBytes(v) : wordBytes(v), s.batches[b].p[j]);
    let r;
    switch (c.op) {
      case 'alloca': {
        const kind = Number(a[0]), bt = { kind, p: [] };
        const b = s.batches.length; s.batches.push(bt);
        for (let j = 0; j < Number(a[1]); j++) {
          r = s.run(() => (kind ? x.memory_alloca_u256() : x.memory_alloca_bytes32()) >>> 0);
          if (r.halt) return `scratch cell ${j} of batch ${b}: ${r.halt} ${r.msg || ''}`;
          const p = r.ret;
          if (p + 32 > s.mem().length) return `scratch cell at ${p} is outside memory`;
          if (s.overlaps === undefined) s.overlaps = 0;
          for (let q = p - 31; q <= p + 31; q++) if (s.taken.has(q)) return `scratch cell at ${p} overlaps the one at ${q}`;
          s.taken.add(p); bt.p.push(p);
          put(b, j, initial(a[2], j));
        }
        break;
      }
      case 'check': {
        const b = Number(a[0]), bt = s.batches[b], v = at(b, Number(a[1]));
        const got = bt.kind ? fromLE(v) : fromBE(v);
        if (got !== c.exp[0]) return `scratch cell ${a[1]} of batch ${b} holds 0x${got.toString(16)}, expected 0x${c.exp[0].toString(16)}`;
        break;
      }
      case 'write': put(Number(a[0]), Number(a[1]), a[2]); break;
      case 'mstore':
        s.cells();
        r = s.run(() => x.wrapper_mstore_u256(n(a[0]), s.put(0, leBytes(a[1]))));
        if (r.halt) return `mstore ended with ${r.halt}`;
        break;
      case 'setptr': x.wrapper_set_memptr_global(n(a[0])); break;
      case 'getptr': if (BigInt(x.wrapper_get_memptr_global() >>> 0) !== c.exp[0]) return `free memory pointer ${x.wrapper_get_memptr_global() >>> 0}, expected ${c.exp[0]}`; break;
      case 'guard': {
        const g = BigInt(x.wrapper_memory_guard(n(a[0])) >>> 0);
        if (g < a[0]) return `memoryguard(${a[0]}) returned ${g}, below the reserved size`;
        break;
      }
      case 'zero': {
        const p = x.wrapper_zero_bytes32() >>> 0;
        if (!eqBytes(s.mem().slice(p, p + 32), new Uint8Array(32))) return 'the zero constant is not zero';
        for (let q = p - 31; q <= p + 31; q++) if (s.taken.has(q)) return `the zero constant overlaps the scratch cell at ${q}`;
        break;
      }
      case 'allocate': {
        r = s.run(() => x.wrapper_allocate_memory(n(a[0])) >>> 0);
        if (c.exp[0] === 1n) {
          if (r.halt !== 'revert' || !eqBytes(r.data, c.out.map(Number))) return `allocate_memory(${a[0]}): ${r.halt || 'returned ' + r.ret} ${show(r.data || [])}, expected a panic`;
          s.fresh(); reset(s); break;
        }
        if (r.halt) return `allocate_memory(${a[0]}) ended with ${r.halt} ${r.msg || ''}`;
        if (BigInt(r.ret) !== c.exp[1]) return `allocate_memory(${a[0]}) returned ${r.ret}, expected ${c.exp[1]}`;
        break;
      }
      default: throw new Error('alloc: no handler for ' + c.op);
    }
    // a sixteenth of all cells, plus EVM memory, after every step
    const over = new Map(); for (const [k, v] of st.over) over.set(`${k[0]},${k[1]}`, v);
    for (let b = 0; b < s.batches.length; b++) for (let j = (b + Number(st.i)) % 16; j < s.batches[b].p.length; j += 16) {
      const e = over.has(`${b},${j}`) ? over.get(`${b},${j}`) : initial(st.batches[b].seed, j);
      const v = at(b, j), got = s.batches[b].kind ? fromLE(v) : fromBE(v);
      if (got !== e) return `after ${c.op}: scratch cell ${j} of batch ${b} holds 0x${got.toString(16)}, expected 0x${e.toString(16)}`;
    }
    if (st.any) return null;
    return compareMemory(s, st.mem, st.many ? 16384 : 200000);
  },
};
