'use strict';
const { wordBytes, fromBE, fromLE, leBytes, hex } = require('./session.js');
const n = x => Number(BigInt.asIntN(32, x));
const MSG = 'immutable slot already set';
const key = k => hex(wordBytes(k));
module.exports = {
  begin(s) { s.imm = new Set(); },
  step(s, c, st) {
    const x = s.x, a = c.args, w = s.world;
    if (c.op === 'newtx') { w.transient = new Map(); s.fresh(); return null; }
    s.cells();
    let got = null;
    const before = new Map(w.storage);
    const r = s.run(() => {
      switch (c.op) {
        case 'sstore_u256': x.wrapper_sstore_u256(s.put(0, leBytes(a[0])), s.put(1, leBytes(a[1]))); break;
        case 'sstore_bytes32': x.wrapper_sstore_bytes32(s.put(0, wordBytes(a[0])), s.put(1, wordBytes(a[1]))); break;
        case 'sstore_le': x.wrapper_sstore_u256_using_little_endian_hostapi(s.put(0, wordBytes(a[0])), s.put(1, leBytes(a[1]))); break;
        case 'tstore_u256': x.wrapper_tstore_u256(s.put(0, leBytes(a[0])), s.put(1, leBytes(a[1]))); break;
        case 'tstore_bytes32': x.wrapper_tstore_bytes32(s.put(0, wordBytes(a[0])), s.put(1, wordBytes(a[1]))); break;
        case 'sload_u256': x.wrapper_sload_u256(s.put(0, wordBytes(a[0])), s.ptr(2)); got = fromLE(s.get(2)); break;
        case 'sload_bytes32': x.wrapper_sload_bytes32(s.put(0, wordBytes(a[0])), s.ptr(2)); got = fromBE(s.get(2)); break;
        case 'sload_le': x.wrapper_sload_u256_using_little_endian_hostapi(s.put(0, wordBytes(a[0])), s.ptr(2)); got = fromLE(s.get(2)); break;
        case 'tload_u256': x.wrapper_tload_u256(s.put(0, wordBytes(a[0])), s.ptr(2)); got = fromLE(s.get(2)); break;
        case 'tload_bytes32': x.wrapper_tload_bytes32(s.put(0, wordBytes(a[0])), s.ptr(2)); got = fromBE(s.get(2)); break;
        case 'setimmutable': x.wrapper_setimmutable(n(a[2]), s.put(0, leBytes(a[0])), s.put(1, leBytes(a[1]))); break;
        case 'loadimmutable': x.wrapper_loadimmutable(s.put(0, leBytes(a[0])), s.ptr(2)); got = fromLE(s.get(2)); break;
        default: throw new Error('storage: no handler for ' + c.op);
      }
    });
    if (c.op === 'setimmutable') {
      if (c.exp[0] === 0n) {
        if (r.halt !== 'revert') return 'setting an immutable a second time did not revert';
        if (Buffer.from(r.data).toString('latin1') !== MSG) return 'second set reverted with ' + JSON.stringify(Buffer.from(r.data).toString('latin1'));
        s.fresh();
      } else if (r.halt) return 'first set of an immutable ended with ' + r.halt;
    } else {
      if (r.halt) return `${c.op} ended with ${r.halt} ${r.msg || ''}`;
      if (c.exp.length && got !== c.exp[0]) return `${c.op}(0x${a[0].toString(16)}) returned 0x${got.toString(16)}, expected 0x${c.exp[0].toString(16)}`;
      if (!s.canariesOk()) return 'wrote outside the result word';
    }
    for (const [k, v] of st.sto) { const g = w.storage.get(key(k)) || 0n; if (g !== v) return `storage[0x${k.toString(16)}] is 0x${g.toString(16)}, expected 0x${v.toString(16)}`; }
    for (const [k, v] of st.tra) { const g = w.transient.get(key(k)) || 0n; if (g !== v) return `transient[0x${k.toString(16)}] is 0x${g.toString(16)}, expected 0x${v.toString(16)}`; }
    // nothing else may appear in storage, except the marker of a set immutable
    if (c.op !== 'setimmutable') {
      const changed = [...w.storage].filter(([k, v]) => (before.get(k) || 0n) !== v).map(([k]) => k);
      const allowed = c.op.startsWith('sstore') ? key(a[0]) : null;
      for (const k of changed) if (k !== allowed) return `${c.op} changed storage key 0x${k}`;
    }
    if (w.transient.size > 0 && !c.op.startsWith('t')) { /* compared above */ }
    for (const k of w.transient.keys()) if (!st.tra.has(BigInt('0x' + k)) && w.transient.get(k) !== 0n) return `${c.op} changed transient key 0x${k}`;
    return null;
  },
};
