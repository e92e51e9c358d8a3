'use strict';
const { wordBytes, fromBE, fromLE, leBytes, I32 } = require('./session.js');
// returns {exp, got} values; the driver compares.
const BB = (name) => (s, a, b) => { const p = s.put(0, wordBytes(a)), q = s.put(1, wordBytes(b)); const r = s.x[name](p, q);
  return { val: BigInt(r >>> 0), inputs: [[0, wordBytes(a)], [1, wordBytes(b)]] }; };
const B3 = (name) => (s, a, b) => { const p = s.put(0, wordBytes(a)), q = s.put(1, wordBytes(b)); s.x[name](p, q, s.ptr(2));
  return { val: fromBE(s.get(2)), inputs: [[0, wordBytes(a)], [1, wordBytes(b)]] }; };
const H = {
  lt: BB('wrapper_bytes32_lt'), gt: BB('wrapper_bytes32_gt'), slt: BB('wrapper_bytes32_slt'), sgt: BB('wrapper_bytes32_sgt'),
  eq: BB('wrapper_bytes32_eq'),
  iszero: (s, a) => { const p = s.put(0, wordBytes(a)); return { val: BigInt(s.x.wrapper_bytes32_iszero(p) >>> 0), inputs: [[0, wordBytes(a)]] }; },
  not: (s, a) => { const p = s.put(0, wordBytes(a)); s.x.wrapper_bytes32_not(p, s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [[0, wordBytes(a)]] }; },
  and: B3('wrapper_bytes32_and'), or: B3('wrapper_bytes32_or'), xor: B3('wrapper_bytes32_xor'), badd: B3('wrapper_bytes32_add'),
  bshl: (s, a, b, n) => { s.x.wrapper_bytes32_shl(s.put(0, wordBytes(a)), I32(n), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [[0, wordBytes(a)]] }; },
  bshr: (s, a, b, n) => { s.x.wrapper_bytes32_shr(s.put(0, wordBytes(a)), I32(n), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [[0, wordBytes(a)]] }; },
  ushl: (s, a, b, n) => { s.x.wrapper_u256_shl(s.put(0, leBytes(a)), I32(n), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, leBytes(a)]] }; },
  ushr: (s, a, b, n) => { s.x.wrapper_u256_shr(s.put(0, leBytes(a)), I32(n), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, leBytes(a)]] }; },
  exp: (s, a, b) => { s.x.wrapper_exp(s.put(0, leBytes(a)), s.put(1, leBytes(b)), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, leBytes(a)], [1, leBytes(b)]] }; },
  signextend: (s, a, b, n) => { s.x.wrapper_sign_extend(I32(n), s.put(0, leBytes(a)), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, leBytes(a)]] }; },
  u256_to_be: (s, a) => { s.x.u256_to_big_endian_bytes(s.put(0, leBytes(a)), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [[0, leBytes(a)]] }; },
  u256_from_be: (s, a) => { s.x.u256_from_big_endian_bytes(s.put(0, wordBytes(a)), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, wordBytes(a)]] }; },
  decode_be: (s, a) => { s.x.wrapper_decode_big_endian_i256_from_wasm_mem(s.put(0, wordBytes(a)), s.ptr(2)); return { val: fromLE(s.get(2)), inputs: [[0, wordBytes(a)]] }; },
  i32_to_be: (s, a) => { s.x.i32_to_bytes32_big_endian_bytes(I32(a), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [] }; },
  i32_from_be: (s, a) => { const r = s.x.i32_from_big_endian_bytes32(s.put(0, wordBytes(a))); return { val: BigInt(r >>> 0), inputs: [[0, wordBytes(a)]] }; },
  addmod: (s, a, b, n) => { s.x.wrapper_addmod(s.put(0, wordBytes(a)), s.put(1, wordBytes(b)), s.put(3, wordBytes(n)), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [] }; },
  mulmod: (s, a, b, n) => { s.x.wrapper_mulmod(s.put(0, wordBytes(a)), s.put(1, wordBytes(b)), s.put(3, wordBytes(n)), s.ptr(2)); return { val: fromBE(s.get(2)), inputs: [] }; },
};
const BOOLOPS = new Set(['lt', 'gt', 'slt', 'sgt', 'eq', 'iszero']);
module.exports = {
  stateless: true,
  step(s, c) {
    s.cells();
    const f = H[c.op];
    if (!f) throw new Error('words: no handler for ' + c.op);
    const r = s.run(() => f(s, ...c.args));
    if (r.halt) return `${c.op}: expected ${c.exp[0]}, got ${r.halt} ${r.msg || ''}`;
    // a BOOL is true when non-zero
    const val = BOOLOPS.has(c.op) ? (r.ret.val !== 0n ? 1n : 0n) : r.ret.val;
    if (val !== c.exp[0]) return `expected 0x${c.exp[0].toString(16)}, got 0x${val.toString(16)}`;
    for (const [i, b] of r.ret.inputs) if (Buffer.compare(Buffer.from(s.get(i)), Buffer.from(b)) !== 0) return 'an input operand was modified';
    if (!s.canariesOk()) return 'wrote outside the result word';
    return null;
  },
};
