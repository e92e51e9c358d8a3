'use strict';
const { wordBytes, fromBE, fromLE, leBytes, eqBytes, show } = require('./session.js');
const { compareMemory } = require('./evmmem.js');
const n = x => Number(x) | 0;
module.exports = {
  accepts: () => true,
  step(s, c, st) {
    s.cells();
    const x = s.x, a = c.args;
    if (c.op === 'poke') s.poke(n(a[0]), c.data.map(Number));
    let got = null, seen = null, below = null, below0 = null;
    const r = s.run(() => {
      switch (c.op) {
        case 'poke': break;
        case 'mstore_u256': x.wrapper_mstore_u256(n(a[0]), s.put(0, leBytes(a[1]))); break;
        case 'mstore_bytes32': x.wrapper_mstore_bytes32(n(a[0]), s.put(0, wordBytes(a[1]))); break;
        case 'mstore_u32': x.wrapper_mstore_u32(n(a[0]), n(a[1])); break;
        case 'mstore_u64': x.wrapper_mstore_u64(n(a[0]), BigInt.asIntN(64, a[1])); break;
        case 'mstore_u8': x.wrapper_mstore_u8(n(a[0]), n(a[1])); break;
        case 'mload_u256': x.wrapper_mload_u256(n(a[0]), s.ptr(2)); got = fromLE(s.get(2)); break;
        case 'mload_bytes32': x.wrapper_mload_bytes32(n(a[0]), s.ptr(2)); got = fromBE(s.get(2)); break;
        case 'mload_u32': got = BigInt(x.wrapper_mload_u32(n(a[0])) >>> 0); break;
        case 'mload_u64': got = BigInt.asUintN(64, x.wrapper_mload_u64(n(a[0]))); break;
        case 'mstore_wrap': below0 = s.mem().slice(s.evmBase() - 64, s.evmBase()); x.wrapper_mstore_u256(n(a[0]), s.put(0, leBytes(a[1])));
          below = s.mem().slice(s.evmBase() - 64, s.evmBase()); break;
        case 'msize': got = BigInt.asUintN(64, x.wrapper_memory_size()); break;
        case 'mcopy': x.wrapper_mcopy(n(a[0]), n(a[1]), n(a[2])); break;
        case 'hash': s.world.onKeccak = b => { seen = Array.from(b); return wordBytes(0x1234n); };
          x.wrapper_keccak256(n(a[0]), n(a[1]), s.ptr(2)); got = fromBE(s.get(2)); break;
        default: throw new Error('memory: no handler for ' + c.op);
      }
    });
    if (c.op === 'mstore_wrap') return below && !eqBytes(below, below0) ? 'a store near 2^32 wrapped around and changed memory below the EVM memory' : null;
    if (r.halt) return `${c.op} ended with ${r.halt} ${r.msg || ''}`;
    if (c.op === 'hash') {
      const e = c.out.map(Number);
      if (!eqBytes(seen, e)) return `hash read ${show(seen)}, expected ${show(e)}`;
      if (got !== 0x1234n) return 'hash result was not delivered';
    } else if (c.exp.length && got !== c.exp[0]) return `${c.op} returned 0x${got.toString(16)}, expected 0x${c.exp[0].toString(16)}`;
    if (!s.canariesOk()) return 'wrote outside the result word';
    if (st.nocompare) return null;
    return compareMemory(s, st.mem, 230000);
  },
};
