'use strict';
const { wordBytes, fromBE, fromLE, leBytes } = require('./session.js');
const { compareMemory, blobBytes } = require('./evmmem.js');
const n = x => Number(BigInt.asIntN(32, x));
module.exports = {
  begin(s, st) { if (st.cd.w) { s.world.calldata = Uint8Array.from(blobBytes(st.cd.n, st.cd.w)); s.fresh(); } },
  step(s, c, st) {
    const x = s.x, a = c.args;
    if (c.op === 'newtx') { s.world.calldata = Uint8Array.from(c.data.map(Number)); s.fresh(); return null; }
    s.cells();
    if (c.op === 'poke') s.poke(n(a[0]), c.data.map(Number));
    let got = null;
    const r = s.run(() => {
      switch (c.op) {
        case 'poke': break;
        case 'load_u256': x.wrapper_calldataload_u256(n(a[0]), s.ptr(2)); got = fromLE(s.get(2)); break;
        case 'load_bytes32': x.wrapper_calldataload_bytes32(n(a[0]), s.ptr(2)); got = fromBE(s.get(2)); break;
        case 'selector': got = BigInt(x.wrapper_calldata_load_selector() >>> 0); break;
        case 'size': got = BigInt(x.wrapper_calldata_size()); break;
        case 'size_minus_4': got = BigInt(x.wrapper_calldata_size_minus_4()); break;
        case 'copy': x.wrapper_calldata_copy(n(a[0]), n(a[1]), n(a[2])); break;
        case 'mstore_u256': x.wrapper_mstore_u256(n(a[0]), s.put(0, leBytes(a[1]))); break;
        default: throw new Error('calldata: no handler for ' + c.op);
      }
    });
    if (r.halt) return `${c.op}(${a}) ended with ${r.halt} ${r.msg || ''}`;
    if (c.exp.length && got !== c.exp[0]) return `${c.op}(${a}) returned 0x${got.toString(16)}, expected 0x${c.exp[0].toString(16)}`;
    if (!s.canariesOk()) return 'wrote outside the result word';
    return compareMemory(s, st.mem, 200000);
  },
};
