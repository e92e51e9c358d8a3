'use strict';
const { wordBytes } = require('./session.js');
const { compareMemory, blobBytes } = require('./evmmem.js');
const n = x => Number(BigInt.asIntN(32, x));
// scratch for "embedded data": the lower half of the shadow stack, always
// below the EVM memory, like the data segments of a linked contract
const DATA = 8192;
module.exports = {
  begin(s, st) {
    if (!st.cd) return;
    const w = s.world, b = x => Uint8Array.from(blobBytes(x.n, x.w));
    w.code = b(st.code); w.calldata = b(st.ctor); w.extcode.set(5n, b(st.ext));
    s.fresh();
    if (st.deploying) s.x.set_is_deploying_tx();
  },
  step(s, c, st) {
    const x = s.x, a = c.args, w = s.world, bytes = c.data.map(Number);
    if (c.op === 'newtx') {
      w.code = Uint8Array.from(bytes); w.calldata = Uint8Array.from(c.data2.map(Number));
      s.fresh();
      if (a[0] === 1n) x2(s).set_is_deploying_tx();
      return null;
    }
    if (c.op === 'setext') { w.extcode.set(a[0], Uint8Array.from(bytes)); return null; }
    s.cells();
    if (c.op === 'poke') s.poke(n(a[0]), bytes);
    let got = null;
    const r = s.run(() => {
      switch (c.op) {
        case 'poke': return;
        case 'codecopy': return x.wrapper_codecopy(n(a[0]), n(a[1]), n(a[2]));
        case 'codesize': got = BigInt(x.wrapper_current_contract_code_size() >>> 0); return;
        case 'purecodesize': got = BigInt(x.wrapper_current_contract_pure_contract_size() >>> 0); return;
        case 'extcodecopy': return x.wrapper_extcode_copy(s.put(0, wordBytes(a[0])), n(a[1]), n(a[2]), n(a[3]));
        case 'datacopy': case 'codecopy_data': {
          const p = DATA + n(a[1]);
          s.mem().set(bytes, p);
          const rel = p - s.evmBase();
          return c.op === 'datacopy' ? x.wrapper_data_copy(n(a[0]), rel, n(a[2])) : x.wrapper_codecopy(n(a[0]), rel, n(a[2]));
        }
      }
      throw new Error('code: no handler for ' + c.op);
    });
    if (r.halt) return `${c.op}(${a}) ended with ${r.halt} ${r.msg || ''}`;
    if (c.exp.length && got !== c.exp[0]) return `${c.op} returned ${got}, expected ${c.exp[0]}`;
    if (!s.canariesOk()) return `${c.op} wrote outside its operands`;
    return compareMemory(s, st.mem, 230000);
  },
};
const x2 = s => s.x;
