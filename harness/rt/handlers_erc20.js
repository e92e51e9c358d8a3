'use strict';
const { wordBytes, fromBE, eqBytes, show, hex } = require('./session.js');
const { keccak256 } = require('./keccak.js');
const TRANSFER = 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3efn;
const slots = new Map();
const slot = a => {
  if (!slots.has(a)) { const b = new Uint8Array(64); b.set(wordBytes(a)); slots.set(a, hex(keccak256(b))); }
  return slots.get(a);
};
module.exports = {
  step(s, c, st) {
    const x = s.x, a = c.args, w = s.world, want = c.out.map(Number);
    s.cells();
    if (c.op === 'mint') w.storage.set(slot(a[0]), a[1]);
    else if (c.op === 'balance') {
      x.wrapper_sload_bytes32(s.put(0, Buffer.from(slot(a[0]), 'hex')), s.ptr(2));
      if (fromBE(s.get(2)) !== c.exp[0]) return `balance ${show(s.get(2))}, expected 0x${c.exp[0].toString(16)}`;
    } else {
      w.logs.length = 0;
      const before = new Map(w.storage);
      const r = s.run(() => x.wrapper_optimized_erc20_fun_transfer(s.put(0, wordBytes(a[0])), s.put(1, wordBytes(a[1])), s.put(3, wordBytes(a[2]))));
      if (c.exp[0] === 1n) {
        if (r.halt !== 'revert' || !eqBytes(r.data, want)) return `transfer: ${r.halt || 'succeeded'} ${show(r.data || [])}, expected revert ${show(want)}`;
        if (w.logs.length) return 'a reverted transfer logged';
        for (const [k, v] of w.storage) if ((before.get(k) || 0n) !== v) return 'a reverted transfer wrote storage';
        if (!s.canariesOk()) return 'a reverted transfer wrote outside its operands';
        s.fresh(); s.cells();
      } else {
        if (r.halt) return `transfer ended with ${r.halt} ${show(r.data)}`;
        const l = w.logs;
        if (l.length !== 1) return `transfer emitted ${l.length} logs`;
        if (!eqBytes(l[0].data, want)) return `Transfer value ${show(l[0].data)}, expected ${show(want)}`;
        const t = [TRANSFER, c.exp[1], c.exp[2]];
        if (l[0].topics.length !== 3 || l[0].topics.some((v, i) => v !== t[i])) return `Transfer topics ${l[0].topics.map(v => v.toString(16))}`;
        for (const i of [0, 1, 3]) if (fromBE(s.get(i)) !== a[i === 3 ? 2 : i]) return `transfer changed its argument ${i}`;
      }
    }
    if (!s.canariesOk()) return `${c.op} wrote outside its operands`;
    // the ledger in storage is the specification's ledger
    const exp = new Map(); for (const [k, v] of st.bal) exp.set(slot(k), v);
    for (const [k, v] of w.storage) if ((exp.get(k) || 0n) !== v) return `storage slot ${k} is 0x${v.toString(16)}, expected 0x${(exp.get(k) || 0n).toString(16)}`;
    for (const [k, v] of exp) if ((w.storage.get(k) || 0n) !== v) return `storage slot ${k} is missing`;
    return null;
  },
};
