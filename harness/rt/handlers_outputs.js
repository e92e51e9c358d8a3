'use strict';
const { wordBytes, fromBE, eqBytes, show } = require('./session.js');
const { compareMemory } = require('./evmmem.js');
const { keccak256 } = require('./keccak.js');
const n = x => Number(BigInt.asIntN(32, x));
module.exports = {
  step(s, c, st) {
    const x = s.x, a = c.args, w = s.world, want = c.out.map(Number);
    s.cells();
    switch (c.op) {
      case 'poke':
        s.poke(n(a[0]), c.data.map(Number));
        break;
      case 'log': {
        const k = Number(a[2]), before = w.logs.length;
        const t = c.exp.map((v, i) => s.put(i, wordBytes(v)));
        const r = s.run(() => x['wrapper_log' + k](n(a[0]), n(a[1]), ...t));
        if (r.halt) return `log${k} ended with ${r.halt} ${r.msg || ''}`;
        if (w.logs.length !== before + 1) return `log${k} emitted ${w.logs.length - before} logs`;
        const l = w.logs[before];
        if (l.topics.length !== k || l.topics.some((v, i) => v !== c.exp[i])) return `log${k} topics [${l.topics.map(v => v.toString(16))}], expected [${c.exp.map(v => v.toString(16))}]`;
        if (!eqBytes(l.data, want)) return `log${k} data ${show(l.data)}, expected ${show(want)}`;
        break;
      }
      case 'hash': {
        s.put(2, new Uint8Array(32).fill(0xEE));
        const r = s.run(() => x.wrapper_keccak256(n(a[0]), n(a[1]), s.ptr(2)));
        if (r.halt) return `keccak256 ended with ${r.halt} ${r.msg || ''}`;
        const e = keccak256(Uint8Array.from(want));
        if (!eqBytes(s.get(2), Array.from(e))) return `keccak256 of ${a[1]} bytes is ${show(s.get(2))}, expected ${show(e)}`;
        break;
      }
      default: {
        const r = s.run(() => {
          switch (c.op) {
            case 'return': return x.wrapper_return(n(a[0]), n(a[1]));
            case 'revert': return x.wrapper_revert(n(a[0]), n(a[1]));
            case 'stop': return x.wrapper_stop();
            case 'invalid': return x.wrapper_invalid();
            case 'selfdestruct': return x.wrapper_selfdestruct(s.put(0, wordBytes(a[2])));
          }
          throw new Error('outputs: no handler for ' + c.op);
        });
        const kind = { return: 'finish', revert: 'revert', stop: 'finish', invalid: 'invalid', selfdestruct: 'selfdestruct' }[c.op];
        if (r.halt !== kind) return `${c.op} ended with ${r.halt || 'a normal return'} ${r.msg || ''}`;
        if (c.op === 'selfdestruct') {
          if (fromBE(r.data) !== a[2] % (1n << 160n)) return `selfdestruct beneficiary ${show(r.data)}`;
        } else if (!eqBytes(r.data, want)) return `${c.op} data ${show(r.data)}, expected ${show(want)}`;
        if (c.exp.length && BigInt(w.logs.length) !== c.exp[0]) return `${w.logs.length} logs, expected ${c.exp[0]}`;
        if (!s.canariesOk()) return `${c.op} wrote outside its operands`;
        w.logs.length = 0; s.fresh();
        return compareMemory(s, st.mem, 4096);
      }
    }
    if (!s.canariesOk()) return `${c.op} wrote outside its operands`;
    return compareMemory(s, st.mem, 230000);
  },
};
