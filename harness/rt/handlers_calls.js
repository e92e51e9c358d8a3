'use strict';
const { wordBytes, fromBE, leBytes, eqBytes, show } = require('./session.js');
const { compareMemory } = require('./evmmem.js');
const n = x => Number(BigInt.asIntN(32, x));
const LIMIT = 230000;
module.exports = {
  begin(s) { s.world.returndata = new Uint8Array(0); },
  step(s, c, st) {
    const x = s.x, a = c.args, w = s.world;
    const ret = c.data.map(Number), want = c.out.map(Number), input = c.out2.map(Number);
    // the transaction ended: a new instance, empty return data
    let dirty = false;
    const restart = () => { dirty = !s.canariesOk(); s.fresh(); s.cells(); w.returndata = new Uint8Array(0); };
    s.cells();
    switch (c.op) {
      case 'poke': {
        s.poke(n(a[0]), c.data.map(Number));
        break;
      }
      case 'returndatasize': {
        const r = s.run(() => x.wrapper_returndata_size() >>> 0);
        if (r.halt || BigInt(r.ret) !== c.exp[0]) return `returndatasize gave ${r.halt || r.ret}, expected ${c.exp[0]}`;
        break;
      }
      case 'returndatacopy': {
        const r = s.run(() => x.wrapper_returndata_copy(n(a[0]), n(a[1]), n(a[2])));
        if (c.exp[0] === 1n) { if (r.halt !== 'returndata-oob') return `returndatacopy past the end did not halt (${r.halt})`; restart(); break; }
        if (r.halt) return `returndatacopy ended with ${r.halt} ${r.msg || ''}`;
        break;
      }
      case 'create': case 'create2': {
        const two = c.op === 'create2';
        const img = input, code = c.data.map(Number), args = c.data2.map(Number);
        s.poke(n(a[1]), img);
        w.creates.length = 0;
        w.onCreate = () => ({ status: Number(a[4]), addr: a[5] });
        s.put(2, new Uint8Array(32).fill(0xEE));
        const r = s.run(() => two
          ? x.wrapper_create2(s.put(0, leBytes(a[0])), n(a[1]), n(a[2]), s.put(1, leBytes(a[3])), s.ptr(2))
          : x.wrapper_create(s.put(0, leBytes(a[0])), n(a[1]), n(a[2]), s.ptr(2)));
        if (w.creates.length !== 1) return `${w.creates.length} contracts were created`;
        const q = w.creates[0];
        if (q.value !== a[0]) return `create passed value 0x${q.value.toString(16)}, expected 0x${a[0].toString(16)}`;
        if (q.is2 !== (two ? 1 : 0)) return 'create and create2 are confused';
        if (two && q.salt !== a[3]) return `create2 passed salt 0x${q.salt.toString(16)}, expected 0x${a[3].toString(16)}`;
        if (!eqBytes(q.code, img.slice(0, 4 + code.length))) return `create passed code ${show(q.code)}`;
        if (!eqBytes(q.data, args)) return `create passed constructor arguments ${show(q.data)}, expected ${show(args)}`;
        if (c.exp[0] === 1n) {
          if (r.halt !== 'revert' || !eqBytes(r.data, want)) return `failed ${c.op}: ${r.halt || 'returned'} ${show(r.data || [])}, expected revert ${show(want)}`;
          restart(); break;
        }
        if (r.halt) return `${c.op} ended with ${r.halt} ${r.msg || ''}`;
        if (fromBE(s.get(2)) !== c.exp[1]) return `${c.op} returned ${show(s.get(2))}, expected 0x${c.exp[1].toString(16)}`;
        break;
      }
      default: {
        const [gas, addr, value, inO, inL, outO, outL, status] = a;
        w.calls.length = 0;
        w.onCall = () => ({ status: Number(status), ret });
        const g = BigInt.asIntN(64, gas);
        const r = s.run(() => {
          s.put(0, wordBytes(addr));
          if (c.op === 'call') return x.wrapper_call_contract(g, s.ptr(0), s.put(1, leBytes(value)), n(inO), n(inL), n(outO), n(outL));
          if (c.op === 'delegatecall') return x.wrapper_delegatecall(g, s.ptr(0), n(inO), n(inL), n(outO), n(outL));
          if (c.op === 'staticcall') return x.wrapper_staticcall(g, s.ptr(0), n(inO), n(inL), n(outO), n(outL));
          throw new Error('calls: no handler for ' + c.op);
        });
        if (w.calls.length !== 1) return `${w.calls.length} host calls were made`;
        const q = w.calls[0];
        const kind = c.op;
        if (q.kind !== kind) return `${kind} reached the host as ${q.kind}`;
        if (q.gas !== gas) return `gas ${q.gas}, expected ${gas}`;
        if (q.to !== addr % (1n << 160n)) return `callee 0x${q.to.toString(16)}, expected 0x${(addr % (1n << 160n)).toString(16)}`;
        if (q.value !== value) return `value 0x${q.value.toString(16)}, expected 0x${value.toString(16)}`;
        if (!eqBytes(q.data, input)) return `input ${show(q.data)}, expected ${show(input)}`;
        if (c.exp[0] === 1n) {
          if (r.halt !== 'revert' || !eqBytes(r.data, want)) return `${kind} status ${status}: ${r.halt || 'returned ' + r.ret} ${show(r.data || [])}, expected revert ${show(want)}`;
          restart(); break;
        }
        if (r.halt) return `${kind} ended with ${r.halt} ${r.msg || ''} ${show(r.data)}`;
        if (BigInt(r.ret >>> 0) !== c.exp[1]) return `${kind} returned ${r.ret}, expected ${c.exp[1]}`;
      }
    }
    if (dirty || !s.canariesOk()) return 'wrote outside the result word';
    return compareMemory(s, st.mem, LIMIT);
  },
};
