'use strict';
const { Halt, World, instantiate, hex, wordBytes, fromBE, fromLE, leBytes } = require('./host.js');

// Argument buffers live at the bottom of the wasm shadow stack (which grows
// down from 32K/64K), each in a 96-byte cell: 32 canary + 32 payload + 32 canary.
const CELL = 96, BASE = 256, NCELLS = 16, CAN = 0xC5;

class Session {
  constructor(variant) { this.v = variant; this.world = new World(); this.fresh(); }
  // a new wasm instance for the same world (a new transaction)
  fresh() {
    this.inst = instantiate(this.v.wasm, this.world);
    this.x = this.inst.exports;
    if (this.v.init !== undefined && this.x.__init_evm_heap) this.x.__init_evm_heap(this.v.init);
  }
  mem() { return new Uint8Array(this.x.memory.buffer); }
  cells() { this.mem().fill(CAN, BASE, BASE + CELL * NCELLS); }
  ptr(i) { return BASE + CELL * i + 32; }
  put(i, bytes) { this.mem().set(bytes, this.ptr(i)); return this.ptr(i); }
  get(i, n = 32) { return this.mem().slice(this.ptr(i), this.ptr(i) + n); }
  canariesOk() {
    const m = this.mem();
    for (let i = 0; i < NCELLS; i++) {
      for (let j = 0; j < 32; j++) {
        if (m[BASE + CELL * i + j] !== CAN || m[BASE + CELL * i + 64 + j] !== CAN) return false;
      }
    }
    return true;
  }
  // where EVM memory starts: found by storing a marker through the public
  // interface of a throw-away instance
  evmBase() {
    if (this.v.base === undefined) {
      const t = new Session(Object.assign({}, this.v, { base: 0 }));
      const mark = Uint8Array.from({ length: 32 }, (_, i) => (i * 89 + 41) & 0xff);
      t.put(0, mark);
      t.x.wrapper_mstore_bytes32(0, t.ptr(0));
      const m = Buffer.from(t.x.memory.buffer);
      m.fill(0, t.ptr(0), t.ptr(0) + 32);
      // the runtime may keep further copies on its stack below
      const at = m.lastIndexOf(Buffer.from(mark));
      if (at < 0) throw new Error('EVM memory not found');
      this.v.base = at;
    }
    return this.v.base;
  }
  // bytes into EVM memory, through the public interface
  poke(off, bytes) {
    const n = bytes.length;
    if (n === 0) return;
    // materialise the range, then fill it in
    this.x.wrapper_mstore_u8(off + n - 1, bytes[n - 1]);
    this.mem().set(bytes, this.evmBase() + off);
  }
  // run f; turn finish/revert/trap into data
  run(f) {
    try { return { ret: f() }; }
    catch (e) {
      if (e instanceof Halt) return { halt: e.kind, data: Array.from(e.data) };
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { halt: 'trap', msg: String(e.message), data: [] };
      throw e;
    }
  }
}

const I32 = x => Number(BigInt.asIntN(32, x));
const eqBytes = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const show = b => '0x' + hex(Uint8Array.from(b));

module.exports = { Session, I32, eqBytes, show, Halt, World, hex, wordBytes, fromBE, fromLE, leBytes };
