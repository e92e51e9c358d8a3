'use strict';
// Mock DTVM host: the EVM world outside one wasm contract instance.
const fs = require('fs');
const { keccak256 } = require('./keccak.js');

class Halt extends Error {
  constructor(kind, data) { super(kind); this.kind = kind; this.data = data || []; }
}
const hex = b => Buffer.from(b).toString('hex');
const wordBytes = x => { const o = new Uint8Array(32); for (let i = 31; i >= 0; i--) { o[i] = Number(x & 0xffn); x >>= 8n; } return o; };
const fromBE = b => { let v = 0n; for (const x of b) v = (v << 8n) | BigInt(x); return v; };
const fromLE = b => fromBE(Array.from(b).reverse());
const leBytes = x => wordBytes(x).reverse();
const U = x => x >>> 0;

class World {
  constructor() {
    this.storage = new Map(); this.transient = new Map();
    this.logs = []; this.calls = []; this.creates = []; this.trace = [];
    this.env = {
      address: 0x1111111111111111111111111111111111111111n, caller: 0x2222222222222222222222222222222222222222n,
      origin: 0x3333333333333333333333333333333333333333n, coinbase: 0x4444444444444444444444444444444444444444n,
      prevrandao: 5n, callvalue: 0n, gasprice: 1n, basefee: 2n, blobbasefee: 3n, chainid: 4n,
      gas: 1000000n, gaslimit: 30000000n, timestamp: 1700000000n, number: 100n,
    };
    this.calldata = new Uint8Array(0);
    this.code = new Uint8Array(0);
    this.balances = new Map(); this.extcode = new Map(); this.blockhash = null; this.codehash = null;
    this.returndata = new Uint8Array(0);
    this.onCall = null; this.onCreate = null; this.onKeccak = null; this.strictHalt = true;
    this.debug = [];
  }
}

function makeImports(world, inst) {
  const mem = () => new Uint8Array(inst.exports.memory.buffer);
  const rd = (p, n) => {
    p = U(p); n = U(n); const m = mem();
    if (p + n > m.length) throw new Halt('host-oob');
    return m.slice(p, p + n);
  };
  const wr = (p, b) => {
    p = U(p); const m = mem();
    if (p + b.length > m.length) throw new Halt('host-oob');
    m.set(b, p);
  };
  const addr = x => wordBytes(x).slice(12);
  const pad = (src, off, len) => {
    off = U(off); len = U(len);
    if (len > 0x1000000) throw new Halt('host-oob');
    const o = new Uint8Array(len);
    if (off < src.length) o.set(src.slice(off, Math.min(src.length, off + len)));
    return o;
  };
  const E = world.env;
  const env = {
    getAddress: p => wr(p, addr(E.address)),
    getCaller: p => wr(p, addr(E.caller)),
    getTxOrigin: p => wr(p, addr(E.origin)),
    getBlockCoinbase: p => wr(p, addr(E.coinbase)),
    getBlockPrevRandao: p => wr(p, world.prevrandao20 ? addr(E.prevrandao) : wordBytes(E.prevrandao)),
    getCallValue: p => wr(p, wordBytes(E.callvalue)),
    getTxGasPrice: p => wr(p, wordBytes(E.gasprice)),
    getBaseFee: p => wr(p, wordBytes(E.basefee)),
    getBlobBaseFee: p => wr(p, wordBytes(E.blobbasefee)),
    getChainId: p => wr(p, wordBytes(E.chainid)),
    getGasLeft: () => BigInt.asIntN(64, E.gas),
    getBlockGasLimit: () => BigInt.asIntN(64, E.gaslimit),
    getBlockTimestamp: () => BigInt.asIntN(64, E.timestamp),
    getBlockNumber: () => BigInt.asIntN(64, E.number),
    getBlockHash: (n, p) => {
      n = BigInt.asUintN(64, n);
      world.trace.push(['blockhash', n]);
      const h = world.blockhash ? world.blockhash(n) : 0n;
      wr(p, wordBytes(h)); return 1;
    },
    getCallDataSize: () => world.calldata.length,
    callDataCopy: (t, o, n) => wr(t, pad(world.calldata, o, n)),
    getExternalBalance: (a, p) => { wr(p, wordBytes(world.balances.get(fromBE(rd(a, 20))) || 0n)); },
    getExternalCodeHash: (a, p) => {
      const k = fromBE(rd(a, 20));
      wr(p, wordBytes(world.codehash ? world.codehash(k) : 0n));
    },
    getExternalCodeSize: a => (world.extcode.get(fromBE(rd(a, 20))) || []).length,
    externalCodeCopy: (a, t, o, n) => wr(t, pad(Uint8Array.from(world.extcode.get(fromBE(rd(a, 20))) || []), o, n)),
    storageLoad: (k, p) => wr(p, wordBytes(world.storage.get(hex(rd(k, 32))) || 0n)),
    storageStore: (k, v) => { const kk = hex(rd(k, 32)), vv = fromBE(rd(v, 32)); world.storage.set(kk, vv); world.trace.push(['sstore', kk, vv]); },
    storageLoadLittleEndian: (k, p) => wr(p, leBytes(world.storage.get(hex(rd(k, 32))) || 0n)),
    storageStoreLittleEndian: (k, v) => { const kk = hex(rd(k, 32)), vv = fromLE(rd(v, 32)); world.storage.set(kk, vv); world.trace.push(['sstore', kk, vv]); },
    transientLoad: (k, p) => wr(p, wordBytes(world.transient.get(hex(rd(k, 32))) || 0n)),
    transientStore: (k, v) => { world.transient.set(hex(rd(k, 32)), fromBE(rd(v, 32))); },
    codeCopy: (t, o, n) => wr(t, pad(world.code, o, n)),
    getCodeSize: () => world.code.length,
    callContract: (g, a, v, d, n) => world.doCall('call', g, fromBE(rd(a, 20)), fromBE(rd(v, 32)), rd(d, n)),
    callCode: (g, a, v, d, n) => world.doCall('callcode', g, fromBE(rd(a, 20)), fromBE(rd(v, 32)), rd(d, n)),
    callDelegate: (g, a, d, n) => world.doCall('delegatecall', g, fromBE(rd(a, 20)), 0n, rd(d, n)),
    callStatic: (g, a, d, n) => world.doCall('staticcall', g, fromBE(rd(a, 20)), 0n, rd(d, n)),
    createContract: (v, c, cl, d, dl, s, is2, r) => {
      const rec = { value: fromBE(rd(v, 32)), code: rd(c, cl), data: rd(d, dl), is2: is2 ? 1 : 0, salt: is2 ? fromBE(rd(s, 32)) : 0n };
      world.creates.push(rec);
      const res = world.onCreate ? world.onCreate(rec) : { status: 0, addr: 0n };
      if (res.status === 0) wr(r, addr(res.addr));
      return res.status;
    },
    finish: (p, n) => { throw new Halt('finish', rd(p, n)); },
    revert: (p, n) => { throw new Halt('revert', rd(p, n)); },
    invalid: () => { throw new Halt('invalid'); },
    selfDestruct: a => { throw new Halt('selfdestruct', rd(a, 20)); },
    emitLogEvent: (p, n, k, t1, t2, t3, t4) => {
      k = U(k); if (k > 4) throw new Halt('host-bad-topics');
      world.logs.push({ data: rd(p, n), topics: [t1, t2, t3, t4].slice(0, k).map(t => fromBE(rd(t, 32))) });
    },
    getReturnDataSize: () => world.returndata.length,
    returnDataCopy: (t, o, n) => {
      o = U(o); n = U(n);
      if (o + n > world.returndata.length) throw new Halt('returndata-oob');
      wr(t, world.returndata.slice(o, o + n));
    },
    keccak256: (p, n, r) => {
      const b = rd(p, n);
      const h = world.onKeccak ? world.onKeccak(b) : keccak256(b);
      wr(r, h);
    },
    sha256: (p, n, r) => { wr(r, require('crypto').createHash('sha256').update(rd(p, n)).digest()); },
    addmod: (a, b, n, r) => { const x = fromBE(rd(a, 32)), y = fromBE(rd(b, 32)), m = fromBE(rd(n, 32)); wr(r, wordBytes(m ? (x + y) % m : 0n)); },
    mulmod: (a, b, n, r) => { const x = fromBE(rd(a, 32)), y = fromBE(rd(b, 32)), m = fromBE(rd(n, 32)); wr(r, wordBytes(m ? (x * y) % m : 0n)); },
    debug_bytes: (p, n) => { world.debug.push(Buffer.from(rd(p, n)).toString('latin1')); },
  };
  world.doCall = (kind, gas, to, value, data) => {
    const rec = { kind, gas: BigInt.asUintN(64, gas), to, value, data };
    world.calls.push(rec);
    const r = world.onCall ? world.onCall(rec) : { status: 0, ret: [] };
    world.returndata = Uint8Array.from(r.ret);
    return r.status;
  };
  return { env };
}

const modules = new Map();
function loadModule(path) {
  if (!modules.has(path)) modules.set(path, new WebAssembly.Module(fs.readFileSync(path)));
  return modules.get(path);
}
function makeInstance(module, world) {
  const inst = {};
  const i = new WebAssembly.Instance(module, makeImports(world, inst));
  inst.exports = i.exports;
  return inst;
}
const instantiate = (path, world) => makeInstance(loadModule(path), world);
module.exports = { makeInstance, Halt, World, instantiate, loadModule, hex, wordBytes, fromBE, fromLE, leBytes };
