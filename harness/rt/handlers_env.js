'use strict';
const { wordBytes, fromBE, fromLE, leBytes } = require('./session.js');
const NAMES = ['caller', 'address', 'origin', 'coinbase', 'prevrandao', 'callvalue', 'gasprice', 'basefee', 'blobbasefee', 'chainid', 'gas', 'gaslimit', 'timestamp', 'number'];
const u64 = v => BigInt.asUintN(64, v);
const be = f => s => { s.put(2, new Uint8Array(32).fill(0xEE)); s.x[f](s.ptr(2)); return fromBE(s.get(2)); };
const le = f => s => { s.put(2, new Uint8Array(32).fill(0xEE)); s.x[f](s.ptr(2)); return fromLE(s.get(2)); };
const Q = {
  caller: be('wrapper_caller'), address: be('wrapper_current_contract'), origin: be('wrapper_origin'), coinbase: be('wrapper_block_coin_base'),
  prevrandao: be('wrapper_block_prevRandao'), callvalue: le('wrapper_callvalue'), gasprice: le('wrapper_gas_price'),
  basefee: le('wrapper_current_base_fee'), blobbasefee: le('wrapper_current_blob_base_fee'), chainid: le('wrapper_current_chainid'),
  selfbalance: le('wrapper_self_balance'),
  gas: s => u64(s.x.wrapper_gas()), gaslimit: s => u64(s.x.wrapper_gas_limit()), timestamp: s => u64(s.x.wrapper_time_stamp()), number: s => u64(s.x.wrapper_block_number()),
  callvalue_not_zero: s => s.x.wrapper_callvalue_not_zero() !== 0 ? 1n : 0n,
  balance: (s, a) => { s.put(2, new Uint8Array(32).fill(0xEE)); s.x.wrapper_query_balance(s.put(0, wordBytes(a)), s.ptr(2)); return fromLE(s.get(2)); },
  extcodesize: (s, a) => BigInt(s.x.wrapper_extcode_size(s.put(0, wordBytes(a))) >>> 0),
  extcodehash: (s, a) => { s.put(2, new Uint8Array(32).fill(0xEE)); s.x.wrapper_extcode_hash(s.put(0, wordBytes(a)), s.ptr(2)); return fromBE(s.get(2)); },
  blockhash: (s, n, h) => { s.world.blockhash = k => k === n ? h : 0xBADn; s.put(2, new Uint8Array(32).fill(0xEE)); s.x.wrapper_block_hash(BigInt.asIntN(64, n), s.ptr(2)); return fromBE(s.get(2)); },
};
module.exports = {
  begin(s, st0) { s.hashes = new Map(); s.world.codehash = k => s.hashes.get(k) || 0n; s.world.prevrandao20 = !st0.wide; },
  step(s, c) {
    const a = c.args, w = s.world;
    if (c.op === 'newtx') { NAMES.forEach((n, i) => { w.env[n] = a[i]; }); s.fresh(); return null; }
    if (c.op === 'setbalance') { w.balances.set(a[0], a[1]); return null; }
    if (c.op === 'setvalue') { w.env.callvalue = a[0]; s.fresh(); return null; }
    if (c.op === 'setcode') { w.extcode.set(a[0], new Uint8Array(Number(a[1]))); s.hashes.set(a[0], a[2]); return null; }
    s.cells();
    if (!Q[c.op]) throw new Error('env: no handler for ' + c.op);
    const r = s.run(() => Q[c.op](s, ...a));
    if (r.halt) return `${c.op} ended with ${r.halt} ${r.msg || ''}`;
    if (r.ret !== c.exp[0]) return `${c.op} returned 0x${r.ret.toString(16)}, expected 0x${c.exp[0].toString(16)}`;
    if (!s.canariesOk()) return `${c.op} wrote outside the result word`;
    return null;
  },
};
