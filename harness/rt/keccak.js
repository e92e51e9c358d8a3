'use strict';
// keccak-256 (original padding 0x01), BigInt lanes.
const RC = [];
{
  let r = 1;
  for (let i = 0; i < 24; i++) {
    let v = 0n;
    for (let j = 0; j < 7; j++) {
      if (r & 1) v |= 1n << BigInt((1 << j) - 1);
      r <<= 1; if (r & 0x100) r ^= 0x171;
    }
    RC.push(v);
  }
}
const M64 = (1n << 64n) - 1n;
const rotl = (x, n) => n === 0n ? x : ((x << n) | (x >> (64n - n))) & M64;
const ROT = []; const PI = [];
{
  let x = 1, y = 0;
  for (let t = 0; t < 24; t++) {
    ROT.push(BigInt(((t + 1) * (t + 2) / 2) % 64)); PI.push(x + 5 * y);
    const ny = (2 * x + 3 * y) % 5; x = y; y = ny;
  }
}
function f(a) {
  for (let rd = 0; rd < 24; rd++) {
    const c = [];
    for (let x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (let x = 0; x < 5; x++) {
      const d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1n);
      for (let y = 0; y < 25; y += 5) a[x + y] ^= d;
    }
    let cur = a[1];
    for (let t = 0; t < 24; t++) {
      const nx = ((PI[t] % 5) * 0), x = PI[t] % 5, y = (PI[t] - x) / 5;
      const dst = y + 5 * ((2 * x + 3 * y) % 5) + nx;
      const tmp = a[dst]; a[dst] = rotl(cur, ROT[t]); cur = tmp;
    }
    for (let y = 0; y < 25; y += 5) {
      const t = a.slice(y, y + 5);
      for (let x = 0; x < 5; x++) a[y + x] = t[x] ^ ((~t[(x + 1) % 5] & M64) & t[(x + 2) % 5]);
    }
    a[0] ^= RC[rd];
  }
}
function keccak256(bytes) {
  const rate = 136, a = new Array(25).fill(0n);
  const p = new Uint8Array(Math.floor(bytes.length / rate) * rate + rate);
  p.set(bytes); p[bytes.length] ^= 1; p[p.length - 1] ^= 0x80;
  for (let o = 0; o < p.length; o += rate) {
    for (let i = 0; i < rate / 8; i++) {
      let v = 0n; for (let j = 7; j >= 0; j--) v = (v << 8n) | BigInt(p[o + i * 8 + j]);
      a[i] ^= v;
    }
    f(a);
  }
  const out = new Uint8Array(32);
  for (let i = 0; i < 4; i++) for (let j = 0; j < 8; j++) out[i * 8 + j] = Number((a[i] >> BigInt(8 * j)) & 0xffn);
  return out;
}
module.exports = { keccak256 };
if (require.main === module) {
  const h = x => Buffer.from(keccak256(Buffer.from(x))).toString('hex');
  console.log(h(''), h('abc'), h('a'.repeat(200)));
}
