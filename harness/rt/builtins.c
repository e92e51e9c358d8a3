/* Compiler support routines the LLVM wasm32 backend may call (compiler-rt is
 * not installed here).  Part of the harness, not of the code under test. */
typedef unsigned long long u64;
typedef unsigned __int128 u128;
typedef __int128 i128;
static u128 mul64(u64 a, u64 b) {
  u64 al = (unsigned)a, ah = a >> 32, bl = (unsigned)b, bh = b >> 32;
  u64 ll = al * bl, lh = al * bh, hl = ah * bl, hh = ah * bh;
  u64 mid = (ll >> 32) + (unsigned)lh + (unsigned)hl;
  u64 lo = (ll & 0xffffffffu) | (mid << 32);
  u64 hi = hh + (lh >> 32) + (hl >> 32) + (mid >> 32);
  return ((u128)hi << 64) | lo;
}
i128 __multi3(i128 a, i128 b) {
  u64 al = (u64)a, ah = (u64)((u128)a >> 64), bl = (u64)b, bh = (u64)((u128)b >> 64);
  u128 r = mul64(al, bl);
  u64 hi = (u64)(r >> 64) + al * bh + ah * bl;
  return (i128)(((u128)hi << 64) | (u64)r);
}
u128 __udivmodti4(u128 a, u128 b, u128 *rem) {
  u128 q = 0, r = 0;
  for (int i = 127; i >= 0; i--) {
    int carry = (int)(r >> 127);
    r = (r << 1) | ((a >> i) & 1);
    if (carry || r >= b) { r -= b; q |= (u128)1 << i; }
  }
  if (rem) *rem = r;
  return q;
}
u128 __udivti3(u128 a, u128 b) { return __udivmodti4(a, b, 0); }
u128 __umodti3(u128 a, u128 b) { u128 r; __udivmodti4(a, b, &r); return r; }
i128 __divti3(i128 a, i128 b) {
  u128 x = a < 0 ? -(u128)a : (u128)a, y = b < 0 ? -(u128)b : (u128)b;
  u128 q = __udivti3(x, y);
  return (a < 0) != (b < 0) ? (i128)-q : (i128)q;
}
i128 __modti3(i128 a, i128 b) {
  u128 x = a < 0 ? -(u128)a : (u128)a, y = b < 0 ? -(u128)b : (u128)b;
  u128 r = __umodti3(x, y);
  return a < 0 ? (i128)-r : (i128)r;
}
i128 __ashlti3(i128 a, int n) {
  u64 lo = (u64)a, hi = (u64)((u128)a >> 64);
  if (n & 64) { hi = lo << (n & 63); lo = 0; }
  else if (n & 63) { hi = (hi << (n & 63)) | (lo >> (64 - (n & 63))); lo <<= (n & 63); }
  return (i128)(((u128)hi << 64) | lo);
}
u128 __lshrti3(u128 a, int n) {
  u64 lo = (u64)a, hi = (u64)(a >> 64);
  if (n & 64) { lo = hi >> (n & 63); hi = 0; }
  else if (n & 63) { lo = (lo >> (n & 63)) | (hi << (64 - (n & 63))); hi >>= (n & 63); }
  return ((u128)hi << 64) | lo;
}
i128 __ashrti3(i128 a, int n) {
  u64 lo = (u64)a; long long hi = (long long)(u64)((u128)a >> 64);
  if (n & 64) { lo = (u64)(hi >> (n & 63)); hi = hi >> 63; }
  else if (n & 63) { lo = (lo >> (n & 63)) | ((u64)hi << (64 - (n & 63))); hi >>= (n & 63); }
  return (i128)(((u128)(u64)hi << 64) | lo);
}
