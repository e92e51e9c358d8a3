// -*- mode: Bluespec; -*-
/// Pure EVM semantics shared by all machines: 256-bit words, byte strings,
/// sparse byte memory.  This is the oracle; it is written from the EVM/Yul
/// documentation and not from the implementation.
module evm {
  // ---------------------------------------------------------------- words
  pure val W: int = 2^256
  pure val MAXW: int = W - 1
  pure val HALF: int = 2^255

  /// wrap any integer into [0, 2^256)
  pure def wrap(x: int): int = { pure val r = x % W  if (r < 0) r + W else r }
  pure def wrapN(x: int, m: int): int = { pure val r = x % m  if (r < 0) r + m else r }
  pure def toSigned(x: int): int = if (x >= HALF) x - W else x
  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def imax(x: int, y: int): int = if (x > y) x else y
  pure def b2i(b: bool): int = if (b) 1 else 0

  pure def wAdd(a: int, b: int): int = wrap(a + b)
  pure def wSub(a: int, b: int): int = wrap(a - b)
  pure def wMul(a: int, b: int): int = wrap(a * b)
  pure def wDiv(a: int, b: int): int = if (b == 0) 0 else a / b
  pure def wMod(a: int, b: int): int = if (b == 0) 0 else a % b
  pure def wSdiv(a: int, b: int): int =
    if (b == 0) 0 else {
      pure val x = toSigned(a)
      pure val y = toSigned(b)
      pure val q = iabs(x) / iabs(y)
      wrap(if ((x < 0) != (y < 0)) -q else q)
    }
  pure def wSmod(a: int, b: int): int =
    if (b == 0) 0 else {
      pure val x = toSigned(a)
      pure val r = iabs(x) % iabs(toSigned(b))
      wrap(if (x < 0) -r else r)
    }
  pure def wAddmod(a: int, b: int, n: int): int = if (n == 0) 0 else (a + b) % n
  pure def wMulmod(a: int, b: int, n: int): int = if (n == 0) 0 else (a * b) % n

  /// square and multiply, most significant bit first
  pure def wExp(a: int, e: int): int =
    range(0, 256).foldl(1, (acc, i) => {
      pure val sq = wrap(acc * acc)
      if ((e / 2^(255 - i)) % 2 == 1) wrap(sq * a) else sq
    })

  /// bitwise operators, nibble by nibble on integers
  pure def wNot(a: int): int = MAXW - a
  pure def and16(a: int, b: int): int =
    range(0, 16).foldl(0, (acc, i) => { pure val p = 2^i
      if ((a / p) % 2 == 1 and (b / p) % 2 == 1) acc + p else acc })
  pure def wAnd(a: int, b: int): int =
    range(0, 16).foldl(0, (acc, i) => { pure val p = 2^(16 * i)
      pure val x = (a / p) % 65536
      pure val y = (b / p) % 65536
      acc + p * (if (x == 0 or y == 0) 0 else if (x == 65535) y else if (y == 65535) x else and16(x, y)) })
  pure def wOr(a: int, b: int): int = a + b - wAnd(a, b)
  pure def wXor(a: int, b: int): int = a + b - 2 * wAnd(a, b)

  pure def wShl(n: int, x: int): int = if (n >= 256) 0 else wrap(x * 2^n)
  pure def wShr(n: int, x: int): int = if (n >= 256) 0 else x / 2^n
  pure def wSar(n: int, x: int): int = {
    pure val s = toSigned(x)
    if (n >= 256) { if (s < 0) MAXW else 0 }
    else if (s >= 0) s / 2^n
    else wrap(-((-s + 2^n - 1) / 2^n))
  }
  pure def wLt(a: int, b: int): int = b2i(a < b)
  pure def wGt(a: int, b: int): int = b2i(a > b)
  pure def wSlt(a: int, b: int): int = b2i(toSigned(a) < toSigned(b))
  pure def wSgt(a: int, b: int): int = b2i(toSigned(a) > toSigned(b))
  pure def wEq(a: int, b: int): int = b2i(a == b)
  pure def wIszero(a: int): int = b2i(a == 0)
  /// byte(i, x): i-th byte counted from the most significant one
  pure def wByte(i: int, x: int): int = if (i >= 32) 0 else (x / 2^(8 * (31 - i))) % 256
  /// signextend(b, x)
  pure def wSignextend(b: int, x: int): int =
    if (b >= 31) x else {
      pure val bits = 8 * (b + 1)
      pure val low = x % 2^bits
      if (low >= 2^(bits - 1)) wrap(low - 2^bits) else low
    }

  // ---------------------------------------------------------------- bytes
  /// big-endian, n bytes
  pure def toBytes(x: int, n: int): List[int] =
    range(0, n).foldl([], (l, i) => l.append((x / 256^(n - 1 - i)) % 256))
  pure def wordBytes(x: int): List[int] = toBytes(x, 32)
  pure def fromBytes(l: List[int]): int = l.foldl(0, (acc, b) => acc * 256 + b)
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(0))
  pure def reverse(l: List[int]): List[int] =
    range(0, length(l)).foldl([], (r, i) => r.append(l[length(l) - 1 - i]))
  /// read n bytes of l from off, zero padded past the end (EVM calldata rule)
  pure def padSlice(l: List[int], off: int, n: int): List[int] =
    range(0, n).foldl([], (r, i) => r.append(if (off + i < length(l)) l[off + i] else 0))

  // --------------------------------------------------------------- memory
  /// Byte-addressed memory: 32-byte big-endian words in pages of 32 words,
  /// absent pages are zero.  Only the operators below look inside.
  type Mem = int -> List[int]
  pure val ZERO_PAGE: List[int] = zeros(32)
  pure def mPage(m: Mem, p: int): List[int] = if (m.keys().contains(p)) m.get(p) else ZERO_PAGE
  pure def mWord(m: Mem, i: int): int = if (m.keys().contains(i / 32)) m.get(i / 32)[i % 32] else 0
  pure def mPut(m: Mem, i: int, w: int): Mem = m.put(i / 32, mPage(m, i / 32).replaceAt(i % 32, w))
  pure def mWordsOk(m: Mem): bool = m.keys().forall(p => m.get(p).indices().forall(k => 0 <= m.get(p)[k] and m.get(p)[k] < W))
  pure def mByte(m: Mem, a: int): int = wByte(a % 32, mWord(m, a / 32))
  /// the 32 bytes at off, as a word
  pure def mLoad(m: Mem, off: int): int = {
    pure val k = off % 32
    pure val i = off / 32
    if (k == 0) mWord(m, i)
    else wrap(mWord(m, i) * 256^k) + mWord(m, i + 1) / 256^(32 - k)
  }
  pure def mStore(m: Mem, off: int, x: int): Mem = {
    pure val k = off % 32
    pure val i = off / 32
    if (k == 0) mPut(m, i, x)
    else {
      pure val w0 = mWord(m, i)
      pure val w1 = mWord(m, i + 1)
      mPut(mPut(m, i, w0 - w0 % 256^(32 - k) + x / 256^k),
           i + 1, (x % 256^k) * 256^(32 - k) + w1 % 256^(32 - k))
    }
  }
  pure def mStore8(m: Mem, a: int, b: int): Mem = {
    pure val w = mWord(m, a / 32)
    pure val p = 256^(31 - a % 32)
    mPut(m, a / 32, w + (b - (w / p) % 256) * p)
  }
  /// word by word, which is what keeps long ranges affordable
  pure def mRead(m: Mem, off: int, n: int): List[int] =
    if (n == 0) [] else {
      pure val bs = range(off / 32, (off + n - 1) / 32 + 1).foldl([], (r, i) => r.concat(wordBytes(mWord(m, i))))
      bs.slice(off % 32, off % 32 + n)
    }
  pure def mWrite(m: Mem, off: int, l: List[int]): Mem = {
    pure val n = length(l)
    if (n == 0) m else
      range(off / 32, (off + n - 1) / 32 + 1).foldl(m, (acc, i) => {
        pure val a = 32 * i
        if (a >= off and a + 32 <= off + n) mPut(acc, i, fromBytes(l.slice(a - off, a - off + 32)))
        else {
          pure val old = wordBytes(mWord(m, i))
          mPut(acc, i, range(0, 32).foldl(0, (v, k) =>
            v * 256 + (if (a + k >= off and a + k < off + n) l[a + k - off] else old[k])))
        }
      })
  }
  /// overlapping regions behave as if the source was read first
  pure def mCopy(m: Mem, dst: int, src: int, n: int): Mem = mWrite(m, dst, mRead(m, src, n))

  // ---------------------------------------------------------------- blobs
  /// Long byte strings: a length and the bytes in 32-byte words, the last one
  /// padded with zeros on the right.
  type Blob = { n: int, w: List[int] }
  pure def nWords(n: int): int = (n + 31) / 32
  pure def cutLast(n: int, w: List[int]): Blob =
    if (n % 32 == 0) { n: n, w: w } else {
      pure val k = length(w) - 1
      pure val p = 256^(32 - n % 32)
      { n: n, w: w.replaceAt(k, w[k] - w[k] % p) }
    }
  pure def bNoise(r: int, n: int): Blob =
    cutLast(n, range(0, nWords(n)).foldl([], (l, k) => l.append(wrap((r + 2^200 + k) * (2 * r + 2 * k + 1)))))
  pure def bRead(m: Mem, off: int, n: int): Blob =
    cutLast(n, range(0, nWords(n)).foldl([], (l, k) => l.append(mLoad(m, off + 32 * k))))
  pure def bWrite(m: Mem, off: int, b: Blob): Mem = {
    pure val full = b.n / 32
    pure val m2 = range(0, full).foldl(m, (acc, k) => mStore(acc, off + 32 * k, b.w[k]))
    pure val rest = b.n % 32
    if (rest == 0) m2 else {
      pure val old = mLoad(m2, off + 32 * full)
      mStore(m2, off + 32 * full, b.w[full] + old % 256^(32 - rest))
    }
  }
  pure val noBlob: Blob = { n: 0, w: [] }
  pure def bList(b: Blob): List[int] = [b.n].concat(b.w)
  pure def bWord(b: Blob, i: int): int = if (i < length(b.w)) b.w[i] else 0
  /// k bytes from off, zero padded past the end
  pure def bSlice(b: Blob, off: int, k: int): Blob = {
    pure val i = off / 32
    pure val j = off % 32
    cutLast(k, range(0, nWords(k)).foldl([], (l, q) => l.append(
      if (j == 0) bWord(b, i + q)
      else wrap(bWord(b, i + q) * 256^j) + bWord(b, i + q + 1) / 256^(32 - j))))
  }
  pure def bConcat(x: Blob, y: Blob): Blob = {
    pure val j = x.n % 32
    if (j == 0) { n: x.n + y.n, w: x.w.concat(y.w) } else {
      pure val last = length(x.w) - 1
      pure val n = x.n + y.n
      cutLast(n, range(0, nWords(n) - last).foldl(x.w.slice(0, last), (l, q) => l.append(
        (if (q == 0) x.w[last] else wrap(bWord(y, q - 1) * 256^(32 - j))) + bWord(y, q) / 256^j)))
    }
  }

  // ------------------------------------------------------------- commands
  /// One observable interaction with the system: operation, integer
  /// arguments, two byte-string arguments, and what must be observed:
  /// integers, and two byte strings.
  type Cmd = { op: str, args: List[int], data: List[int], data2: List[int],
               exp: List[int], out: List[int], out2: List[int] }
  pure def cmd(o: str, a: List[int], e: List[int]): Cmd =
    { op: o, args: a, data: [], data2: [], exp: e, out: [], out2: [] }
  /// the same with long byte strings: the replay driver unpacks them
  pure def bcmd(o: str, a: List[int], e: List[int], d: Blob, d2: Blob, u: Blob, u2: Blob): Cmd =
    { op: o, args: a, data: bList(d), data2: bList(d2), exp: e, out: bList(u), out2: bList(u2) }
  pure val noCmd: Cmd = cmd("init", [], [])

  // ---------------------------------------------------- value generation
  /// Shape a random 256-bit seed into a word that is likely to sit on a
  /// boundary: powers of two +- d, short values, trailing zeros, words built
  /// from special 32-bit limbs.
  pure def shape(kind: int, k: int, d: int, r: int): int =
    if (kind == 0) r
    else if (kind == 1) wrap(2^k + d)
    else if (kind == 2) wrap(-(2^k) + d)
    else if (kind == 3) r % 2^k
    else if (kind == 4) wrap((r / 2^k) * 2^k)
    else if (kind == 5) wrap(d)
    else if (kind == 6)
      range(0, 8).foldl(0, (acc, i) => {
        pure val c = (r / 2^(250 - 3 * i)) % 8
        pure val rl = (r / 2^(32 * i)) % 2^32
        pure val limb = if (c <= 1) 0 else if (c <= 3) 2^32 - 1 else if (c == 4) 2^31
                        else if (c == 5) 1 else rl
        acc * 2^32 + limb })
    else wrap(-(r % 2^k))
}
