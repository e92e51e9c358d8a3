// Long byte ranges, for C05, C06, C09, C10, C12 and C13: the same rules as in
// the other modules on ranges of hundreds to tens of thousands of bytes,
// straddling wasm pages and length-field boundaries (2^8, 2^12, 2^15, 2^16).
// Byte strings are blobs here (words plus a length).
module bulk {
  import evm.* from "./evm"

  var mem: Mem
  var cd: Blob              // call data
  var code: Blob
  var ctor: Blob            // constructor arguments
  var deploying: bool
  var ext: Blob             // code of account 5
  var rdata: Blob
  var i: int
  var c: Cmd

  /// lengths on and around the boundaries
  pure def len(s: int, r: int): int =
    if (s == 0) r % 70 else if (s == 1) 245 + r % 24 else if (s == 2) 1012 + r % 24 else if (s == 3) 4084 + r % 24
    else if (s == 4) 32756 + r % 24 else if (s == 5) 65524 + r % 24 else if (s == 6) 66000 + r % 9000 else 300 + r % 3000
  pure def place(s: int, r: int): int =
    if (s == 0) r % 70 else if (s == 1) 65536 - r % 300 else if (s == 2) 131072 - r % 70 else if (s == 3) 16384 - r % 70
    else if (s == 4) 65536 + r % 70 else if (s == 5) 1000 + r % 5000 else if (s == 6) 90000 + r % 999 else 32768 - r % 300
  pure def span(sel: int, r: int, a: int, b: int): int =
    if (sel == 0) 0 else if (sel == 1) a else if (sel == 2) b else if (sel == 3) imax(0, a - r % 40)
    else if (sel == 4) imax(0, b - r % 40) else if (sel == 5) b + r % 40 else if (sel == 6) a + 1 else r % (b + 10)

  action init = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet s2 = 0.to(7).oneOf()
    nondet s3 = 0.to(7).oneOf()
    nondet s4 = 0.to(7).oneOf()
    nondet d = Set(true, false).oneOf()
    val b1 = bNoise(r, len(s1, r))
    val b2 = bNoise(r / 3, len(s2, r / 3))
    val b3 = bNoise(r / 5, len(s3, r / 5))
    val b4 = bNoise(r / 7, len(s4, r / 7))
    all { mem' = Map(), cd' = b1, code' = b2, ctor' = b3, ext' = b4, rdata' = noBlob, deploying' = d, i' = 0, c' = noCmd }
  }
  action keep = all { cd' = cd, code' = code, ctor' = ctor, ext' = ext, deploying' = deploying, i' = i + 1 }
  action seen(o: str, a: List[int], u: Blob): bool = all { keep, mem' = mem, rdata' = rdata, c' = bcmd(o, a, [], noBlob, noBlob, u, noBlob) }
  action poke(off: int, b: Blob): bool = all { keep, mem' = bWrite(mem, off, b), rdata' = rdata, c' = bcmd("poke", [off], [], b, noBlob, noBlob, noBlob) }
  action poked = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet s = 0.to(7).oneOf()
    nondet l = 0.to(7).oneOf()
    poke(place(s, r), bNoise(r, 1 + len(l, r / 11)))
  }

  // -------------------------------------------------------- memory (C05)
  action memStep = any {
    poked,
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet s2 = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet near = 0.to(3).oneOf()
      val n = len(l, r)
      val dst = place(s, r / 13)
      val src = if (near == 0) place(s2, r / 17) else if (near == 1) imax(0, dst - 1 - (r / 19) % (n + 1)) else dst + (r / 19) % (n + 2)
      all { keep, mem' = bWrite(mem, dst, bRead(mem, src, n)), rdata' = rdata, c' = bcmd("mcopy", [dst, src, n], [], noBlob, noBlob, noBlob, noBlob) }
    },
    outHash,
  }
  // ------------------------------------------------------- outputs (C12)
  action outHash = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet s = 0.to(7).oneOf()
    nondet l = 0.to(7).oneOf()
    val off = place(s, r)
    val n = len(l, r / 3)
    seen("hash", [off, n], bRead(mem, off, n))
  }
  action outStep = any {
    poked, poked, outHash,
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet nt = 0.to(4).oneOf()
      val off = place(s, r)
      val n = len(l, r / 3)
      val topics = range(0, nt).foldl([], (t, j) => t.append(wrap(r * (2 * j + 3) + j)))
      all { keep, mem' = mem, rdata' = rdata, c' = bcmd("log", [off, n, nt], topics, noBlob, noBlob, bRead(mem, off, n), noBlob) }
    },
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet h = Set("return", "revert").oneOf()
      val off = place(s, r)
      val n = len(l, r / 3)
      all { keep, mem' = Map(), rdata' = noBlob, c' = bcmd(h, [off, n, 0], [], noBlob, noBlob, bRead(mem, off, n), noBlob) }
    },
  }
  // ----------------------------------------------------- call data (C06)
  action cdStep = any {
    poked,
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet so = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet whole = 0.to(3).oneOf()
      val off = span(so, r, cd.n, cd.n)
      val n = if (whole == 0) imax(0, cd.n - off) else if (whole == 1) cd.n + r % 40 else len(l, r / 3)
      val dst = place(s, r / 7)
      all { keep, mem' = bWrite(mem, dst, bSlice(cd, off, n)), rdata' = rdata, c' = bcmd("copy", [dst, off, n], [], noBlob, noBlob, noBlob, noBlob) }
    },
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet so = 0.to(7).oneOf()
      nondet o = Set("load_u256", "load_bytes32").oneOf()
      val off = span(so, r, cd.n, cd.n)
      all { keep, mem' = mem, rdata' = rdata, c' = cmd(o, [off], [bWord(bSlice(cd, off, 32), 0)]) }
    },
    all { keep, mem' = mem, rdata' = rdata, c' = cmd("size", [], [cd.n]) },
  }
  // ---------------------------------------------------------- code (C13)
  action codeStep = any {
    poked,
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet so = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet whole = 0.to(4).oneOf()
      val stream = if (deploying) bConcat(code, ctor) else code
      val off = span(so, r, code.n, stream.n)
      val n = if (whole == 0) imax(0, stream.n - off) else if (whole == 1) imax(0, code.n - off) else if (whole == 2) imax(0, stream.n - off) + r % 40 else len(l, r / 3)
      val dst = place(s, r / 7)
      all { keep, mem' = bWrite(mem, dst, bSlice(stream, off, n)), rdata' = rdata, c' = bcmd("codecopy", [dst, off, n], [], noBlob, noBlob, noBlob, noBlob) }
    },
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet so = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      val off = span(so, r, ext.n, ext.n)
      val n = len(l, r / 3)
      val dst = place(s, r / 7)
      all { keep, mem' = bWrite(mem, dst, bSlice(ext, off, n)), rdata' = rdata, c' = bcmd("extcodecopy", [5, dst, off, n], [], noBlob, noBlob, noBlob, noBlob) }
    },
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet n = 0.to(9000).oneOf()
      val b = bNoise(r, n)
      all { keep, mem' = bWrite(mem, place(s, r / 7), b), rdata' = rdata, c' = bcmd("datacopy", [place(s, r / 7), r % 50, n], [], b, noBlob, noBlob, noBlob) }
    },
    all { keep, mem' = mem, rdata' = rdata, c' = cmd("codesize", [], [code.n + (if (deploying) ctor.n else 0)]) },
    all { keep, mem' = mem, rdata' = rdata, c' = cmd("purecodesize", [], [code.n]) },
  }
  // --------------------------------------------------------- calls (C09)
  action callStep = any {
    poked,
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet s2 = 0.to(7).oneOf()
      nondet l = 0.to(7).oneOf()
      nondet l2 = 0.to(7).oneOf()
      nondet k = Set("call", "delegatecall", "staticcall").oneOf()
      nondet fit = 0.to(3).oneOf()
      nondet status = Set(0, 0, 1).oneOf()
      val inOff = place(s, r)
      val outOff = if (fit == 0) imax(0, inOff - r % 999) else place(s2, r / 3)
      val inLen = len(l, r / 5)
      val ret = bNoise(r / 7, len(l2, r / 7))
      val outLen = if (fit == 1) ret.n else if (fit == 2) imax(0, ret.n - r % 99) else if (status == 0) ret.n + r % 99 else ret.n / 2
      all { keep, rdata' = ret,
            mem' = bWrite(mem, outOff, bSlice(ret, 0, imin(ret.n, outLen))),
            c' = bcmd(k, [r % 2^64, 2^90 + r % 2^100, 0, inOff, inLen, outOff, outLen, status], [0, 1 - status], ret, noBlob, noBlob, bRead(mem, inOff, inLen)) }
    },
    {
      nondet r = 0.to(2^256 - 1).oneOf()
      nondet s = 0.to(7).oneOf()
      nondet all_ = 0.to(1).oneOf()
      val off = r % (rdata.n + 1)
      val n = if (all_ == 0) rdata.n - off else (r / 3) % (rdata.n - off + 1)
      all { keep, rdata' = rdata, mem' = bWrite(mem, place(s, r), bSlice(rdata, off, n)),
            c' = bcmd("returndatacopy", [place(s, r), off, n], [0], noBlob, noBlob, noBlob, noBlob) }
    },
    all { keep, mem' = mem, rdata' = rdata, c' = cmd("returndatasize", [], [rdata.n]) },
  }
  // -------------------------------------------------------- create (C10)
  action createStep = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet s = 0.to(7).oneOf()
    nondet l = 0.to(7).oneOf()
    nondet l2 = 0.to(7).oneOf()
    nondet o = Set("create", "create2").oneOf()
    val cb = bNoise(r, len(l, r))
    val ab = bNoise(r / 3, len(l2, r / 3))
    val img = bConcat({ n: 4, w: [cb.n * 2^224] }, bConcat(cb, ab))
    val addr = r % 2^160
    all { keep, mem' = bWrite(mem, place(s, r), img), rdata' = rdata,
          c' = bcmd(o, [r / 2^99, place(s, r), img.n, r, 0, addr], [0, addr], cb, ab, noBlob, img) }
  }

  val wordsOk = mWordsOk(mem)
  /// copying a whole source and reading it back is the source
  val sourcesOk = and { nWords(cd.n) == length(cd.w), nWords(rdata.n) == length(rdata.w), bSlice(ext, 0, ext.n) == ext }
}
