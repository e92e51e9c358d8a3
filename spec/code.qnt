// C13: reading code and embedded data into memory.
// codecopy sees the running code followed, while deploying, by the
// constructor arguments, then zeros; codesize covers exactly code and
// arguments; extcodecopy is zero padded; data embedded in the module is
// addressed by a negative offset and copied verbatim.
module code {
  import evm.* from "./evm"

  var code: List[int]
  var args: List[int]
  var deploying: bool
  var ext: int -> List[int]
  var mem: Mem
  var i: int
  var c: Cmd

  pure def noise(r: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append((r / 2^(k % 240) + 7 * k) % 256))
  pure val ADDRS: List[int] = [0, 1, 2^159, 2^160 - 1, 0xabcdef0123456789]

  action tx(cl: List[int], al: List[int], d: bool): bool = all {
    code' = cl, args' = al, deploying' = d, mem' = Map(), ext' = ext, i' = i + 1,
    c' = { ...cmd("newtx", [b2i(d)], []), data: cl, data2: al } }
  action init = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet d = Set(true, false).oneOf()
    all {
      code' = noise(r, r % 150), args' = noise(r / 3, (r / 256) % 130), deploying' = d, mem' = Map(), ext' = Map(), i' = 0,
      c' = { ...cmd("newtx", [b2i(d)], []), data: noise(r, r % 150), data2: noise(r / 3, (r / 256) % 130) } }
  }
  action keep = all { code' = code, args' = args, deploying' = deploying, ext' = ext, i' = i + 1 }
  /// what codecopy can see
  val stream = if (deploying) code.concat(args) else code

  pure def place(sel: int, r: int): int =
    if (sel <= 4) r % 200 else if (sel == 5) 65536 - 40 + r % 80 else if (sel == 6) 4096 - 40 + r % 80 else 9000 + 17 * (r % 10007)
  /// offsets and lengths around the seams of a stream whose parts end at a and b
  pure def span(sel: int, r: int, a: int, b: int): int =
    if (sel == 0) 0 else if (sel == 1) a else if (sel == 2) b else if (sel == 3) imax(0, a - r % 40)
    else if (sel == 4) imax(0, b - r % 40) else if (sel == 5) b + r % 40 else if (sel == 6) a + 1 else r % (b + 10)

  action step = {
    nondet a = 0.to(19).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet so = 0.to(7).oneOf()
    nondet sn = 0.to(7).oneOf()
    nondet ai = 0.to(4).oneOf()
    val dst = place(s1, r % 10007)
    val la = length(code)
    val lb = length(code) + length(args)
    val off = span(so, r % 1009, la, lb)
    val n = if (sn == 0) 0 else if (sn == 1) imax(0, la - off) else if (sn == 2) imax(0, lb - off) else if (sn == 3) imax(0, lb - off) + 7 else r2 % 80
    val ad = ADDRS[ai]
    val el = if (ext.keys().contains(ad)) ext.get(ad) else []
    val eo = span(so, r % 1009, length(el), length(el))
    val en = if (sn == 1) imax(0, length(el) - eo) else if (sn == 0) 0 else r2 % 80
    val hi = if (sn <= 3) 0 else (r / 2^100) % 2^96
    if (a <= 8) all { keep, mem' = mWrite(mem, dst, padSlice(stream, off, n)), c' = cmd("codecopy", [dst, off, n], []) }
    else if (a == 9) all { keep, mem' = mem, c' = cmd("codesize", [], [length(stream)]) }
    else if (a == 10) all { keep, mem' = mem, c' = cmd("purecodesize", [], [la]) }
    else if (a <= 12) all { keep, mem' = mWrite(mem, dst, padSlice(el, eo, en)), c' = cmd("extcodecopy", [hi * 2^160 + ad, dst, eo, en], []) }
    else if (a == 13) {
      val l = noise(r, r2 % 130)
      all { code' = code, args' = args, deploying' = deploying, ext' = ext.put(ad, l), i' = i + 1, mem' = mem,
            c' = { ...cmd("setext", [ad], []), data: l } }
    }
    // embedded data: placed by the linker in front of the EVM memory
    else if (a <= 17) {
      val l = noise(r, n)
      all { keep, mem' = mWrite(mem, dst, l),
            c' = { ...cmd(if (a % 2 == 0) "datacopy" else "codecopy_data", [dst, r2 % 50, n], []), data: l } }
    }
    else tx(noise(r, r % 150), noise(r2, (r / 256) % 130), a == 18)
  }

  val sizesAgree = c.op == "codesize" implies c.exp[0] == length(code) + (if (deploying) length(args) else 0)
  val wordsOk = mWordsOk(mem)
}
