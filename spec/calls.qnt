// C09: external calls; C10: contract creation.
// A call hands the host exactly the callee, value, gas and input bytes; the
// result written back is the callee's output cut to the space the caller
// offered, nothing outside that space changes, and the outcome follows the
// runtime's documented protocol:
//   status 0            -> 1
//   status 1, precompile-> 0, memory untouched
//   status 1, no output space -> 0
//   status 1, output fills the space -> 0, output delivered
//   status 1, output shorter than the space -> the caller reverts, with the
//              callee's own revert data if it is at most 1024 bytes
//   status 2            -> the caller reverts ("call contract failed")
// The return data buffer is the callee's complete output.
module calls {
  import evm.* from "./evm"
  import callrule.* from "./callrule"

  var mem: Mem
  var rdata: List[int]
  var created: int          // contracts created so far
  var i: int
  var c: Cmd

  pure val A20: int = 2^160
  pure val KINDS: List[str] = ["call", "delegatecall", "staticcall"]
  /// n pseudo random bytes
  pure def noise(r: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append((r / 2^(k % 240) + 7 * k) % 256))
  pure def callee(sel: int, r: int): int =
    if (sel == 0) 0
    else if (sel <= 3) 1 + r % 10
    else if (sel == 4) 11
    else if (sel == 5) (1 + r % 10) * 256                       // byte-shifted precompiles
    else if (sel == 6) 2^(8 * (1 + r % 19)) + 1 + (r / 32) % 10 // a precompile with one more byte
    else if (sel == 7) A20 * (1 + r % 2^90) + 1 + (r / 32) % 10 // dirty upper bytes
    else if (sel == 8) A20 - 1
    else if (sel == 9) 256 * 255 + 1 + r % 10
    else r % A20

  action init = all { mem' = Map(), rdata' = [], created' = 0, i' = 0, c' = noCmd }

  /// a revert ends the transaction: the next one starts with empty memory
  action call(k: str, gas: int, addr: int, value: int, inOff: int, inLen: int,
              outOff: int, outLen: int, status: int, ret: List[int]): bool = {
    val input = mRead(mem, inOff, inLen)
    val o = outcome(addr, status, ret, outLen)
    all {
      c' = { ...cmd(k, [gas, addr, value, inOff, inLen, outOff, outLen, status],
                    [b2i(o.reverts), o.flag]), data: ret, out: o.data, out2: input },
      mem' = if (o.reverts) Map() else mWrite(mem, outOff, ret.slice(0, o.copied)),
      rdata' = if (o.reverts) [] else ret,
      created' = created, i' = i + 1,
    }
  }
  action rsize = all { mem' = mem, rdata' = rdata, created' = created, i' = i + 1,
    c' = cmd("returndatasize", [], [length(rdata)]) }
  /// reading past the end of the return data halts exceptionally
  action rcopy(dst: int, off: int, n: int): bool = {
    val oob = off + n > length(rdata)
    all {
      c' = cmd("returndatacopy", [dst, off, n], [b2i(oob)]),
      mem' = if (oob) Map() else mWrite(mem, dst, rdata.slice(off, off + n)),
      rdata' = if (oob) [] else rdata,
      created' = created, i' = i + 1,
    }
  }
  action poke(off: int, l: List[int]): bool = all {
    c' = { ...cmd("poke", [off], []), data: l }, mem' = mWrite(mem, off, l),
    rdata' = rdata, created' = created, i' = i + 1 }

  pure def place(sel: int, r: int): int =
    if (sel <= 4) r % 200 else if (sel == 5) 0 else if (sel == 6) 1000 + r % 64 else 9000 + r % 3000

  action step = {
    nondet a = 0.to(15).oneOf()
    nondet ks = 0.to(2).oneOf()
    nondet status = 0.to(5).oneOf()
    nondet cs = 0.to(12).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet s2 = 0.to(7).oneOf()
    nondet ls = 0.to(7).oneOf()
    nondet os = 0.to(7).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet z = 0.to(3).oneOf()
    val inOff = place(s1, r % 10007)
    val outOff = if (z == 0) inOff + (r2 % 9) - imin(4, inOff) else place(s2, r2 % 10007)
    val inLen = if (ls == 0) 0 else if (ls == 1) 4 else r2 % 100
    val retLen = if (ls <= 1) 0 else if (ls == 2) 32 else if (ls == 3) 1020 + r % 8 else if (ls == 4) 31 + r % 3 else r % 120
    val outLen = if (os == 0) 0 else if (os <= 2) retLen else if (os == 3) retLen + 1
                 else if (os == 4) imax(0, retLen - 1) else if (os == 5) 32 else if (os == 6) 1024 + r2 % 3 else (r2 / 128) % 130
    val gas = if (z == 1) 2^64 - 1 else if (z == 2) 2^63 + r % 1000 else r % 2^64
    val st = if (status <= 2) 0 else if (status <= 4) 1 else 2
    val value = if (ks != 0) 0 else shape(kind, k, 1, r2)
    if (a <= 9) call(KINDS[ks], gas, callee(cs, r2 / 2^16), value, inOff, inLen, outOff, outLen, st, noise(r, retLen))
    else if (a <= 11) rsize
    else if (a == 12) rcopy(outOff, r % imax(1, length(rdata)), r2 % imax(1, length(rdata)))
    else if (a == 13) {
      val off = r % (length(rdata) + 1)
      rcopy(outOff, off, length(rdata) - off + (if (z == 0) 1 else 0))
    }
    else poke(place(s2, r2 % 10007), noise(r, 1 + r2 % 60))
  }

  // -------------------------------------------------- exhaustive product
  // Every combination of kind, status, callee class, output space and output
  // size from small sets, one per step.
  pure val RS: List[int] = [0, 1, 31, 32, 33, 64, 1023, 1024, 1025, 1056]
  pure val OS: List[int] = [0, 1, 31, 32, 33, 64, 1024, 1025, 1100]
  pure val CS: List[int] = [0, 1, 5, 10, 11, 256, 2^64 + 1, 2^152 + 2, 2^160 + 1, 2^255 + 10, 0xabcdef, A20 - 1]
  pure val NPROD: int = 3 * 3 * 12 * 9 * 10
  // the product in eight slices, so that they can be walked side by side
  action part(k: int): bool = all { mem' = Map(), rdata' = [], created' = 0, i' = k * NPROD / 8, c' = noCmd }
  action init0 = part(0)
  action init1 = part(1)
  action init2 = part(2)
  action init3 = part(3)
  action init4 = part(4)
  action init5 = part(5)
  action init6 = part(6)
  action init7 = part(7)
  action productStep = {
    val st = i % 3
    val k = (i / 3) % 3
    val ret = RS[(i / 9) % 10]
    val out = OS[(i / 90) % 9]
    val ad = CS[(i / 810) % 12]
    call(KINDS[k], 2^63 + i, ad, if (k == 0) i * 2^128 else 0, 3, i % 70, 64 + i % 40, out, st, noise(i * 2^17 + 2^200 + i, ret))
  }

  // ---------------------------------------------------------------- create
  action create(two: bool, value: int, off: int, code: List[int], args: List[int], salt: int, status: int): bool = {
    val addr = (created * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251 + salt + 0xdeadbeef) % A20
    all {
      c' = { ...cmd(if (two) "create2" else "create", [value, off, length(code) + 4 + length(args), salt, status, addr],
                    if (status == 0) [0, addr] else [1]),
             data: code, data2: args,
             out: if (status == 0) [] else if (two) CREATE2_FAILED else CREATE_FAILED,
             out2: image(code, args) },
      mem' = if (status == 0) mWrite(mem, off, image(code, args)) else Map(),
      rdata' = rdata, created' = created + 1, i' = i + 1,
    }
  }
  action createStep = {
    nondet a = 0.to(9).oneOf()
    nondet status = 0.to(4).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet ls = 0.to(5).oneOf()
    nondet as = 0.to(3).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    val codeLen = if (ls == 0) 0 else if (ls == 1) 255 + r % 3 else if (ls == 2) 300 + r % 300 else r % 80
    val argLen = if (as == 0) 0 else if (as == 1) 32 else r2 % 70
    if (a <= 8) create(a % 2 == 0, shape(kind, k, d, r), place(s1, r2 % 10007), noise(r, codeLen), noise(r2, argLen),
                       shape((kind + 3) % 8, k, d, r2), if (status == 0) 1 else if (status == 1 and a == 3) 2 else 0)
    else poke(place(s1, r2 % 10007), noise(r, 1 + r2 % 60))
  }

  // ------------------------------------------------------------ properties
  /// a successful call never reverts the caller and never copies more than
  /// either side offered
  val callSafe = c.op.in(Set("call", "delegatecall", "staticcall")) implies and {
    c.args[7] == 0 implies c.exp == [0, 1],
    c.exp[0] == 0 implies c.exp[1].in(Set(0, 1)),
    (c.args[7] != 0 and c.exp[0] == 0) implies c.exp[1] == 0,
  }
  /// return data is the complete output of the last call
  val wholeOutput = (c.op.in(Set("call", "delegatecall", "staticcall")) and c.exp[0] == 0) implies rdata == c.data
  val argsFollowCode = c.op.in(Set("create", "create2")) implies and {
    length(c.out2) == c.args[2],
    fromBytes(c.out2.slice(0, 4)) == length(c.data) }
}
