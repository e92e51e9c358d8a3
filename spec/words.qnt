// C04: the 256-bit word helpers of the runtime compute EVM arithmetic.
module words {
  import evm.* from "./evm"

  var i: int
  var c: Cmd

  pure val OPS: List[str] = [
    "lt", "gt", "slt", "sgt", "eq", "iszero", "not", "and", "or", "xor",
    "bshl", "bshr", "ushl", "ushr", "badd", "exp", "signextend",
    "u256_to_be", "u256_from_be", "decode_be", "i32_to_be", "i32_from_be",
    "addmod", "mulmod" ]

  /// expected value of every helper
  pure def eval(op: str, a: int, b: int, n: int): int =
    if (op == "lt") wLt(a, b)
    else if (op == "gt") wGt(a, b)
    else if (op == "slt") wSlt(a, b)
    else if (op == "sgt") wSgt(a, b)
    else if (op == "eq") wEq(a, b)
    else if (op == "iszero") wIszero(a)
    else if (op == "not") wNot(a)
    else if (op == "and") wAnd(a, b)
    else if (op == "or") wOr(a, b)
    else if (op == "xor") wXor(a, b)
    else if (op == "bshl" or op == "ushl") wShl(n, a)
    else if (op == "bshr" or op == "ushr") wShr(n, a)
    else if (op == "badd") wAdd(a, b)
    else if (op == "exp") wExp(a, b)
    else if (op == "signextend") wSignextend(n, a)
    else if (op == "i32_to_be") a % 2^32
    else if (op == "i32_from_be") a % 2^32
    else if (op == "addmod") wAddmod(a, b, n)
    else if (op == "mulmod") wMulmod(a, b, n)
    else a  // u256_to_be, u256_from_be, decode_be: representation change only

  pure def mk(op: str, a: int, b: int, n: int): Cmd =
    cmd(op, [a, b, n], [eval(op, a, b, n)])

  action init = all { i' = 0, c' = noCmd }

  // ------------------------------------------------------ random histories
  action rnd(ka: int, kk: int, d: int, ra: int, rel: int, kb: int, k2: int, rb: int, sh: int): bool = {
    val op = OPS[i % length(OPS)]
    val a = shape(ka, kk, d, ra)
    val b = if (rel == 0) a
            else if (rel == 1) wrap(a + d * 2^k2)
            else if (rel == 2) wrap(-a)
            else if (rel == 3) wXor(a, 2^k2)
            else shape(kb, k2, d, rb)
    val n = if (op == "addmod" or op == "mulmod") shape(ka, k2, d, rb)
            else if (op == "signextend") (if (sh % 8 == 0) sh * 2^20 else sh % 36)
            else if (sh > 270) 2^(sh % 30) else sh
    // i32_to_be takes a machine integer
    val a1 = if (op == "i32_to_be") a % 2^31 else a
    all { i' = i + 1, c' = mk(op, a1, b, n) }
  }
  action step = {
    nondet ka = 0.to(7).oneOf()
    nondet kk = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet ra = 0.to(2^256 - 1).oneOf()
    nondet rel = 0.to(7).oneOf()
    nondet kb = 0.to(7).oneOf()
    nondet k2 = 0.to(255).oneOf()
    nondet rb = 0.to(2^256 - 1).oneOf()
    nondet sh = 0.to(300).oneOf()
    rnd(ka, kk, d, ra, rel, kb, k2, rb, sh)
  }

  // ------------------------------------------------------ systematic sweep
  // Walks, in order, every shift amount, every sign-extension width, every
  // single bit and every differing byte position, with random surroundings.
  pure val SHOPS: List[str] = ["bshl", "bshr", "ushl", "ushr"]
  pure val NSHIFT: int = 4 * 262 * 3
  pure val NSEXT: int = 34 * 4
  pure val BITOPS: List[str] = ["iszero", "not", "eq", "u256_to_be", "u256_from_be",
    "decode_be", "badd", "and", "or", "xor", "lt", "gt", "slt", "sgt"]
  pure val NBIT: int = 14 * 256
  pure val CMPOPS: List[str] = ["lt", "gt", "slt", "sgt", "eq", "badd"]
  pure val NCMP: int = 6 * 32 * 4
  pure val SWEEP: int = NSHIFT + NSEXT + NBIT + NCMP

  pure def sweepCmd(j: int, r: int, rb: int): Cmd =
    if (j < NSHIFT) {
      pure val op = SHOPS[j % 4]
      pure val n = (j / 4) % 262
      pure val v = (j / (4 * 262)) % 3
      mk(op, if (v == 0) r else if (v == 1) r % 2^32 else 2^((n * 7 + j) % 256) + 1, 0, n)
    } else if (j < NSHIFT + NSEXT) {
      pure val k = j - NSHIFT
      pure val b = k / 4
      pure val bit = if (b < 32) 8 * b + 7 else 255
      pure val base = if (k % 2 == 0) r else r % 2^(imin(bit + 1, 256))
      pure val hasBit = (base / 2^bit) % 2 == 1
      pure val v = if ((k / 2) % 2 == 0) (if (hasBit) base - 2^bit else base)
                   else (if (hasBit) base else base + 2^bit)
      mk("signextend", v, 0, b)
    } else if (j < NSHIFT + NSEXT + NBIT) {
      pure val k = j - NSHIFT - NSEXT
      pure val op = BITOPS[k % 14]
      pure val bit = k / 14
      pure val bv = 2^bit
      pure val rbit = (r / bv) % 2 == 1
      if (op == "iszero" or op == "not" or op == "u256_to_be" or op == "u256_from_be" or op == "decode_be")
        mk(op, bv, 0, 0)
      else if (op == "badd") mk(op, MAXW - (bv - 1), bv, 0)
      else if (op == "and" or op == "or" or op == "xor") mk(op, r, bv, 0)
      else mk(op, r, if (rbit) r - bv else r + bv, 0)
    } else {
      pure val k = j - NSHIFT - NSEXT - NBIT
      pure val op = CMPOPS[k % 6]
      pure val pos = (k / 6) % 32
      pure val p = 256^pos
      pure val up = (r / (p * 256)) * (p * 256)
      pure val x = (r / p) % 256
      pure val lowa = r % p
      pure val lowb = rb % p
      // same bytes above pos, different byte at pos, anything below
      pure val y = (x + 1 + (rb / 2^200) % 255) % 256
      pure val a = up + x * p + lowa
      pure val b = up + y * p + lowb
      if ((k / 192) % 2 == 0) mk(op, a, b, 0) else mk(op, b, a, 0)
    }

  action sweepStep = {
    nondet ra = 0.to(2^256 - 1).oneOf()
    nondet rb = 0.to(2^256 - 1).oneOf()
    all { i' = i + 1, c' = sweepCmd(i % SWEEP, ra, rb) }
  }

  // ------------------------------------------------- laws the oracle obeys
  val inRange = c.exp.indices().forall(k => 0 <= c.exp[k] and c.exp[k] < W)
  val cmpLaws = or { c.op == "init", {
    val a = c.args[0]
    val b = c.args[1]
    and {
      wLt(a, b) + wGt(a, b) + wEq(a, b) == 1,
      wSlt(a, b) + wSgt(a, b) + wEq(a, b) == 1,
      (wSlt(a, b) == wLt(a, b)) iff ((a < HALF) == (b < HALF) or a == b),
      wIszero(wSub(a, b)) == wEq(a, b),
    } } }
  val ringLaws = or { c.op == "init", {
    val a = c.args[0]
    val b = c.args[1]
    val n = c.args[2]
    and {
      wSub(wAdd(a, b), b) == a,
      wAdd(wMul(wDiv(a, b), b), wMod(a, b)) == (if (b == 0) 0 else a),
      b == 0 or wAdd(wMul(wSdiv(a, b), b), wSmod(a, b)) == a,
      wXor(wXor(a, b), b) == a,
      wNot(wAnd(a, b)) == wOr(wNot(a), wNot(b)),
      fromBytes(wordBytes(a)) == a,
      n < 0 or n > 31 or wSignextend(n, wSignextend(n, a)) == wSignextend(n, a),
      n < 0 or n > 300 or wShr(n, a) == wDiv(a, 2^n),
      n < 0 or n > 300 or wSar(n, a) == wrap(if (toSigned(a) < 0) -((-toSigned(a) - 1) / 2^n) - 1 else a / 2^n),
    } } }
}
