// C07: contract storage and transient storage; C08: immutables.
// Storage is a map from words to words: a load gives the word last stored
// under exactly that key, zero if none, whichever representation (native
// integer, big-endian bytes, little-endian host call) stored it.  Transient
// storage is a second, separate map.  Immutables live in storage and can be
// set once.
module storage {
  import evm.* from "./evm"

  var sto: int -> int
  var tra: int -> int
  var imm: int -> int        // immutables already set
  var i: int
  var c: Cmd

  // keys that are easy to confuse with each other: byte reversals, limb
  // swaps, neighbours
  pure val R1: int = 0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20
  pure val KEYS: List[int] = [
    0, 1, 2, 255, 256, 2^248, 2^249, 2^255, 2^128, 2^64, 2^192, 2^127,
    MAXW, R1, fromBytes(reverse(wordBytes(R1))), R1 + 1, wrap(R1 * 2^128) + R1 / 2^128,
    0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef ]
  // identifiers of immutables: like the compiler's, left aligned short strings
  pure val IMMS: List[int] = [ 0x31 * 2^248, 0x3132 * 2^240, 0x313233 * 2^232, 0x32 * 2^248,
    0x3231 * 2^240, 3, 4, 0x6c6962726172795f * 2^192, MAXW, 2^128 + 7,
    // long names that agree in all but one character, at either end
    0x6c6962726172795f6465706c6f795f61 * 2^128, 0x6c6962726172795f6465706c6f795f62 * 2^128,
    0x6162636465666768696a6b6c6d6e6f707172737475767778797a303132333435, 0x6162636465666768696a6b6c6d6e6f707172737475767778797a303132333436,
    0x6262636465666768696a6b6c6d6e6f707172737475767778797a303132333435, 0x6c6962726172795f31 * 2^184 ]
  pure def look(m: int -> int, k: int): int = if (m.keys().contains(k)) m.get(k) else 0

  action init = all { sto' = Map(), tra' = Map(), imm' = Map(), i' = 0, c' = noCmd }

  action sstore(o: str, k: int, v: int): bool = all {
    sto' = sto.put(k, v), tra' = tra, imm' = imm, i' = i + 1, c' = cmd(o, [k, v], []) }
  action tstore(o: str, k: int, v: int): bool = all {
    tra' = tra.put(k, v), sto' = sto, imm' = imm, i' = i + 1, c' = cmd(o, [k, v], []) }
  action sload(o: str, k: int): bool = all {
    sto' = sto, tra' = tra, imm' = imm, i' = i + 1, c' = cmd(o, [k], [look(sto, k)]) }
  action tload(o: str, k: int): bool = all {
    sto' = sto, tra' = tra, imm' = imm, i' = i + 1, c' = cmd(o, [k], [look(tra, k)]) }
  /// a new transaction: a fresh instance over the same storage; the host
  /// clears transient storage
  action newtx = all {
    sto' = sto, tra' = Map(), imm' = imm, i' = i + 1, c' = cmd("newtx", [], []) }

  action step = {
    nondet a = 0.to(10).oneOf()
    nondet ki = 0.to(length(KEYS) - 1).oneOf()
    nondet kr = 0.to(2^256 - 1).oneOf()
    nondet fresh = 0.to(9).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet z = 0.to(7).oneOf()
    nondet near = 0.to(5).oneOf()
    // often the key of the previous access, or one that differs in one bit
    val prev = if (length(c.args) > 0) c.args[0] else 0
    val key = if (near <= 2) prev else if (near == 3) wXor(prev, 2^k) else if (fresh == 0) kr else KEYS[ki]
    val v = if (z == 0) 0 else shape(kind, k, d, r)
    if (a == 0) sstore("sstore_u256", key, v)
    else if (a == 1) sstore("sstore_bytes32", key, v)
    else if (a == 2) sstore("sstore_le", key, v)
    else if (a == 3) tstore("tstore_u256", key, v)
    else if (a == 4) tstore("tstore_bytes32", key, v)
    else if (a == 5) sload("sload_u256", key)
    else if (a == 6) sload("sload_bytes32", key)
    else if (a == 7) sload("sload_le", key)
    else if (a == 8) tload("tload_u256", key)
    else if (a == 9) tload("tload_bytes32", key)
    else if (z == 7) newtx
    else sload("sload_bytes32", key)
  }

  // ------------------------------------------------------------ immutables
  action setImm(id: int, v: int, off: int): bool =
    if (imm.keys().contains(id))
      // already set: the transaction reverts and the value stays
      all { sto' = sto, tra' = tra, imm' = imm, i' = i + 1,
            c' = cmd("setimmutable", [id, v, off], [0]) }
    else
      all { sto' = sto.put(id, v), tra' = tra, imm' = imm.put(id, v), i' = i + 1,
            c' = cmd("setimmutable", [id, v, off], [1]) }
  action loadImm(id: int): bool =
    all { sto' = sto, tra' = tra, imm' = imm, i' = i + 1,
          c' = cmd("loadimmutable", [id], [look(imm, id)]) }

  action stepImm = {
    nondet a = 0.to(9).oneOf()
    nondet ii = 0.to(length(IMMS) - 1).oneOf()
    nondet ki = 0.to(length(KEYS) - 1).oneOf()
    nondet kr = 0.to(2^256 - 1).oneOf()
    nondet fresh = 0.to(9).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet off = 0.to(4096).oneOf()
    nondet z = 0.to(4).oneOf()
    nondet near = 0.to(5).oneOf()
    val prev = if (length(c.args) > 0 and c.op.in(Set("setimmutable", "loadimmutable"))) c.args[0] else IMMS[ii]
    val id = if (near == 0) prev else if (fresh == 0) kr else IMMS[ii]
    val v = if (z == 0) 0 else shape(kind, k, d, r)
    if (a <= 3) setImm(id, v, off)
    else if (a <= 6) loadImm(id)
    // ordinary storage beside it; keys never coincide with an immutable's
    else if (a == 7 and not(IMMS.select(x => x == KEYS[ki]).length() > 0)) sstore("sstore_u256", KEYS[ki], v)
    else if (a == 8) newtx
    else loadImm(id)
  }

  // ------------------------------------------------------------ properties
  val separate = c.op.in(Set("tstore_u256", "tstore_bytes32")) implies look(tra, c.args[0]) == c.args[1]
  val setOnce = imm.keys().forall(k => look(sto, k) == imm.get(k))
}
