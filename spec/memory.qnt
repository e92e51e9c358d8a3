// C05: EVM linear memory as the runtime exposes it.
// Any sequence of stores, byte stores, loads and copies, at any alignment,
// across page boundaries: a load sees exactly the latest bytes stored, bytes
// never stored are zero, and no store disturbs a byte outside its range.
module memory {
  import evm.* from "./evm"

  const LIMIT: int          // addresses stay below (16 KiB in small mode)

  var mem: Mem
  var i: int
  var c: Cmd

  action init = all { mem' = Map(), i' = 0, c' = noCmd }

  /// a small working set, so that accesses overlap, plus boundary regions
  pure def place(sel: int, r: int): int = {
    pure val o =
      if (sel <= 5) r % 160
      else if (sel == 6) (r % 64) + 96
      else if (sel == 7) LIMIT - 128 + (r % 96)
      else if (sel == 8) imin(65536 - 64 + (r % 96), LIMIT - 160)
      else if (sel == 9) imin(131072 - 64 + (r % 96), LIMIT - 160)
      else (r % imax(LIMIT - 160, 1))
    imax(0, imin(o, LIMIT - 32))
  }

  action store(o: str, off: int, v: int): bool = all {
    c' = cmd(o, [off, v], []),
    mem' = if (o == "mstore_u8") mStore8(mem, off, v) else mStore(mem, off, v),
    i' = i + 1,
  }
  action load(o: str, off: int): bool = {
    val w = mLoad(mem, off)
    all {
      c' = cmd(o, [off], [if (o == "mload_u32") w % 2^32 else if (o == "mload_u64") w % 2^64 else w]),
      mem' = mem, i' = i + 1,
    }
  }
  action copy(dst: int, src: int, n: int): bool = all {
    c' = cmd("mcopy", [dst, src, n], []),
    mem' = mCopy(mem, dst, src, n),
    i' = i + 1,
  }
  /// the bytes a hash, a log or a return would see
  action peek(off: int, n: int): bool = all {
    c' = cmd("hash", [off, n], []).with("out", mRead(mem, off, n)),
    mem' = mem, i' = i + 1,
  }

  action step = {
    nondet sel = 0.to(10).oneOf()
    nondet r = 0.to(2^30).oneOf()
    nondet sel2 = 0.to(10).oneOf()
    nondet r2 = 0.to(2^30).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet v = 0.to(2^256 - 1).oneOf()
    nondet n = 0.to(80).oneOf()
    nondet near = 0.to(3).oneOf()
    nondet a = 0.to(15).oneOf()
    val off = place(sel, r)
    val x = shape(kind, k, d, v)
    if (a <= 1) store("mstore_u256", off, x)
    else if (a <= 3) store("mstore_bytes32", off, x)
    else if (a == 4) store("mstore_u32", off, if (d == 0) 0 else x % 2^32)
    else if (a == 5) store("mstore_u64", off, if (d == 0) 0 else x % 2^64)
    else if (a == 6) store("mstore_u8", off, x % 256)
    else if (a <= 8) load("mload_u256", off)
    else if (a <= 10) load("mload_bytes32", off)
    else if (a == 11) load("mload_u32", off)
    else if (a == 12) load("mload_u64", off)
    else if (a <= 14) {
      val m = imin(n, LIMIT - off)
      val src = if (near == 0) place(sel2, r2) else imax(0, imin(LIMIT - m, off + (r2 % 40) - 20))
      copy(off, imin(src, LIMIT - m), m)
    }
    else peek(off, imin(n, LIMIT - off))
  }

  // ---------------------------------------------------------- properties
  /// every word cell is a word
  val wordsOk = mWordsOk(mem)
  /// a store is immediately visible, in full, through a load at the same place
  val readYourWrite = c.op.in(Set("mstore_u256", "mstore_bytes32", "mstore_u32", "mstore_u64"))
    implies mLoad(mem, c.args[0]) == c.args[1]
}
module memory_page { import memory(LIMIT = 200000).* from "./memory" }
module memory_small { import memory(LIMIT = 16384).* from "./memory" }
