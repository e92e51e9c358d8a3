// C06: access to the input data of a transaction.
// Reads past the end give zero bytes, whatever the offset; the data never
// changes during a transaction (the runtime caches it), and copies only touch
// their destination range in memory.
module calldata {
  import evm.* from "./evm"

  var cd: List[int]        // the input data of the current transaction
  var mem: Mem
  var i: int
  var c: Cmd

  pure val LENS: List[int] = [0, 1, 2, 3, 4, 5, 31, 32, 33, 35, 36, 37, 63, 64, 68, 99, 100, 101, 102, 132, 164, 200]
  pure def bytesOf(r: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append((r / 256^k) % 256))
  pure val RMAX: int = 256^200

  action begin(l: int, r: int): bool = {
    val d = bytesOf(r, LENS[l])
    all { cd' = d, mem' = Map(), i' = 0, c' = cmd("newtx", [], []).with("data", d) }
  }
  action init = {
    nondet l = 0.to(length(LENS) - 1).oneOf()
    nondet r = 0.to(RMAX - 1).oneOf()
    begin(l, r)
  }
  action load(o: str, off: int): bool = all {
    c' = cmd(o, [off], [fromBytes(padSlice(cd, off, 32))]),
    mem' = mem, cd' = cd, i' = i + 1 }
  action query(o: str): bool = all {
    c' = cmd(o, [], [if (o == "selector") fromBytes(padSlice(cd, 0, 4))
                     else if (o == "size") length(cd)
                     else length(cd) - 4]),
    mem' = mem, cd' = cd, i' = i + 1 }
  action copy(dst: int, off: int, n: int): bool = all {
    c' = cmd("copy", [dst, off, n], []),
    mem' = mWrite(mem, dst, padSlice(cd, off, n)), cd' = cd, i' = i + 1 }
  /// dirty the destination first, so that missing zero fill shows
  action dirty(dst: int, v: int): bool = all {
    c' = cmd("mstore_u256", [dst, v], []),
    mem' = mStore(mem, dst, v), cd' = cd, i' = i + 1 }

  pure def offset(sel: int, r: int, n: int): int =
    if (sel <= 2) r % (n + 1)
    else if (sel <= 5) imax(0, n - 40 + r % 80)
    else if (sel == 6) n + r % 300
    else if (sel == 7) 2^32 - 1 - r % 70
    else if (sel == 8) 2^31 - 35 + r % 70
    else if (sel == 9) 4 + 32 * (r % 4)
    else r % 2^32

  action step = {
    nondet a = 0.to(15).oneOf()
    nondet sel = 0.to(10).oneOf()
    nondet r = 0.to(2^31).oneOf()
    nondet dst = 0.to(260).oneOf()
    nondet n = 0.to(140).oneOf()
    nondet v = 0.to(2^256 - 1).oneOf()
    nondet l = 0.to(length(LENS) - 1).oneOf()
    nondet rr = 0.to(RMAX - 1).oneOf()
    val off = offset(sel, r, length(cd))
    if (a <= 3) load("load_u256", off)
    else if (a <= 7) load("load_bytes32", off)
    else if (a == 8) query("selector")
    else if (a == 9) query(if (r % 2 == 0) "size" else "size_minus_4")
    else if (a <= 12) copy(dst, off, if (r % 5 == 0) 32 * (n % 4) else n)
    else if (a <= 14 or i < 12) dirty(dst, v)
    else begin(l, rr)
  }

  /// loading at the very start agrees with the selector
  val selectorAgrees = fromBytes(padSlice(cd, 0, 32)) / 256^28 == fromBytes(padSlice(cd, 0, 4))
  /// everything past the end is zero
  val zeroPast = fromBytes(padSlice(cd, length(cd), 32)) == 0
}
