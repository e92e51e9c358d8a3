// C14: scratch cells and the free memory pointer.
// Every scratch cell the runtime hands out is its own: it never moves, never
// overlaps another cell, EVM memory, or the shared zero constant, and keeps
// the last value written to it.  The free memory pointer is a plain variable;
// allocating rounds the size up to whole words and panics (0x41) instead of
// wrapping around.
module alloc {
  import evm.* from "./evm"

  var mem: Mem
  var batches: List[{ n: int, seed: int }]   // cells handed out
  var over: (int, int) -> int                // cells written since
  var ptr: int
  var many: bool                             // many cells, EVM memory within its first block
  var i: int
  var c: Cmd

  pure def initial(b: { n: int, seed: int }, j: int): int = wrap(b.seed * (2 * j + 1) + j)
  def cell(b: int, j: int): int =
    if (over.keys().contains((b, j))) over.get((b, j)) else initial(batches[b], j)
  val total = batches.foldl(0, (s, b) => s + b.n)

  action init = all { mem' = Map(), batches' = [], over' = Map(), ptr' = 0,
    nondet m = Set(true, false).oneOf() many' = m, i' = 0, c' = noCmd }

  action keep = all { many' = many, i' = i + 1 }
  action alloc(kind: int, n: int, seed: int): bool = all { keep, mem' = mem, over' = over, ptr' = ptr,
    batches' = batches.append({ n: n, seed: seed }), c' = cmd("alloca", [kind, n, seed], []) }
  action check(b: int, j: int): bool = all { keep, mem' = mem, over' = over, ptr' = ptr, batches' = batches,
    c' = cmd("check", [b, j], [cell(b, j)]) }
  action write(b: int, j: int, v: int): bool = all { keep, mem' = mem, ptr' = ptr, batches' = batches,
    over' = over.put((b, j), v), c' = cmd("write", [b, j, v], []) }
  action store(off: int, v: int): bool = all { keep, ptr' = ptr, batches' = batches, over' = over,
    mem' = mStore(mem, off, v), c' = cmd("mstore", [off, v], []) }
  action same = all { keep, mem' = mem, over' = over, batches' = batches }

  action step = {
    nondet a = 0.to(19).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet sel = 0.to(4).oneOf()
    val nb = length(batches)
    val b = if (nb == 0) 0 else r % nb
    val jn = if (nb == 0) 1 else batches[b].n
    val j = if (sel == 0) 0 else if (sel == 1) jn - 1 else (r / 2^64) % jn
    val n = if (many) (if (sel == 0) 300 - total % 300 else if (sel == 1) 2048 else 1 + r2 % 400) else 1 + r2 % 12
    val sz = if (sel <= 2) r % 400 else if (sel == 3) 2^32 - 1 - r % 64 else shape(kind, k, d, r2) % 2^32
    if (a <= 4 and total + n <= (if (many) 5000 else 290)) alloc(r % 2, n, r2)
    else if (a <= 9 and nb > 0) check(b, j)
    else if (a <= 11 and nb > 0) write(b, j, shape(kind, k, d, r))
    else if (a <= 14) store(if (many) r % 16000 else if (sel <= 2) r % 300 else if (sel == 3) 65536 - r % 64 else r % 199000, shape(kind, k, d, r2))
    else if (a == 15) all { same, ptr' = sz, c' = cmd("setptr", [sz], []) }
    else if (a == 16) all { same, ptr' = ptr, c' = cmd("getptr", [], [ptr]) }
    else if (a == 17) all { same, ptr' = ptr, c' = cmd("guard", [r % 97], []) }
    else if (a == 18) {
      val nptr = ptr + ((sz + 31) / 32) * 32
      if (nptr < 2^32) all { same, ptr' = nptr, c' = cmd("allocate", [sz], [0, ptr]) }
      // Panic(0x41): the transaction reverts and everything starts afresh
      else all { keep, mem' = Map(), batches' = [], over' = Map(), ptr' = 0,
        c' = { ...cmd("allocate", [sz], [1]), out: toBytes(0x4e487b71, 4).concat(toBytes(0x41, 32)) } }
    }
    else all { same, ptr' = ptr, c' = cmd("zero", [], [0]) }
  }

  val pointerInRange = 0 <= ptr and ptr < 2^32
  val allocRounds = (c.op == "allocate" and c.exp[0] == 0) implies and {
    ptr - c.exp[1] >= c.args[0], ptr - c.exp[1] < c.args[0] + 32, (ptr - c.exp[1]) % 32 == 0 }
  val cellsKnown = over.keys().forall(p => p._1 < length(batches))
}
