// C12: what a contract shows the outside world: logs, return and revert data,
// hashes, and how execution ends.  Every byte range is exactly the EVM memory
// it names (never written bytes are zero), topics are exact and in order, and
// a halting operation halts: nothing after it is visible.
module outputs {
  import evm.* from "./evm"

  var mem: Mem
  var nlogs: int            // logs emitted by the running transaction
  var halted: bool
  var i: int
  var c: Cmd

  action init = all { mem' = Map(), nlogs' = 0, halted' = false, i' = 0, c' = noCmd }

  action poke(off: int, l: List[int]): bool = all {
    c' = { ...cmd("poke", [off], []), data: l }, mem' = mWrite(mem, off, l),
    nlogs' = nlogs, halted' = false, i' = i + 1 }
  action log(off: int, n: int, topics: List[int]): bool = all {
    c' = { ...cmd("log", [off, n, length(topics)], topics), out: mRead(mem, off, n) },
    mem' = mem, nlogs' = nlogs + 1, halted' = false, i' = i + 1 }
  action hash(off: int, n: int): bool = all {
    c' = { ...cmd("hash", [off, n], []), out: mRead(mem, off, n) },
    mem' = mem, nlogs' = nlogs, halted' = false, i' = i + 1 }
  /// the transaction ends; the next one starts with empty memory
  action halt(how: str, off: int, n: int, w: int): bool = all {
    c' = { ...cmd(how, [off, n, w], [nlogs]), out: if (how == "return" or how == "revert") mRead(mem, off, n) else [] },
    mem' = Map(), nlogs' = 0, halted' = true, i' = i + 1 }

  pure val HALTS: List[str] = ["return", "return", "return", "revert", "revert", "revert", "stop", "invalid", "selfdestruct", "selfdestruct"]
  pure def place(sel: int, r: int): int =
    if (sel <= 4) r % 200 else if (sel == 5) 0 else if (sel == 6) 4096 - 40 + r % 80 else 9000 + r % 3000
  pure def noise(r: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append((r / 2^(k % 240) + 7 * k) % 256))

  action step = {
    nondet a = 0.to(19).oneOf()
    nondet h = 0.to(9).oneOf()
    nondet nt = 0.to(4).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet ls = 0.to(7).oneOf()
    nondet kinds = 0.to(8^4 - 1).oneOf()
    nondet k = 0.to(255).oneOf()
    val off = place(s1, r % 10007)
    val n = if (ls == 0) 0 else if (ls == 1) 32 else if (ls == 2) 135 + r2 % 3 else if (ls == 3) 4 else r2 % 150
    val topics = range(0, nt).foldl([], (l, j) => l.append(
      shape((kinds / 8^j) % 8, (k + 61 * j) % 256, j - 1, wrap(r * (2 * j + 1) + r2))))
    if (a <= 5) poke(place(s1, r2 % 10007), noise(r, 1 + r2 % 70))
    else if (a <= 13) log(off, n, topics)
    else if (a <= 16) hash(off, n)
    else halt(HALTS[h], off, n, shape(kinds % 8, k, 1, r2))
  }

  val haltClears = halted implies mem == Map() and nlogs == 0
  val sizesAgree = c.op.in(Set("log", "hash", "return", "revert")) implies length(c.out) == c.args[1]
  val bytesAreBytes = c.out.indices().forall(k => 0 <= c.out[k] and c.out[k] < 256)
}
