// C15: the built-in ERC-20 transfer that replaces fun_transfer in optimised
// contracts.  It must behave like the Yul function it documents: balances are
// moved, never created; only the two accounts change; bad transfers revert
// with the standard errors and change nothing; a Transfer event is emitted.
module erc20 {
  import evm.* from "./evm"

  var bal: int -> int       // by 20-byte address
  var supply: int           // sum of all balances
  var i: int
  var c: Cmd

  pure val A20: int = 2^160
  pure val ADDRS: List[int] = [ 1, 2, 256, 2^152, A20 - 1, 0x1111111111111111111111111111111111111111,
    0x00000000000000000000000000000000000000ff, 0xff00000000000000000000000000000000000000, 2^96, 2^32 ]
  pure def look(m: int -> int, k: int): int = if (m.keys().contains(k)) m.get(k) else 0
  pure def err(sel: int, ws: List[int]): List[int] = ws.foldl(toBytes(sel, 4), (l, w) => l.concat(wordBytes(w)))

  action init = all { bal' = Map(), supply' = 0, i' = 0, c' = noCmd }
  action transfer(from: int, dest: int, value: int): bool = {
    val f = from % A20
    val t = dest % A20
    val b = look(bal, f)
    if (f == 0 or t == 0 or b < value) all {
      bal' = bal, supply' = supply, i' = i + 1,
      c' = { ...cmd("transfer", [from, dest, value], [1]),
             out: if (f == 0) err(0x96c6fd1e, [0]) else if (t == 0) err(0xec442f05, [0])
                  else err(0xe450d38c, [f, b, value]) } }
    else all {
      bal' = { val m = bal.put(f, b - value)  m.put(t, wrap(look(m, t) + value)) },
      supply' = supply, i' = i + 1,
      c' = { ...cmd("transfer", [from, dest, value], [0, f, t]), out: wordBytes(value) } }
  }
  /// minting never takes the supply past 2^256
  action mint(a: int, v: int): bool = {
    val x = v % (W - supply)
    all { bal' = bal.put(a, look(bal, a) + x), supply' = supply + x, i' = i + 1,
          c' = cmd("mint", [a, look(bal, a) + x], []) }
  }
  action query(a: int): bool = all { bal' = bal, supply' = supply, i' = i + 1,
    c' = cmd("balance", [a], [look(bal, a)]) }

  action step = {
    nondet a = 0.to(9).oneOf()
    nondet fi = 0.to(9).oneOf()
    nondet ti = 0.to(9).oneOf()
    nondet z = 0.to(15).oneOf()
    nondet dirty = 0.to(3).oneOf()
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet k = 0.to(255).oneOf()
    nondet d = (-2).to(2).oneOf()
    nondet vs = 0.to(7).oneOf()
    val f = if (z == 0) 0 else if (z == 1) r % A20 else ADDRS[fi]
    val t = if (z == 2) 0 else if (z == 3) r % A20 else if (z == 4) f else ADDRS[ti]
    val hi = if (dirty == 0) (r / A20) % 2^96 else 0
    val b = look(bal, f)
    val v = if (vs <= 1) shape(kind, k, d, r) else if (vs == 2) b else if (vs == 3) wrap(b + 1) else if (vs == 4) 0
            else if (vs == 5) imax(0, b - 1) else r % imax(1, b)
    if (a <= 6) transfer(hi * A20 + f, (if (d == 0) hi * A20 else 0) + t, v)
    else if (a == 7) query(f)
    else mint(if (f == 0) 1 else f, shape(kind, k, d, r))
  }

  /// transfers conserve the total supply, and no balance exceeds it
  val conserved = bal.keys().fold(0, (s, a) => s + bal.get(a)) == supply
  val bounded = bal.keys().forall(a => 0 <= bal.get(a) and bal.get(a) <= supply)
  val zeroStaysEmpty = look(bal, 0) == 0
}
