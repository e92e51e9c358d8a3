// C11: what a contract sees of its environment.
// Every query returns the host's value as an EVM word: 20-byte values zero
// extended, 256-bit values byte exact, machine integers unsigned, and account
// queries use the low 20 bytes of the operand only.
module env {
  import evm.* from "./evm"

  type Env = { caller: int, address: int, origin: int, coinbase: int, prevrandao: int,
               callvalue: int, gasprice: int, basefee: int, blobbasefee: int, chainid: int,
               gas: int, gaslimit: int, timestamp: int, number: int }
  var e: Env
  var bal: int -> int        // balances, by 20-byte address
  var codes: int -> int      // code length, by address
  var hashes: int -> int     // code hash, by address
  var i: int
  var c: Cmd

  pure val A20: int = 2^160
  pure val NAMES: List[str] = ["caller", "address", "origin", "coinbase", "prevrandao", "callvalue",
    "gasprice", "basefee", "blobbasefee", "chainid", "gas", "gaslimit", "timestamp", "number"]
  pure def envField(v: Env, n: str): int =
    if (n == "caller") v.caller else if (n == "address") v.address else if (n == "origin") v.origin
    else if (n == "coinbase") v.coinbase else if (n == "prevrandao") v.prevrandao
    else if (n == "callvalue") v.callvalue else if (n == "gasprice") v.gasprice
    else if (n == "basefee") v.basefee else if (n == "blobbasefee") v.blobbasefee
    else if (n == "chainid") v.chainid else if (n == "gas") v.gas else if (n == "gaslimit") v.gaslimit
    else if (n == "timestamp") v.timestamp else v.number
  pure def mkEnv(s: List[int]): Env = {
    caller: s[0] % A20, address: s[1] % A20, origin: s[2] % A20, coinbase: s[3] % A20,
    prevrandao: s[4] % A20, callvalue: s[5], gasprice: s[6], basefee: s[7], blobbasefee: s[8],
    chainid: s[9], gas: s[10] % 2^64, gaslimit: s[11] % 2^64, timestamp: s[12] % 2^64, number: s[13] % 2^64 }
  pure def seeds(kinds: int, r: int): List[int] =
    range(0, 14).foldl([], (l, j) => l.append(
      shape((kinds / 8^j) % 8, (r / 2^(17 * j)) % 256, 1 - (r / 2^(9 * j)) % 3, (r / 2^(256 * j)) % W)))
  pure def look(m: int -> int, k: int): int = if (m.keys().contains(k)) m.get(k) else 0
  // neighbours in the address space, and zero
  pure def acct(sel: int, self: int, r: int): int =
    if (sel == 0) 0 else if (sel == 1) 1 else if (sel == 2) 5 else if (sel == 3) A20 - 1
    else if (sel == 4) 2^152 else if (sel <= 7) self else r % A20

  action txStart(kinds: int, r: int): bool = {
    val v = mkEnv(seeds(kinds, r))
    all { e' = v, c' = cmd("newtx", NAMES.foldl([], (l, n) => l.append(envField(v, n))), []), i' = 0 }
  }
  action init = {
    nondet kinds = 0.to(8^14 - 1).oneOf()
    nondet r = 0.to(2^3700).oneOf()
    all { txStart(kinds, r), bal' = Map(), codes' = Map(), hashes' = Map() }
  }
  action keep = all { e' = e, i' = i + 1, bal' = bal, codes' = codes, hashes' = hashes }
  action step = {
    nondet a = 0.to(31).oneOf()
    nondet kinds = 0.to(8^14 - 1).oneOf()
    nondet r = 0.to(2^3700).oneOf()
    nondet sel = 0.to(9).oneOf()
    nondet z = 0.to(5).oneOf()
    val hi = if (z <= 2) 0 else (r / 2^300) % 2^96         // dirty upper bytes of the operand
    val who = acct(sel, e.address, r)
    val op = hi * A20 + who
    val w = shape(kinds % 8, (kinds / 8) % 256, 1, (r / 2^500) % W)
    if (a <= 13) all { keep, c' = cmd(NAMES[a], [], [envField(e, NAMES[a])]) }
    else if (a == 14) all { keep, c' = cmd("callvalue_not_zero", [], [b2i(e.callvalue != 0)]) }
    else if (a == 15) all { keep, c' = cmd("selfbalance", [], [look(bal, e.address)]) }
    else if (a <= 18) all { keep, c' = cmd("balance", [op], [look(bal, who)]) }
    else if (a <= 20) all { keep, c' = cmd("extcodesize", [op], [look(codes, who)]) }
    else if (a <= 22) all { keep, c' = cmd("extcodehash", [op], [look(hashes, who)]) }
    else if (a <= 24) all { keep, c' = cmd("blockhash", [w % 2^64, (r / 2^800) % W], [(r / 2^800) % W]) }
    else if (a <= 26) all { e' = e, i' = i + 1, codes' = codes, hashes' = hashes,
                           bal' = bal.put(who, w), c' = cmd("setbalance", [who, w], []) }
    else if (a <= 28) all { e' = e, i' = i + 1, bal' = bal,
                           codes' = codes.put(who, w % 700), hashes' = hashes.put(who, (r / 2^1100) % W),
                           c' = cmd("setcode", [who, w % 700, (r / 2^1100) % W], []) }
    else if (a <= 30) all { e' = { ...e, callvalue: if (z == 0) 0 else 2^((kinds / 8) % 256) }, i' = i + 1,
                           bal' = bal, codes' = codes, hashes' = hashes,
                           c' = cmd("setvalue", [if (z == 0) 0 else 2^((kinds / 8) % 256)], []) }
    else all { txStart(kinds, r), bal' = bal, codes' = codes, hashes' = hashes }
  }
  val addressesShort = and { e.caller < A20, e.address < A20, e.origin < A20, e.coinbase < A20 }
  val answersAreWords = c.exp.indices().forall(k => 0 <= c.exp[k] and c.exp[k] < W)
}
