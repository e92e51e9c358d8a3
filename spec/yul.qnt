// -*- mode: Bluespec; -*-
/// C16, C17, C18: what a Yul program does.
///
/// `yulsem` is a small-step machine for Yul programs, written from the Yul
/// documentation: a program is a list of nodes, expressions in reverse Polish
/// order (Yul evaluates the last argument first), statements with structured
/// markers.  `yul` is the system: first it grows a random well-formed program,
/// then it deploys it once and calls it several times, keeping storage.
module yulsem {
  import evm.* from "./evm"
  import callrule.* from "./callrule"

  /// one token of a program.  `s` operator, name or literal style; `n` value;
  /// `m` index of the construct it belongs to; `v` names
  type Node = { k: str, s: str, n: int, m: int, v: List[str] }
  pure def node(k: str, s: str, n: int, m: int, v: List[str]): Node = { k: k, s: s, n: n, m: m, v: v }
  pure def kw(k: str, m: int): Node = node(k, "", 0, m, [])
  pure def op(s: str): Node = node("op", s, 0, 0, [])
  pure def lit(n: int): Node = node("lit", "d", n, 0, [])
  pure def vref(x: str): Node = node("var", x, 0, 0, [])

  type Case = { sw: int, cv: int, pos: int }
  /// a finished program: where constructs end, loops have their parts, functions start
  type Prog = { code: List[Node], links: int -> int, posts: int -> int, bodies: int -> int,
                cases: List[Case], dflt: int -> int, fpos: int -> int, sigs: List[int], fnames: List[str], imms: List[Bind] }
  type Bind = { x: str, v: int }
  type Sig = { p: int, r: int }
  pure val SIGS: List[Sig] = [ {p: 1, r: 1}, {p: 2, r: 1}, {p: 2, r: 2}, {p: 0, r: 1}, {p: 1, r: 0}, {p: 3, r: 3}, {p: 0, r: 2}, {p: 3, r: 1}, {p: 3, r: 0} ]
  pure val PN: List[str] = ["p0", "p1", "p2"]
  pure val RN: List[str] = ["r0", "r1", "r2"]

  // --------------------------------------------------------- environment
  type Env = { address: int, caller: int, origin: int, callvalue: int, gasprice: int, basefee: int, blobbasefee: int,
               chainid: int, timestamp: int, number: int, gaslimit: int, coinbase: int, selfbalance: int, gas: int,
               data: List[int], code: List[int] }
  pure val NULLARY: List[str] = ["address", "caller", "origin", "callvalue", "gasprice", "basefee", "blobbasefee",
               "chainid", "timestamp", "number", "gaslimit", "coinbase", "selfbalance", "calldatasize"]
  pure val NULL: Set[str] = NULLARY.concat(["gas", "codesize"]).foldl(Set(), (z, x) => z.union(Set(x)))
  pure def envOf(e: Env, s: str): int =
    if (s == "address") e.address else if (s == "caller") e.caller else if (s == "origin") e.origin
    else if (s == "callvalue") e.callvalue else if (s == "gasprice") e.gasprice else if (s == "basefee") e.basefee
    else if (s == "blobbasefee") e.blobbasefee else if (s == "chainid") e.chainid else if (s == "timestamp") e.timestamp
    else if (s == "number") e.number else if (s == "gaslimit") e.gaslimit else if (s == "coinbase") e.coinbase
    else if (s == "selfbalance") e.selfbalance else if (s == "gas") e.gas else if (s == "codesize") length(e.code) else length(e.data)

  // ------------------------------------------------- the world outside
  // Pure stand-ins for the rest of the chain; the mock host computes the same.
  pure val A20: int = 2^160
  pure def noise(r: int, i: int): int = wrap((r + 2^200 + i) * (2 * r + 2 * i + 1))
  pure def noiseBytes(r: int, i: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => l.append((noise(r, i) / 2^(k % 240) + 7 * k) % 256))
  pure def hash(l: List[int]): int = l.foldl(length(l) + 1, (h, b) => wrap(h * 257 + b + 1))
  pure def balanceOf(e: Env, a: int): int = if (a == e.address) e.selfbalance else noise(a, 77)
  pure def codeOf(a: int): List[int] = noiseBytes(a, 82, noise(a, 78) % 100)
  /// what the callee does: the status the host reports and the output
  pure def answerOf(who: int, n: int): { status: int, ret: List[int] } = {
    pure val k = noise(noise(who, 81 + n), 5) / 2^100
    // some fail with enough output for any caller, few with too little, fewer abort
    pure val soft = k % 256 < 24 or (1 <= who and who <= 10 and k % 2 == 0)
    { status: if (soft) 1 else if (k % 256 < 252) 0 else if (k % 256 < 255) 1 else 2, ret: noiseBytes(who, 83 + n, if (soft) 70 else (k / 256) % 70) }
  }
  pure def createdAt(img: List[int], n: int): { status: int, addr: int } = {
    pure val k = noise(noise(hash(img), 90 + n), 5) / 2^60
    { status: if ((k / 2^30) % 64 == 0) 1 else 0, addr: k % A20 }
  }

  // ------------------------------------------------------------- machine
  type Scope = { at: int, len: int }
  type Frame = { ret: int, env: List[Bind], scopes: List[Scope], vs: List[int] }
  /// `at`: how many writes, logs, calls and creations came before
  type Log = { topics: List[int], data: List[int], at: int }
  type Call = { kind: str, gas: int, callee: int, value: int, data: List[int], at: int }
  type Created = { two: bool, value: int, code: List[int], data: List[int], salt: int, at: int }
  type M = { pc: int, vs: List[int], env: List[Bind], scopes: List[Scope], frames: List[Frame],
             mem: Mem, sto: int -> int, tra: int -> int, writes: List[Bind], logs: List[Log], st: str, out: List[int], n: int,
             calls: List[Call], created: List[Created], rdata: List[int] }

  pure def before(m: M): int = length(m.writes) / 2 + length(m.logs) + length(m.calls) + length(m.created)
  pure def get0(m: int -> int, k: int): int = if (m.keys().contains(k)) m.get(k) else 0
  pure def lookup(env: List[Bind], x: str): int = env.foldl(0, (acc, b) => if (b.x == x) b.v else acc)
  pure def setVar(env: List[Bind], x: str, v: int): List[Bind] =
    env.foldl([], (acc, b) => acc.append(if (b.x == x) { x: x, v: v } else b))
  pure def bindAll(env: List[Bind], xs: List[str], vs: List[int]): List[Bind] =
    range(0, length(xs)).foldl(env, (e, i) => e.append({ x: xs[i], v: vs[i] }))
  pure def cut(l: List[Bind], n: int): List[Bind] = l.slice(0, n)
  pure def top(l: List[int]): int = l[length(l) - 1]
  pure def under(l: List[int], i: int): int = l[length(l) - 1 - i]
  pure def drop(l: List[int], n: int): List[int] = l.slice(0, length(l) - n)

  pure val BINOPS: List[str] = ["add", "sub", "mul", "div", "sdiv", "mod", "smod", "exp", "lt", "gt", "slt", "sgt", "eq",
                               "and", "or", "xor", "byte", "shl", "shr", "sar", "signextend"]
  pure val BIN: Set[str] = BINOPS.foldl(Set(), (z, x) => z.union(Set(x)))
  pure def same(l: List[str], n: int, m: str -> int): str -> int = l.foldl(m, (acc, x) => acc.put(x, n))
  /// number of arguments
  pure val ARITY: str -> int =
    same(NULLARY.concat(["gas", "codesize", "stop", "invalid", "returndatasize", "loadimmutable"]), 0,
    same(["iszero", "not", "sload", "tload", "mload", "calldataload", "pop", "balance", "extcodesize", "extcodehash", "blockhash", "selfdestruct"], 1,
    same(BINOPS.concat(["sstore", "tstore", "mstore", "mstore8", "log0", "return", "revert", "keccak256"]), 2,
    same(["addmod", "mulmod", "log1", "mcopy", "calldatacopy", "codecopy", "returndatacopy", "create"], 3,
    same(["log2", "extcodecopy", "create2"], 4, same(["log3"], 5,
    same(["log4", "delegatecall", "staticcall"], 6, same(["call"], 7, Map()))))))))
  pure def arity(s: str): int = ARITY.get(s)

  pure def binop(s: str, a: int, b: int): int =
    if (s == "add") wAdd(a, b) else if (s == "sub") wSub(a, b) else if (s == "mul") wMul(a, b)
    else if (s == "div") wDiv(a, b) else if (s == "sdiv") wSdiv(a, b) else if (s == "mod") wMod(a, b)
    else if (s == "smod") wSmod(a, b) else if (s == "exp") wExp(a, b) else if (s == "lt") wLt(a, b)
    else if (s == "gt") wGt(a, b) else if (s == "slt") wSlt(a, b) else if (s == "sgt") wSgt(a, b)
    else if (s == "eq") wEq(a, b) else if (s == "and") wAnd(a, b) else if (s == "or") wOr(a, b)
    else if (s == "xor") wXor(a, b) else if (s == "byte") wByte(a, b) else if (s == "shl") wShl(a, b)
    else if (s == "shr") wShr(a, b) else if (s == "sar") wSar(a, b) else wSignextend(a, b)

  pure def dataWord(d: List[int], o: int): int = if (o >= length(d)) 0 else fromBytes(padSlice(d, o, 32))

  /// calls; the first argument is on top
  pure def callOp(e: Env, m: M, r: M, kind: str): M = {
    pure val k = if (kind == "call") 3 else 2
    pure val who = under(m.vs, 1)
    pure val value = if (kind == "call") under(m.vs, 2) else 0
    pure val input = mRead(m.mem, under(m.vs, k), under(m.vs, k + 1))
    pure val w = answerOf(who % A20, length(m.calls))
    pure val o = outcome(who, w.status, w.ret, under(m.vs, k + 3))
    pure val r2 = { ...r, calls: m.calls.append({ kind: kind, gas: top(m.vs), callee: who % A20, value: value, data: input, at: before(m) }), rdata: w.ret }
    if (o.reverts) { ...r2, st: "revert", out: o.data }
    else { ...r2, vs: r.vs.append(o.flag), mem: mWrite(m.mem, under(m.vs, k + 2), w.ret.slice(0, o.copied)) }
  }
  pure def createOp(m: M, r: M, two: bool): M = {
    pure val img = mRead(m.mem, under(m.vs, 1), under(m.vs, 2))
    pure val n = fromBytes(img.slice(0, 4))
    pure val w = createdAt(img, length(m.created))
    pure val r2 = { ...r, created: m.created.append({ two: two, at: before(m), value: top(m.vs), code: img.slice(0, 4 + n), data: img.slice(4 + n, length(img)),
                                                      salt: if (two) under(m.vs, 3) else 0 }) }
    if (w.status == 0) { ...r2, vs: r.vs.append(w.addr) }
    else { ...r2, st: "revert", out: if (two) CREATE2_FAILED else CREATE_FAILED }
  }
  /// operators that look outside the contract
  pure def sysOp(p: Prog, e: Env, m: M, r: M, s: str, a: int, b: int, c: int): M = {
    pure def res(x) = { ...r, vs: r.vs.append(x) }
    if (s == "keccak256") res(hash(mRead(m.mem, a, b)))
    else if (s == "balance") res(balanceOf(e, a % A20))
    else if (s == "extcodesize") res(length(codeOf(a % A20)))
    else if (s == "extcodehash") res(noise(a % A20, 79))
    else if (s == "blockhash") res(noise(a, 80))
    else if (s == "returndatasize") res(length(m.rdata))
    else if (s == "extcodecopy") { ...r, mem: mWrite(m.mem, b, padSlice(codeOf(a % A20), c, under(m.vs, 3))) }
    else if (s == "codecopy") { ...r, mem: mWrite(m.mem, a, padSlice(e.code, b, c)) }
    else if (s == "returndatacopy") (if (b + c > length(m.rdata)) { ...r, st: "returndata-oob" }
                                     else { ...r, mem: mWrite(m.mem, a, m.rdata.slice(b, b + c)) })
    else if (s == "create") createOp(m, r, false) else if (s == "create2") createOp(m, r, true)
    else if (s == "selfdestruct") { ...r, st: "selfdestruct", out: toBytes(a % A20, 20) }
    else callOp(e, m, r, s)
  }

  /// operators: the first argument is on top
  pure def doOp(p: Prog, e: Env, m: M, s: str): M = {
    pure val k = arity(s)
    pure val a = if (k >= 1) top(m.vs) else 0
    pure val b = if (k >= 2) under(m.vs, 1) else 0
    pure val c = if (k >= 3) under(m.vs, 2) else 0
    pure val r = { ...m, vs: drop(m.vs, k), pc: m.pc + 1 }
    pure def res(x) = { ...r, vs: r.vs.append(x) }
    if (BIN.contains(s)) res(binop(s, a, b))
    else if (s == "iszero") res(wIszero(a)) else if (s == "not") res(wNot(a))
    else if (s == "addmod") res(wAddmod(a, b, c)) else if (s == "mulmod") res(wMulmod(a, b, c))
    else if (s == "sload") res(get0(m.sto, a)) else if (s == "tload") res(get0(m.tra, a))
    else if (s == "mload") res(mLoad(m.mem, a)) else if (s == "calldataload") res(dataWord(e.data, a))
    else if (s == "pop") r
    else if (s == "sstore") { ...r, sto: m.sto.put(a, b), writes: m.writes.append({ x: "s", v: a }).append({ x: "v", v: b }) }
    else if (s == "tstore") { ...r, tra: m.tra.put(a, b) }
    else if (s == "mstore") { ...r, mem: mStore(m.mem, a, b) }
    else if (s == "mstore8") { ...r, mem: mStore8(m.mem, a, b % 256) }
    else if (s == "mcopy") { ...r, mem: mCopy(m.mem, a, b, c) }
    else if (s == "calldatacopy") { ...r, mem: mWrite(m.mem, a, if (b >= length(e.data)) zeros(c) else padSlice(e.data, b, c)) }
    else if (s == "log0" or s == "log1" or s == "log2" or s == "log3" or s == "log4")
      { ...r, logs: m.logs.append({ at: before(m), data: mRead(m.mem, a, b), topics: range(2, k).foldl([], (l, i) => l.append(under(m.vs, i))) }) }
    else if (s == "return") { ...r, st: "finish", out: mRead(m.mem, a, b) }
    else if (s == "revert") { ...r, st: "revert", out: mRead(m.mem, a, b) }
    else if (s == "stop") { ...r, st: "finish" }
    else if (s == "invalid") { ...r, st: "invalid" }
    else if (NULL.contains(s)) res(envOf(e, s))
    else sysOp(p, e, m, r, s, a, b, c)
  }

  pure def popScope(m: M): M = {
    pure val i = length(m.scopes) - 1
    { ...m, env: cut(m.env, m.scopes[i].len), scopes: m.scopes.slice(0, i) }
  }
  pure def enter(m: M, at: int): M = { ...m, scopes: m.scopes.append({ at: at, len: length(m.env) }) }
  /// leave every scope inside the one opened at `at`, and that one
  pure def unwind(m: M, at: int): M =
    range(0, length(m.scopes)).foldl({ m: m, done: false }, (a, i) => {
      pure val s = a.m.scopes[length(a.m.scopes) - 1]
      if (a.done) a else { m: popScope(a.m), done: s.at == at }
    }).m
  pure def doReturn(p: Prog, m: M): M = {
    pure val f = m.frames[length(m.frames) - 1]
    pure val fn = p.code[f.ret - 1].m
    pure val sg = SIGS[p.sigs[fn]]
    { ...m, frames: m.frames.slice(0, length(m.frames) - 1), env: f.env, scopes: f.scopes, pc: f.ret,
            vs: f.vs.concat(range(0, sg.r).foldl([], (l, i) => l.append(lookup(m.env, RN[i])))) }
  }

  pure def step1(p: Prog, e: Env, m: M): M =
    if (m.st != "run") m
    else if (m.pc >= length(p.code)) { ...m, st: "finish" }
    else {
      pure val t = p.code[m.pc]
      pure val n = { ...m, pc: m.pc + 1, n: m.n + 1 }
      if (t.k == "lit" or t.k == "lib") { ...n, vs: m.vs.append(t.n) }
      else if (t.k == "var") { ...n, vs: m.vs.append(lookup(m.env, t.s)) }
      else if (t.k == "op") doOp(p, e, { ...m, n: m.n + 1 }, t.s)
      else if (t.k == "imm") { ...n, vs: m.vs.append(lookup(p.imms, t.s)) }
      else if (t.k == "let" or t.k == "set") {
        pure val k = length(t.v)
        pure val vals = m.vs.slice(length(m.vs) - k, length(m.vs))
        { ...n, vs: drop(m.vs, k),
                env: if (t.k == "let") bindAll(m.env, t.v, vals)
                     else range(0, k).foldl(m.env, (ev, i) => setVar(ev, t.v[i], vals[i])) }
      }
      else if (t.k == "letz") { ...n, env: t.v.foldl(m.env, (ev, x) => ev.append({ x: x, v: 0 })) }
      else if (t.k == "call") {
        pure val sg = SIGS[p.sigs[t.m]]
        pure val args = range(0, sg.p).foldl([], (l, i) => l.append({ x: PN[i], v: under(m.vs, i) }))
        pure val rets = range(0, sg.r).foldl([], (l, i) => l.append({ x: RN[i], v: 0 }))
        { ...n, frames: m.frames.append({ ret: m.pc + 1, env: m.env, scopes: m.scopes, vs: drop(m.vs, sg.p) }),
                env: args.concat(rets), scopes: [], vs: [], pc: p.fpos.get(t.m) + 1 }
      }
      else if (t.k == "endfun" or t.k == "leave") doReturn(p, n)
      else if (t.k == "fun") { ...n, pc: p.links.get(m.pc) + 1 }      // definitions are not executed
      else if (t.k == "block") enter(n, m.pc)
      else if (t.k == "if")
        if (top(m.vs) == 0) { ...n, vs: drop(m.vs, 1), pc: p.links.get(m.pc) + 1 }
        else enter({ ...n, vs: drop(m.vs, 1) }, m.pc)
      else if (t.k == "end") popScope(n)                              // of a block or if
      else if (t.k == "for") enter(n, m.pc)
      else if (t.k == "cond") n
      else if (t.k == "test")
        if (top(m.vs) == 0) { ...popScope({ ...n, vs: drop(m.vs, 1) }), pc: p.links.get(t.m) + 1 }
        else { ...enter({ ...n, vs: drop(m.vs, 1) }, p.bodies.get(t.m)), pc: p.bodies.get(t.m) + 1 }
      else if (t.k == "body") { ...popScope(n), pc: t.n + 1 }         // the post part ends: back to the condition
      else if (t.k == "endfor") { ...enter(popScope(n), p.posts.get(t.m)), pc: p.posts.get(t.m) + 1 }
      else if (t.k == "break") { ...unwind(n, t.m), pc: p.links.get(t.m) + 1 }
      else if (t.k == "continue") { ...enter(unwind(n, p.bodies.get(t.m)), p.posts.get(t.m)), pc: p.posts.get(t.m) + 1 }
      else if (t.k == "switch") {
        pure val v = top(m.vs)
        pure val hit = p.cases.foldl(-1, (acc, cs) => if (cs.sw == m.pc and cs.cv == v) cs.pos else acc)
        pure val dest = if (hit >= 0) hit else if (p.dflt.keys().contains(m.pc)) p.dflt.get(m.pc) else -1
        if (dest < 0) { ...n, vs: drop(m.vs, 1), pc: p.links.get(m.pc) + 1 }
        else { ...enter({ ...n, vs: drop(m.vs, 1) }, dest), pc: dest + 1 }
      }
      else // the end of a case: "case", "default" or "endsw"
        { ...popScope(n), pc: p.links.get(t.m) + 1 }
    }

  pure val FUEL: int = 2000
  pure def exec(p: Prog, e: Env, sto: int -> int): M =
    range(0, FUEL / 20).foldl(
      { pc: 0, vs: [], env: [], scopes: [], frames: [], mem: Map(), sto: sto, tra: Map(), writes: [], logs: [], st: "run", out: [], n: 0,
        calls: [], created: [], rdata: [] },
      (m, i) => if (m.st != "run") m else range(0, 20).foldl(m, (m2, j) => step1(p, e, m2)))
}

/// growing programs
module yulgen {
  import evm.* from "./evm"
  import yulsem.*

  /// a construct under growth.  `vis` visible names when it was opened
  type Open = { k: str, at: int, vis: int, vis2: int, used: Set[int], dfl: bool }
  type Gen = { p: Prog, d: int, open: List[Open], names: List[str], fn: int, left: int, main: int, done: bool, tmp: int, sol: bool, wide: bool }

  pure val POOL: List[str] = ["a", "b", "c", "x_1", "$y", "v.w", "_", "expr_12"]
  pure val LOOPV: List[str] = ["i", "j", "k"]
  /// variables that hold the place of allocated memory
  pure val PTRN: List[str] = ["memPos", "memPtr_1", "tail"]
  pure val KEEP: Set[str] = Set("i", "j", "k", "memPos", "memPtr_1", "tail")
  pure val BINL: List[str] = ["add", "sub", "mul", "div", "sdiv", "mod", "smod", "exp", "lt", "gt", "slt", "sgt", "eq", "and", "or", "xor",
                              "byte", "shl", "shr", "sar", "signextend", "add", "sub", "and", "lt", "gt", "eq", "shl", "shr"]
  pure val POWS: List[int] = [7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 160, 224, 248, 255]

  pure def pick(l: List[str], r: int): str = l[r % length(l)]

  /// literals: small numbers, bounds of every width the compiler distinguishes, anything
  pure def literal(r: int): Node = {
    pure val j = r / 16
    pure val w = wrap((r + 2^255 + 12345) * (2 * r + 2^200 + 1))
    pure val p = 2^POWS[(j / 8) % length(POWS)]
    pure val v = if (r % 16 < 5) j % 6 else if (r % 16 < 9) p + (j % 3) - 1 else if (r % 16 == 9) wrap(-(p + (j % 3) - 1))
                 else if (r % 16 == 10) w else if (r % 16 == 11) MAXW - (j % 4) else if (r % 16 == 12) [31, 32, 33, 255, 256, 257, 64, 4][j % 8]
                 else if (r % 16 == 13) w % 2^64 else if (r % 16 == 14) w % 10^(1 + j % 20) else w / 2^(j % 256)
    pure val sty = if (v <= 1 and (j / 64) % 4 == 0) "t" else if ((j / 64) % 3 == 0) "h" else if ((j / 64) % 7 == 0) "H" else "d"
    node("lit", sty, v, 0, [])
  }
  /// text as a literal: left aligned, up to 32 characters
  pure def str32(r: int): Node = {
    pure val n = [0, 1, 3, 4, 20, 31, 32, 32][r % 8]
    node("lit", "s", fromBytes(range(0, 32).foldl([], (l, i) => l.append(if (i < n) 32 + (noise(r, i) / 2^100) % 95 else 0))), n, range(0, n).foldl([], (l, i) => l.append("")))
  }
  pure def emit(g: Gen, ns: List[Node]): Gen = { ...g, p: { ...g.p, code: g.p.code.concat(ns) }, left: g.left - length(ns) }
  pure def here(g: Gen): int = length(g.p.code)
  pure def push(g: Gen, o: Open): Gen = { ...g, open: g.open.append(o) }
  pure def opened(g: Gen, k: str, at: int): Open = { k: k, at: at, vis: length(g.names), vis2: 0, used: Set(), dfl: false }
  pure def last(g: Gen): Open = g.open[length(g.open) - 1]
  pure def poped(g: Gen): Gen = { ...g, names: g.names.slice(0, last(g).vis), open: g.open.slice(0, length(g.open) - 1) }
  pure def link(g: Gen, at: int, dest: int): Gen = { ...g, p: { ...g.p, links: g.p.links.put(at, dest) } }
  pure def replaceTop(g: Gen, o: Open): Gen = { ...g, open: g.open.replaceAt(length(g.open) - 1, o) }

  /// variables that may be assigned: everything but loop counters
  pure def targets(g: Gen): List[str] = g.names.foldl([], (l, x) => if (KEEP.contains(x)) l else l.append(x))
  pure def freshNames(g: Gen): List[str] = {
    pure val seen = g.names.foldl(Set(), (s, x) => s.union(Set(x)))
    POOL.foldl([], (l, x) => if (seen.contains(x)) l else l.append(x))
  }
  pure def atom(g: Gen, r: int): List[Node] = {
    pure val j = r / 10
    if (r % 10 < 4 and length(g.names) > 0) [vref(pick(g.names, j))]
    else if (r % 10 < 8) [literal(j)]
    else if (r % 10 == 8) [op(pick(NULLARY, j))]
    else [lit([0, 4, 36, 5, 68, 100][j % 6]), op("calldataload")]
  }
  /// user functions that may be called here: from a function only later ones, so that
  /// recursion comes from the bounded form below alone
  pure def callable(g: Gen, rets: int, most: int): List[int] =
    range(0, length(g.p.sigs)).foldl([], (l, i) => if (i > g.fn and SIGS[g.p.sigs[i]].r == rets and SIGS[g.p.sigs[i]].p <= most) l.append(i) else l)

  pure def unary(r: int): List[Node] = {
    pure val j = r % 9
    if (j == 0) [op("iszero")] else if (j == 1) [op("not")] else if (j == 2) [lit(3), op("and"), op("sload")]
    else if (j == 3) [lit(1), op("and"), op("tload")] else if (j == 4) [lit(95), op("and"), op("mload")]
    else if (j == 5) [lit(63), op("and"), op("calldataload")] else if (j == 6) [op("iszero"), op("iszero")]
    else if (j == 7) [lit(64 + (r / 9) % 190), op("shl")] else [lit(255), op("and")]
  }

  /// consume a single pending value
  pure def consume(g: Gen, r: int, flow: int): Gen = {
    pure val j = r / 100
    pure val o = if (length(g.open) > 0) last(g).k else "none"
    pure val fr = freshNames(g)
    pure val tg = targets(g)
    if (o == "fcond") {
      pure val f = last(g)
      pure val iv = g.names[f.vis]
      pure val g2 = emit(g, if (j % 4 == 0) [lit(1 + (j / 4) % 4), vref(iv), op("lt"), op("and"), kw("test", f.at)]
                           else if (j % 4 == 1) [lit(0), op("and"), lit(1 + (j / 4) % 4), vref(iv), op("lt"), op("or"), kw("test", f.at)]
                           else [op("iszero"), op("iszero"), lit(1 + (j / 4) % 4), vref(iv), op("lt"), op("and"), kw("test", f.at)])
      pure val at = here(g2)
      { ...replaceTop({ ...g2, p: { ...g2.p, code: g2.p.code.append(kw("post", f.at)), posts: g2.p.posts.put(f.at, at) } },
                      { ...f, k: "fpost", vis2: length(g2.names) }), d: 0 }
    }
    else if (r % 100 < flow) {
      if (j % 2 == 0 or length(g.open) > 4) push({ ...emit(g, [kw("if", 0)]), d: 0 }, opened(g, "if", here(g)))
      else {
        pure val g1 = emit(g, if (j % 4 == 1) [lit(3), op("and")] else [])
        pure val at = here(g1)
        pure val g2 = { ...emit(g1, [kw("switch", 0)]), d: 0 }
        newCase(push(g2, { ...opened(g, "case", at), vis2: length(g.names) }), at, j / 4)
      }
    }
    else if (r % 100 < flow + (100 - flow) / 3 and length(fr) > 0)
      { pure val x = pick(fr, j) { ...emit(g, [node("let", "", 0, 0, [x])]), d: 0, names: g.names.append(x) } }
    else if (r % 100 < flow + (100 - flow) / 2 and length(tg) > 0)
      { ...emit(g, [node("set", "", 0, 0, [pick(tg, j)])]), d: 0 }
    else if (r % 100 < 90) { ...emit(g, [lit(j % 4), op("sstore")]), d: 0 }
    else if (r % 100 < 93) { ...emit(g, [lit(j % 2), op("tstore")]), d: 0 }
    else if (r % 100 < 95) { ...emit(g, [lit(128 + j % 64), op("mstore")]), d: 0 }
    else if (r % 100 < 96) { ...emit(g, [lit(128 + j % 64), op("mstore8")]), d: 0 }
    else if (r % 100 < 97) { ...emit(g, [op("pop")]), d: 0 }
    else if (r % 100 < 99) { ...emit(g, [lit(j % 40), lit(128 + (j / 64) % 40), op("log1")]), d: 0 }
    else { ...emit(g, [lit((j / 7) % 64), op("mstore")]), d: 0 }
  }
  pure def caseOf(g: Gen, c: Node): Gen = {
    pure val g1 = emit(g, [c])
    replaceTop({ ...g1, p: { ...g1.p, cases: g1.p.cases.append({ sw: c.m, cv: c.n, pos: here(g) }) } }, { ...last(g), used: last(g).used.union(Set(c.n)) })
  }
  /// the next case of the switch at `at`: its marker ends the case before it
  pure def newCase(g: Gen, at: int, j: int): Gen = {
    pure val o = last(g)
    pure val w = str32(j / 11)
    pure val v = if (j % 11 == 0 and w.m > 0) w.n else if (g.sol and j % 7 > 0) SELS[j % length(SELS)] else [0, 1, 2, 3, 255, 2^31, 2^32, 2^32 + 1, 2^64, 2^64 + 1, 2^255, MAXW][j % 12]
    if (o.used.contains(v)) g
    else caseOf({ ...g, names: g.names.slice(0, o.vis) }, node("case", if (j % 11 == 0 and w.m > 0) "s" else if (j % 5 == 0) "h" else "d", v, at, if (j % 11 == 0) w.v else []))
  }

  /// close the innermost construct (or its current part)
  pure def close(g: Gen, r: int): Gen =
    if (length(g.open) == 0) endUnit(g)
    else {
      pure val o = last(g)
      if (o.k == "if" or o.k == "block") link(poped(emit(g, [kw("end", o.at)])), o.at, here(g))
      else if (o.k == "fpost") {
        pure val iv = g.names[o.vis]
        pure val g1 = emit({ ...g, names: g.names.slice(0, o.vis2) }, [lit(1), vref(iv), op("add"), node("set", "", 0, 0, [iv])])
        pure val at = here(g1)
        pure val cond = g.p.code.indices().fold(0, (acc, i) => if (g.p.code[i].k == "cond" and g.p.code[i].m == o.at) i else acc)
        pure val g2 = emit(g1, [node("body", "", cond, o.at, [])])
        replaceTop({ ...g2, p: { ...g2.p, bodies: g2.p.bodies.put(o.at, at) } }, { ...o, k: "fbody" })
      }
      else if (o.k == "fbody") link(poped(emit(g, [kw("endfor", o.at)])), o.at, here(g))
      else if (o.k == "case") {
        // another case, the default, or the end
        if (r % 5 < 2 and g.left > 0) newCase(g, o.at, r / 5)
        else if (r % 5 < 4 and not(o.dfl))
          replaceTop({ ...emit({ ...g, names: g.names.slice(0, o.vis) }, [kw("default", o.at)]), p: { ...g.p, code: g.p.code.append(kw("default", o.at)), dflt: g.p.dflt.put(o.at, here(g)) } },
                     { ...o, k: "dflt", dfl: true })
        else link(poped(emit(g, [kw("endsw", o.at)])), o.at, here(g))
      }
      else link(poped(emit(g, [kw("endsw", o.at)])), o.at, here(g))
    }

  pure def endUnit(g: Gen): Gen =
    if (g.fn >= 0) {
      pure val g1 = link(emit(g, [kw("endfun", g.fn)]), g.p.fpos.get(g.fn), here(g))
      startFun(g1, g.fn + 1)
    }
    else { // main: show every variable, then memory
      pure val g1 = range(0, length(g.names)).foldl(g, (acc, i) => emit(acc, [vref(g.names[i]), lit(200 + i), op("sstore")]))
      { ...emit(g1, if (g.sol) [lit(320), lit(128), op("return")] else [lit(256), lit(0), op("return")]), done: true }
    }

  pure def startFun(g: Gen, i: int): Gen =
    if (i < length(g.p.sigs)) {
      pure val sg = SIGS[g.p.sigs[i]]
      pure val at = here(g)
      { ...emit(g, [kw("fun", i)]), fn: i, left: g.tmp, open: [], d: 0, p: { ...g.p, code: g.p.code.append(kw("fun", i)), fpos: g.p.fpos.put(i, at) },
        names: PN.slice(0, sg.p).concat(RN.slice(0, sg.r)) }
    }
    else emit({ ...g, fn: -1, left: g.main, names: [], open: [], d: 0 }, if (g.sol) [lit(128), lit(64), op("mstore")] else [])

  /// one growth step from a random number
  pure def grow(g: Gen, r: int, flow: int): Gen = {
    pure val a = r % 100
    pure val j = r / 100
    pure val inBody = g.open.foldl(-1, (acc, o) => if (o.k == "fbody") o.at else if (o.k == "fcond" or o.k == "fpost") -1 else acc)
    pure val nfor = g.open.foldl(0, (acc, o) => if (Set("fcond", "fpost", "fbody").contains(o.k)) acc + 1 else acc)
    if (g.done) g
    else if (g.d > 0) {
      if (g.left <= 0) { if (g.d == 1) consume(g, 50 + r % 50 + 100 * j, flow) else { ...emit(g, [op(pick(BINL, j))]), d: g.d - 1 } }
      else if (g.d >= 3 and a < 15) { ...emit(g, [op(if (j % 2 == 0) "addmod" else "mulmod")]), d: g.d - 2 }
      else if (g.d >= 2 and (a < 55 or g.d >= 5)) { ...emit(g, [op(pick(BINL, j))]), d: g.d - 1 }
      else if (a < 30) { ...emit(g, if (j % 6 == 0) [lit((j / 6) % 3), op("calldataload")] else if (j % 6 == 1) [lit((j / 6) % 4), op("sload")] else atom(g, j / 6)), d: g.d + 1 }
      else if (g.d >= 2 and a < 70) { ...emit(g, atom(g, j)), d: g.d + 1 }
      else if (a < 45 or (g.d >= 2 and a < 80)) emit(g, unary(j))
      else if (a < 56 or g.d >= 2) {
        pure val fs = callable(g, 1, g.d)
        if (length(fs) == 0) g else {
          pure val f = fs[j % length(fs)]
          { ...emit(g, [kw("call", f)]), d: g.d - SIGS[g.p.sigs[f]].p + 1 }
        }
      }
      else consume(g, j, flow)
    }
    else if (g.left <= 0) close(g, r)
    else if (a >= 70 and a < 70 + flow / 2) {
      pure val b = (j % 20)
      pure val q = j / 20
      if (b < 2) push(emit(g, [kw("block", 0)]), opened(g, "block", here(g)))
      else if (b < 6 and nfor < 3) {
        pure val iv = LOOPV[nfor]
        pure val at = here(g)
        pure val g1 = emit(g, [kw("for", 0), lit(0), node("let", "", 0, 0, [iv]), kw("cond", at)].concat(atom({ ...g, names: g.names.append(iv) }, q)))
        { ...push({ ...g1, names: g.names.append(iv) }, { ...opened(g, "fcond", at), vis: length(g.names) }), d: 1 }
      }
      else if (b < 11) (if (length(g.open) > 0) close(g, q) else g)
      else if (b < 14 and inBody >= 0) emit(g, [kw(if (q % 2 == 0) "break" else "continue", inBody)])
      else if (b < 16 and g.fn >= 0 and length(g.open) > 0) emit(g, [kw("leave", g.fn)])
      else if (b == 16) {
        pure val fr = freshNames(g)
        if (length(fr) < 2) g
        else if (q % 3 == 0) { ...emit(g, [node("letz", "", 0, 0, fr.slice(0, 2))]), names: g.names.concat(fr.slice(0, 2)) }
        else { ...emit(g, [node("letz", "", 0, 0, fr.slice(0, 1))]), names: g.names.concat(fr.slice(0, 1)) }
      }
      else if (b == 19 and g.fn >= 0 and SIGS[g.p.sigs[g.fn]].p >= 1 and inBody < 0) {
        // bounded recursion: the first argument counts down
        pure val sg = SIGS[g.p.sigs[g.fn]]
        pure val args = range(0, sg.p - 1).foldl([], (l, i) => l.concat(atom(g, q / (7 + 13 * i)))).concat([lit(3), lit(1), vref("p0"), op("sub"), op("and")])
        pure val at = here(g) + 3
        pure val g1 = emit(g, [lit(3), vref("p0"), op("and"), kw("if", 0)].concat(args).append(kw("call", g.fn))
                              .concat(if (sg.r > 0) [node("set", "", 0, 0, RN.slice(0, sg.r))] else []))
        link(emit(g1, [kw("end", at)]), at, here(g1))
      }
      else if (b == 17 and q % 6 == 0 and length(g.open) > 0)
        emit(g, if (q % 18 == 0) [lit(q % 32), lit(q % 100), op("revert")] else if (q % 18 == 6) [op("stop")] else [lit(q % 32), lit(q % 100), op("return")])
      else if (b == 18) emit(g, [lit(q % 40), lit(128 + (q / 40) % 64), lit((q / 2560) % 200), op(if (q % 2 == 0) "mcopy" else "calldatacopy")])
      else g
    }
    else if (a >= 92) {
      // calls that give none or several results
      pure val rets = [0, 2, 3, 2][j % 4]
      pure val q = j / 4
      pure val fs = callable(g, rets, 3)
      if (length(fs) == 0) g else {
        pure val f = fs[q % length(fs)]
        pure val np = SIGS[g.p.sigs[f]].p
        pure val g1 = range(0, np).foldl(g, (acc, i) => emit(acc, atom(g, q / (7 + 11 * i))))
        pure val g2 = emit(g1, [kw("call", f)])
        pure val fr = freshNames(g)
        pure val tg = targets(g)
        if (rets == 0) g2
        else if (length(fr) >= rets and (q % 2 == 0 or length(tg) < rets))
          { ...emit(g2, [node("let", "", 0, 0, fr.slice(0, rets))]), names: g.names.concat(fr.slice(0, rets)) }
        else if (length(tg) >= rets) { pure val o = (q / 8) % (length(tg) - rets + 1) emit(g2, [node("set", "", 0, 0, tg.slice(o, o + rets))]) }
        else g
      }
    }
    else { ...emit(g, atom(g, j)), d: 1 }
  }
  /// --- every operator on every kind of operand: straight-line programs
  pure val CMP: List[str] = ["lt", "gt", "slt", "sgt", "eq"]
  pure val EDGE: List[int] = [0, 1, 2, 3, 5, 31, 32, 33, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 2^31 - 1, 2^31, 2^32 - 1, 2^32, 2^32 + 1, 2^63 - 1, 2^63, 2^64 - 1, 2^64,
                              2^64 + 1, 2^127, 2^128 - 1, 2^128, 2^159, 2^160 - 1, 2^160, 2^192, 2^248, 2^255 - 1, 2^255, 2^255 + 1, MAXW - 255, MAXW - 31, MAXW - 1, MAXW]
  pure def edge(r: int): int = EDGE[r % length(EDGE)]
  pure def opName(r: int): str = if (r % 16 == 15) (if ((r / 16) % 2 == 0) "addmod" else "mulmod") else if (r % 16 == 14) (if ((r / 16) % 2 == 0) "iszero" else "not")
                                 else pick(BINL.slice(0, 21), r / 16)
  pure def simple(g: Gen, r: int): List[Node] = {
    pure val j = r / 16
    pure val k = r % 16
    if (k < 3) [literal(j)] else if (k < 5) [lit(edge(j))] else if (k == 5) [node("lit", "h", edge(j), 0, [])]
    else if (k < 9) [lit([4, 36, 68][j % 3]), op("calldataload")]
    else if (k < 11 and length(g.names) > 0) [vref(pick(g.names, j))]
    else if (k == 11) [op(pick(NULLARY, j))]
    else if (k == 12) [lit([0, 32, 96][j % 3]), op("mload")]
    else if (k == 13) [lit(j % 4), op("sload")]
    else [lit([4, 36, 68][j % 3]), op("calldataload"), lit([255, 2^32 - 1, 2^64 - 1, 2^160 - 1, 63, 1, 2^96 - 1, 2^255][(j / 3) % 8]), op("and")]
  }
  /// an operand: something simple, or one operator over simple things
  pure def operand(g: Gen, r: int): List[Node] = {
    pure val j = r / 8
    if (r % 8 < 5) simple(g, j)
    else if (r % 8 == 5) simple(g, j).concat(simple(g, j / 2^32)).concat([op(pick(CMP, j / 2^64))])
    else { pure val o = opName(j / 2^64)
           range(0, arity(o)).foldl([], (l, i) => l.concat(simple(g, j / 2^(16 * i + 1)))).append(op(o)) }
  }
  pure def growOp(g: Gen, r: int): Gen =
    if (g.done) g
    else if (g.left <= 0) endUnit(g)
    else {
      pure val a = r % 16
      pure val j = r / 16
      pure val fr = freshNames(g)
      pure val tg = targets(g)
      pure val o = opName(j)
      pure val e = range(0, arity(o)).foldl([], (l, i) => l.concat(operand(g, j / 2^(12 + 96 * i)))).append(op(o))
      if (a < 2 and length(fr) > 2) { pure val x = pick(fr, j) { ...emit(g, operand(g, j / 8).append(node("let", "", 0, 0, [x]))), names: g.names.append(x) } }
      else if (a == 2 and length(tg) > 0) emit(g, operand(g, j / 8).append(node("set", "", 0, 0, [pick(tg, j)])))
      else if (a == 3) emit(g, operand(g, j / 8).concat([lit([0, 32, 96][j % 3]), op("mstore")]))
      else emit(g, e.concat([lit((r / 2^480) % 50), op("sstore")]))
    }

  // --- operators that look outside the contract
  pure def address(g: Gen, r: int): List[Node] = {
    pure val j = r / 8
    if (r % 8 == 0) [lit(1 + j % 12)] else if (r % 8 == 1) [op("caller")] else if (r % 8 == 2) [op("address")]
    else if (r % 8 == 3) [lit(noise(j, 3) % A20)] else if (r % 8 == 4) [lit(256 * (1 + j % 10))] else if (r % 8 == 5) [op("origin")]
    else simple(g, j)
  }
  pure def place(g: Gen, r: int, top: int): List[Node] = {
    pure val j = r / 4
    if (r % 4 < 2) [lit(j % (top + 1))] else [lit(top)].concat(simple(g, j)).append(op("and"))
  }
  pure val LENS: List[int] = [0, 1, 4, 31, 32, 33, 36, 64, 68]
  pure def extent(g: Gen, r: int): List[Node] =
    if (r % 4 < 3) [lit(LENS[(r / 4) % length(LENS)])] else [lit(63)].concat(simple(g, r / 4)).append(op("and"))
  pure def gasArg(g: Gen, r: int): List[Node] = if (r % 2 == 0) [op("gas")] else if (r % 4 == 1) [lit((r / 4) % 2^63)] else [lit(2^64 - 1 - (r / 4) % 3)]
  /// an address known when the contract is linked: its name and its value
  pure val LIBN: List[str] = ["contracts/Lib.sol:Lib", "L", "src/none.sol:U", "src/x y.sol:Z", "contracts/Lib.sol:Lib2"]
  pure val LIBV: List[int] = [0x1234567890abcdef1234567890abcdef12345678, 1, 2^160 - 1, 2^31, 0x00ff000000000000000000000000000000000000]
  pure def libNode(r: int): Node = { pure val i = r % 5 node("lib", LIBN[i], LIBV[i], 0, []) }
  /// an expression with an effect; arguments from the last to the first
  pure def sysExpr(g: Gen, r: int): List[Node] = {
    pure val k = r % 32
    pure val j = r / 32
    pure val j1 = j / 2^60
    pure val j2 = j / 2^120
    pure val j3 = j / 2^180
    if (k < 3) extent(g, j).concat(place(g, j1, 127)).append(op("keccak256"))
    else if (k < 5) address(g, j).append(op("balance")) else if (k < 7) address(g, j).append(op("extcodesize"))
    else if (k < 9) address(g, j).append(op("extcodehash"))
    else if (k == 9) [lit(2^31 - 1)].concat(simple(g, j)).concat([op("and"), op("blockhash")])
    else if (k == 10) [op("gas")] else if (k == 11) [op("codesize")] else if (k < 14) [op("returndatasize")]
    else if (k == 14) simple(g, j).append(op("sload")) else if (k == 15) simple(g, j).append(op("tload"))
    else if (k == 16) place(g, j, 255).append(op("mload"))
    else if (k < 19) (if (length(g.p.imms) == 0) (if (j % 2 == 0) [libNode(j1)] else [op("calldatasize")]) else if (j % 3 == 0) [libNode(j1)] else [node("imm", g.p.imms[j % length(g.p.imms)].x, 0, 0, [])])
    else if (k < 28) {
      pure val out = extent(g, j).concat(place(g, j1, 127)).concat(extent(g, j2)).concat(place(g, j3, 255))
      pure val kind = if (k < 23) "call" else if (k < 25) "delegatecall" else "staticcall"
      out.concat(if (kind == "call") simple(g, j1 / 2^30) else []).concat(address(g, j2 / 2^30)).concat(gasArg(g, j3 / 2^30)).append(op(kind))
    }
    else {
      pure val n = j % 29                         // bytes of code, then arguments
      pure val o = (j / 32) % 200
      pure val first = n * 2^224 + noise(j, 1) % 2^224
      [lit(first), lit(o), op("mstore")].concat(simple(g, j1)).concat([lit(o + 32), op("mstore")])
        .concat(if (k < 30) [] else simple(g, j2)).concat([lit(4 + n + j3 % 29), lit(o)]).concat(simple(g, j3 / 32)).append(op(if (k < 30) "create" else "create2"))
    }
  }
  pure def sysStmt(g: Gen, r: int): Gen = {
    pure val k = r % 32
    pure val j = r / 32
    pure val j1 = j / 2^60
    pure val j2 = j / 2^120
    pure val j3 = j / 2^180
    pure val e = sysExpr(g, j / 2^200)
    pure val v = if (j % 4 == 0) simple(g, j1) else e
    pure val fr = freshNames(g)
    pure val tg = targets(g)
    if (k < 3 and length(fr) > 1) { pure val x = pick(fr, j) { ...emit(g, e.append(node("let", "", 0, 0, [x]))), names: g.names.append(x) } }
    else if (k == 3 and length(tg) > 0) emit(g, e.append(node("set", "", 0, 0, [pick(tg, j)])))
    else if (k < 10) emit(g, e.concat([lit(j % 50), op("sstore")]))
    else if (k < 13) emit(g, v.concat(simple(g, j2)).append(op("sstore")))
    else if (k == 13) emit(g, v.concat(simple(g, j2)).append(op("tstore")))
    else if (k < 17) emit(g, v.concat(place(g, j2, 255)).append(op(if (k == 16) "mstore8" else "mstore")))
    else if (k == 17) emit(g, e.append(op("pop")))
    else if (k < 20) emit(g, extent(g, j).concat(place(g, j1, 127)).concat(place(g, j2, 255)).concat(address(g, j3)).append(op("extcodecopy")))
    else if (k == 20) emit(g, extent(g, j).concat(place(g, j1, 127)).concat(place(g, j2, 255)).append(op("codecopy")))
    else if (k == 21) emit(g, extent(g, j).concat(place(g, j1, 127)).concat(place(g, j2, 255)).append(op("calldatacopy")))
    else if (k == 22) emit(g, extent(g, j).concat(place(g, j1, 127)).concat(place(g, j2, 255)).append(op("mcopy")))
    else if (k < 26) emit(g, [op("returndatasize")].concat(if (j % 256 == 0) [lit(1)] else [lit(0)]).concat(place(g, j2, 255)).append(op("returndatacopy")))
    else if (k < 31) {
      pure val n = j % 5
      emit(g, range(0, n).foldl([], (l, i) => l.concat(simple(g, j1 / 2^(24 * i)))).concat(extent(g, j2)).concat(place(g, j3, 127)).append(op(["log0", "log1", "log2", "log3", "log4"][n])))
    }
    else { // a way out, seldom taken
      pure val g1 = emit(g, [lit(1 + (j / 8) % 2), lit(3)].concat([op("returndatasize"), op("and"), op("eq")]).append(kw("if", 0)))
      pure val at2 = here(g1) - 1
      pure val g2 = emit(g1, if (j % 4 == 0) extent(g, j1).concat(place(g, j2, 127)).append(op("revert"))
                             else if (j % 4 == 1) extent(g, j1).concat(place(g, j2, 127)).append(op("return"))
                             else address(g, j1).append(op("selfdestruct")))
      link(emit(g2, [kw("end", at2)]), at2, here(g2))
    }
  }
  pure def growSys(g: Gen, r: int): Gen =
    if (g.done) g else if (g.left <= 0) endUnit(g) else if (r % 8 == 0) growOp(g, r / 8) else sysStmt(g, r / 8)
  /// statements of either kind inside a program with control flow
  pure def growMixed(g: Gen, r: int, flow: int): Gen =
    if (not(g.done) and g.d == 0 and g.left > 0 and r % 4 > 0) sysStmt(g, noise(noise(r, 1), 1) * W + noise(noise(r, 2), 2)) else grow(g, r / 4, flow)
  pure val IMMN: List[str] = ["x", "imm_1", "37", "an_immutable_with_a_very_long_name_number_1", "an_immutable_with_a_very_long_name_number_2", "an_immutable_with_a_very_long_nam"]
  pure def withImms(g: Gen, r: int): Gen =
    { ...g, p: { ...g.p, imms: range(0, r % 5).foldl([], (l, i) => l.append({ x: IMMN[(r / 5 + i) % length(IMMN)], v: noise(r, i) / 2^(r % 256) })) } }

  // --- programs with the shapes the Solidity compiler emits
  pure val SELS: List[int] = [16909060, 1889567281, 2835717307, 2147483649, 4294967295, 2147483647, 2147483648, 0, 1, 255]
  pure def ap1(o: str, a: List[Node]): List[Node] = a.append(op(o))
  pure def ap2(o: str, a: List[Node], b: List[Node]): List[Node] = b.concat(a).append(op(o))
  pure def do2(o: str, a: List[Node], b: List[Node]): List[Node] = b.concat(a).append(op(o))
  pure def do3(o: str, a: List[Node], b: List[Node], c: List[Node]): List[Node] = c.concat(b).concat(a).append(op(o))
  /// a value that costs little
  pure def val1(g: Gen, r: int): List[Node] =
    if (r % 16 == 0) [str32(r / 16)] else if (r % 16 == 1) [op("calldatasize")] else if (r % 16 == 2) simple(g, r / 16).append(op("iszero"))
    else if (r % 16 == 3) simple(g, r / 16).concat([op("iszero"), op("iszero")]) else if (r % 16 == 4) [libNode(r / 16)] else operand(g, r / 16)
  pure def ptrs(g: Gen): List[str] = g.names.foldl([], (l, x) => if (Set("memPos", "memPtr_1", "tail").contains(x)) l.append(x) else l)
  pure def ptr(g: Gen, r: int): List[Node] = { pure val l = ptrs(g) if (length(l) == 0 or r % 8 == 0) [lit(128 + 32 * (r % 5))] else [vref(l[r % length(l)])] }
  /// seldom true
  pure def seldom(g: Gen, r: int): List[Node] = ap2("eq", ap2("and", simple(g, r / 2), [lit(15)]), [lit(7 + r % 2)])
  pure def emitIf(g: Gen, c: List[Node], body: List[Node]): Gen = {
    pure val g1 = emit(g, c.append(kw("if", 0)))
    pure val at = here(g1) - 1
    pure val g2 = emit(g1, body)
    link(emit(g2, [kw("end", at)]), at, here(g2))
  }
  pure def declare(g: Gen, r: int, e: List[Node]): Gen = {
    pure val fr = freshNames(g)
    if (length(fr) == 0) emit(g, e.concat([lit(r % 50), op("sstore")]))
    else { pure val x = pick(fr, r) { ...emit(g, e.append(node("let", "", 0, 0, [x]))), names: g.names.append(x) } }
  }
  /// store, bind or assign a value
  pure def useVal(g: Gen, r: int, e: List[Node]): Gen = {
    pure val tg = targets(g)
    if (r % 4 == 0) declare(g, r / 4, e)
    else if (r % 4 == 1 and length(tg) > 0) emit(g, e.append(node("set", "", 0, 0, [pick(tg, r / 4)])))
    else emit(g, e.concat([lit((r / 4) % 50), op("sstore")]))
  }
  pure def maskE(n: int): List[Node] = ap2("sub", ap2("shl", [lit(n)], [lit(1)]), [lit(1)])
  pure def onlyReverts(g: Gen, f: int): bool = g.p.fpos.keys().contains(f) and { pure val at = g.p.fpos.get(f) length(g.p.code) > at + 3 and g.p.code[at + 3].s == "revert" }
  pure def copyLoop(g: Gen, n: List[Node], from: List[Node], dst: List[Node], call: bool): Gen = {
    pure val at = here(g)
    pure val i = vref("i")
    pure val g1 = emit(g, [kw("for", 0), lit(0), node("let", "", 0, 0, ["i"]), kw("cond", at)].concat(ap2("lt", [i], n)).append(kw("test", at)))
    pure val p0 = here(g1)
    pure val g2 = emit(g1, [kw("post", at)].concat(ap2("add", [i], [lit(32)])).append(node("set", "", 0, 0, ["i"])))
    pure val b0 = here(g2)
    pure val g3 = emit(g2, [node("body", "", at + 3, at, [])].concat(do2("mstore", ap2("add", dst, [i]), ap1(if (call) "calldataload" else "mload", ap2("add", from, [i])))))
    pure val e0 = here(g3)
    pure val g4 = emit(g3, [kw("endfor", at)])
    { ...g4, p: { ...g4.p, posts: g4.p.posts.put(at, p0), bodies: g4.p.bodies.put(at, b0), links: g4.p.links.put(at, e0) } }
  }
  pure def solCall(g: Gen, r: int): Gen = {
    pure val fs = range(0, length(g.p.sigs)).foldl([], (l, i) => if (i > g.fn or (g.fn < 0)) l.append(i) else l)
    if (length(fs) == 0) g else {
      pure val f = fs[r % length(fs)]
      pure val sg = SIGS[g.p.sigs[f]]
      pure val j = r / 8
      pure val call = range(0, sg.p).foldl([], (l, i) => l.concat(val1(g, j / 2^(48 * i)))).append(kw("call", f))
      pure val rare = seldom(g, j)
      pure val g1 = if (onlyReverts(g, f)) push(emit(g, rare.append(kw("if", 0))), opened(g, "if", here(g) + length(rare))) else g
      pure val fr = freshNames(g1)
      pure val tg = targets(g1)
      if (sg.r == 0) emit(g1, call)
      else if (sg.r == 1) useVal(g1, j, if (j % 5 == 0) ap2("add", call, simple(g1, j / 2^30)) else call)
      else if (length(fr) >= sg.r) { ...emit(g1, call.append(node("let", "", 0, 0, fr.slice(0, sg.r)))), names: g1.names.concat(fr.slice(0, sg.r)) }
      else if (length(tg) >= sg.r) emit(g1, call.append(node("set", "", 0, 0, tg.slice(0, sg.r))))
      else g
    }
  }
  pure def solStmt(g: Gen, r: int): Gen = {
    pure val k = r % 40
    pure val j = r / 40
    pure val j1 = j / 2^96
    pure val j2 = j / 2^192
    pure val p = ptr(g, j)
    pure val deep = length(g.open) > 3
    if (k < 2) {
      pure val s = ap2("shr", [lit(if (j % 3 < 2) 224 else [223, 225, 216, 192, 240][(j / 3) % 5])],
                              ap1("calldataload", [lit(if (j % 5 < 3) 0 else [4, 1, 32, 3][(j / 15) % 4])]))
      if (deep) useVal(g, j1, s) else {
        pure val g1 = emit(g, s)
        newCase(push(emit(g1, [kw("switch", 0)]), { ...opened(g1, "case", here(g1)), vis2: length(g.names) }), here(g1), j1)
      }
    }
    else if (k == 2) {
      pure val c = if (j % 2 == 0) ap1("iszero", ap2("lt", [op("calldatasize")], [lit([4, 3, 5, 36, 37, 0][(j / 2) % 6])]))
                   else ap2("slt", ap2("add", [op("calldatasize")], ap1("not", [lit([3, 3, 3, 2, 4, 35][(j / 2) % 6])])), [lit([0, 32, 64, 1, MAXW, 96][(j / 12) % 6])])
      if (deep) useVal(g, j1, c) else push(emit(g, c.append(kw("if", 0))), opened(g, "if", here(g) + length(c)))
    }
    else if (k == 3) useVal(g, j1, ap2("add", [op("calldatasize")], ap1("not", [lit([3, 3, 3, 2, 4, 0][j % 6])])))
    else if (k < 6) useVal(g, j1, ap2("shl", [lit([0, 1, 30, 31, 32, 33, 62, 63, 64, 96, 160, 223, 224, 255, 256, 257, 300, 2^31 - 1, 2^31, 2^32, 2^32 + 1, 2^64, MAXW][j % 23])],
                                             [if (j % 4 < 3) literal(j / 23) else lit(edge(j / 23))]))
    else if (k < 9) {
      pure val n = if (g.wide and j % 2 == 0) 160 else [8, 16, 31, 32, 33, 63, 64, 65, 128, 159, 161, 255][(j / 2) % 12]
      pure val m = if (j % 3 < 2) maskE(n) else [node("lit", if (j % 2 == 0) "h" else "d", 2^n - 1, 0, [])]
      useVal(g, j1, if (j % 5 < 4) ap2("and", simple(g, j2), m) else ap2("and", m, simple(g, j2)))
    }
    else if (k < 12) {
      pure val g1 = emit(g, do2("mstore", [lit(0)], val1(g, j)).concat(do2("mstore", [lit(32)], [lit(j1 % 8)])))
      pure val h = ap2("keccak256", [lit(0)], [lit(64)])
      if (k == 9) useVal(g1, j2, ap1("sload", h)) else emit(g1, do2("sstore", h, if (j1 % 3 == 0) ap2("add", ap1("sload", h), simple(g, j2)) else val1(g, j2)))
    }
    else if (k < 15) {
      pure val fr = PTRN.foldl([], (l, x) => if (ptrs(g).indices().exists(i => ptrs(g)[i] == x)) l else l.append(x))
      if (length(fr) == 0) emit(g, do2("mstore", ap2("add", p, [lit(32 * (j % 5))]), val1(g, j1)))
      else {
        pure val x = fr[0]
        { ...emit(g, ap1("mload", [lit(64)]).append(node("let", "", 0, 0, [x])).concat(do2("mstore", [lit(64)], ap2("add", [vref(x)], [lit([32, 64, 0, 96, 33, 160][j % 6])])))),
          names: g.names.append(x) }
      }
    }
    else if (k < 18) emit(g, do2("mstore", if (j % 3 == 0) p else ap2("add", p, [lit([32, 4, 36, 64, 1][(j / 3) % 5])]), if (j1 % 4 == 0) [str32(j2)] else if (j1 % 4 == 1) [literal(j2)] else val1(g, j2)))
    else if (k < 20) {
      pure val n = j % 5
      emit(g, range(0, n).foldl([], (l, i) => l.concat(simple(g, j2 / 2^(24 * i)))).concat([lit([0, 32, 64, 68, 100, 1][j1 % 6])]).concat(p).append(op(["log0", "log1", "log2", "log3", "log4"][n])))
    }
    else if (k == 20 or k == 21) { // arithmetic that is checked
      pure val a = simple(g, j)
      pure val b = simple(g, j1)
      pure val panic = do2("mstore", [lit(0)], ap2("shl", [lit(224)], [node("lit", "h", 1313373041, 0, [])])).concat(do2("mstore", [lit(4)], [lit(17 + j2 % 2)])).concat(do2("revert", [lit(0)], [lit(36)]))
      pure val g1 = emitIf(g, if (j2 % 3 == 0) ap2("and", seldom(g, j2), ap2("gt", a, ap1("not", b))) else if (j2 % 3 == 1) ap2("and", ap2("lt", a, b), seldom(g, j2 / 7))
                              else ap2("and", ap1("iszero", ap2("or", ap1("iszero", a), ap2("eq", b, ap2("div", ap2("mul", a, b), a)))), seldom(g, j2 / 7)), panic)
      useVal(g1, j2 / 4, ap2(["add", "sub", "mul"][j2 % 3], a, b))
    }
    else if (k == 22) emitIf(g, seldom(g, j1),
        if (j % 2 == 0) do2("mstore", [lit(0)], ap2("shl", [lit([224, 225, 226, 229][j % 4])], [literal(j2)])).concat(do2("revert", [lit(0)], [lit(4)]))
        else do2("mstore", p, ap2("shl", [lit(229)], [lit(4594637)])).concat(do2("mstore", ap2("add", p, [lit(4)]), [lit(32)]))
               .concat(do2("mstore", ap2("add", p, [lit(36)]), [str32(j2)])).concat(do2("revert", p, [lit(100)])))
    else if (k < 25) { // a field of a storage word
      pure val n = [1, 4, 8, 16, 20][j % 5]
      pure val o = 8 * ((j / 5) % (33 - n))
      pure val m = 2^(8 * n) - 1
      pure val at = [lit(j1 % 6)]
      if (k == 23) useVal(g, j2, ap2("and", if (j1 % 2 == 0) ap2("shr", [lit(o)], ap1("sload", at)) else ap2("div", ap1("sload", at), [node("lit", "h", 2^o, 0, [])]), [node("lit", "h", m, 0, [])]))
      else emit(g, do2("sstore", at, ap2("or", ap2("and", ap1("sload", at), ap1("not", [node("lit", "h", m * 2^o, 0, [])])),
                                          if (j1 % 2 == 0) ap2("and", ap2("shl", [lit(o)], simple(g, j2)), [node("lit", "h", m * 2^o, 0, [])])
                                          else ap2("mul", ap2("and", simple(g, j2), [node("lit", "h", m, 0, [])]), [node("lit", "h", 2^o, 0, [])]))))
    }
    else if (k == 25) copyLoop(g, [lit([0, 32, 33, 64, 96][j % 5])], if (j % 2 == 0) [lit(4)] else [lit(128)], p, j % 2 == 0)
    else if (k == 26) {
      pure val kind = ["staticcall", "call", "delegatecall"][j % 3]
      pure val c = [lit([32, 0, 64][j1 % 3])].concat(p).concat([lit([36, 4, 68, 0][(j1 / 3) % 4])]).concat(p).concat(if (kind == "call") [if (j1 % 2 == 0) lit(0) else op("callvalue")] else [])
                     .concat(address(g, j2)).append(op("gas")).append(op(kind))
      pure val fr = freshNames(g)
      if (length(fr) == 0) emit(g, c.append(op("pop"))) else {
        pure val g1 = declare(g, j, c)
        emitIf(g1, ap1("iszero", [vref(g1.names[length(g1.names) - 1])]), do3("returndatacopy", p, [lit(0)], [op("returndatasize")]).concat(do2("revert", p, [op("returndatasize")])))
      }
    }
    else if (k < 30) solCall(g, j)
    else if (k == 30) { pure val c = [op("callvalue")] if (deep) useVal(g, j, c) else push(emit(g, c.append(kw("if", 0))), opened(g, "if", here(g) + 1)) }
    else if (k == 31) { pure val c = ap1("iszero", ap2("eq", simple(g, j), if (j1 % 2 == 0) ap1("iszero", ap1("iszero", simple(g, j))) else ap2("and", simple(g, j), maskE(if (g.wide) 160 else 96))))
                        if (deep) useVal(g, j1, c) else push(emit(g, c.append(kw("if", 0))), opened(g, "if", here(g) + length(c))) }
    else if (k < 34) useVal(g, j1, if (k == 32) ap2("signextend", [lit([0, 3, 15, 19, 30, 31, 32][j % 7])], simple(g, j2)) else ap2("byte", [lit([0, 31, 30, 11, 32][j % 5])], simple(g, j2)))
    else if (k == 34) useVal(g, j1, ap2("keccak256", p, [lit([0, 32, 64, 33][j % 4])]))
    else if (k < 37) useVal(g, j1, val1(g, j))
    else if (k < 39) (if (length(g.open) > 0) close(g, j) else g)
    else if (g.fn >= 0 and length(g.open) > 0 and j % 3 > 0) emit(g, [kw("leave", g.fn)])
    else if (length(g.open) > 1) emit(g, if (j % 2 == 0) [op("stop")] else do2(if (j % 4 == 1) "revert" else "return", p, [lit(32)]))
    else g
  }
  pure def growSol(g: Gen, r: int): Gen =
    if (g.done) g
    else if (g.left <= 0) close(g, r)
    else if (g.fn >= 0 and here(g) == g.p.fpos.get(g.fn) + 1 and r % 8 == 0)
      endUnit(emit(g, [lit(if (r % 32 == 8) 4 else 0), lit(if (r % 64 == 16) 32 else 0), op("revert")]))
    else solStmt(g, r / 8)
  pure val FNAMES: List[str] = ["abi_encode_uint256", "cleanup_t_uint160", "revert_error_42b3090547df1d2001c96683413b8cf91c1b902ef5e3cb8d9f6f304cf7432f74", "fun_foo_12",
    "checked_add_t_uint256", "panic_error_0x11", "usr$add", "x.y", "allocate_memory", "abi_decode_uint", "zero_value_for_split_t_bool", "_fun", "fun_transferOwnership_7",
    "fun_transferFrom", "deploy", "call_", "main", "memory_array_index_access", "f", "wrapper", "update_byte_slice_dynamic32", "fun__transfer_x", "memcpy_", "keccak", "init"]

  // --- a token: the transfer function that an option set replaces by a built-in one
  pure def letS(x: str, e: List[Node]): List[Node] = e.append(node("let", "", 0, 0, [x]))
  pure def slotOf(a: List[Node]): List[Node] = do2("mstore", [lit(0)], a).concat(do2("mstore", [node("lit", "h", 32, 0, [])], [lit(0)]))
  pure val HASH64: List[Node] = ap2("keccak256", [lit(0)], [node("lit", "h", 64, 0, [])])
  pure def tokenProg(g: Gen): Gen = {
    pure def panic(sh, sel, ws) = do2("mstore", [lit(0)], ap2("shl", [lit(sh)], [node("lit", "h", sel, 0, [])]))
      .concat(ws.indices().fold([], (l, i) => l.concat(do2("mstore", [lit(4 + 32 * i)], ws[i])))).concat(do2("revert", [lit(0)], [lit(4 + 32 * length(ws))]))
    pure val g1 = emit(g, letS("_1", ap2("sub", ap2("shl", [lit(160)], [lit(1)]), [lit(1)])).concat(letS("_2", ap2("and", [vref("p0")], [vref("_1")]))))
    pure val g2 = emitIf(g1, ap1("iszero", [vref("_2")]), panic(225, 0x4b637e8f, [[lit(0)]]))
    pure val g3 = emit(g2, letS("_4", ap2("and", [vref("p1")], [vref("_1")])))
    pure val g4 = emitIf(g3, ap1("iszero", [vref("_4")]), panic(224, 0xec442f05, [[lit(0)]]))
    pure val g5 = emit(g4, slotOf([vref("_2")]).concat(letS("_6", ap1("sload", HASH64))))
    pure val g6 = emitIf(g5, ap2("lt", [vref("_6")], [vref("p2")]), panic(226, 0x391434e3, [[vref("_2")], [vref("_6")], [vref("p2")]]))
    pure val g7 = emit(g6, slotOf([vref("_2")]).concat(do2("sstore", HASH64, ap2("sub", [vref("_6")], [vref("p2")])))
      .concat(do2("mstore", [lit(0)], [vref("_4")])).concat(letS("dataSlot", HASH64)).concat(do2("sstore", [vref("dataSlot")], ap2("add", ap1("sload", [vref("dataSlot")]), [vref("p2")])))
      .concat(letS("_8", ap1("mload", [lit(64)]))).concat(do2("mstore", [vref("_8")], [vref("p2")]))
      .concat([vref("_4"), vref("_2"), node("lit", "h", 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, 0, []), lit(32), vref("_8"), op("log3")]))
    pure val m = emit(endUnit(g7), ap2("shr", [lit(224)], ap1("calldataload", [lit(0)])).append(kw("switch", 0)))
    pure val at = here(m) - 1
    pure val c0 = push(m, { ...opened(m, "case", at), vis2: 0 })
    pure def arm(h, sel) = caseOf(h, node("case", "h", sel, at, []))
    pure def give(e) = letS("_m", ap1("mload", [lit(64)])).concat(do2("mstore", [vref("_m")], e)).concat(do2("return", [vref("_m")], [lit(32)]))
    pure def arg(i) = ap1("calldataload", [lit(4 + 32 * i)])
    pure val c1 = emit(arm(c0, 2835717307), arg(1).concat(arg(0)).concat([op("caller"), kw("call", 0)]).concat(give([lit(1)])))
    pure val c2 = emit(arm(c1, 599290589), arg(2).concat(arg(1)).concat(arg(0)).append(kw("call", 0)).concat(give([node("lit", "t", 1, 0, [])])))
    pure val c3 = emit(arm(c2, 1889567281), slotOf(arg(0)).concat(letS("_b", ap1("sload", HASH64))).concat(give([vref("_b")])))
    pure val c4 = emit(arm(c3, 1086394137), slotOf(arg(0)).concat(letS("s", HASH64)).concat(do2("sstore", [vref("s")], ap2("add", ap1("sload", [vref("s")]), arg(1)))).concat(give([vref("s")])))
    pure val c5 = close(c4, 4)
    { ...emit(c5, do2("revert", [lit(0)], [lit(0)])), done: true }
  }

  /// several growth steps from one large random number
  pure def growMany(g: Gen, r: int, k: int, flow: int): Gen =
    range(0, k).foldl({ g: g, r: r }, (a, i) => { g: grow(a.g, a.r % 2^32, flow), r: a.r / 2^32 }).g

  pure def start(sigs: List[int], fb: int, mb: int): Gen = {
    pure val p: Prog = { code: [], links: Map(), posts: Map(), bodies: Map(), cases: [], dflt: Map(), fpos: Map(), sigs: sigs, fnames: [], imms: [] }
    startFun({ p: p, d: 0, open: [], names: [], fn: 0, left: 0, main: mb, done: false, tmp: fb, sol: false, wide: false }, 0)
  }
}

/// the system: grow a program, then call it
module yul {
  import evm.* from "./evm"
  import yulsem.*
  import yulgen.*

  var g: Gen
  var sto: int -> int
  var env: Env
  type Result = { st: str, out: List[int], writes: List[Bind], logs: List[Log], n: int, calls: List[Call], created: List[Created] }
  var res: Result

  pure val none: Result = { st: "none", out: [], writes: [], logs: [], n: 0, calls: [], created: [] }
  pure def resultOf(m: M): Result = { st: m.st, out: m.out, writes: m.writes, logs: m.logs, n: m.n, calls: m.calls, created: m.created }
  pure def mkEnv(r: int, k: int): Env = {
    pure def a20(i) = noise(r, i) % 2^160
    { address: a20(1), caller: a20(2), origin: a20(3), coinbase: a20(4),
      callvalue: if (k % 3 == 0) 0 else noise(r, 5), gasprice: noise(r, 6) / 2^(k % 256), basefee: noise(r, 7) / 2^192, blobbasefee: noise(r, 8),
      chainid: 1 + k, timestamp: 1700000000 + k * 2^25, number: k * 2^28, gaslimit: 30000000 + k * 2^26, selfbalance: noise(r, 9),
      gas: noise(r, 11) % 2^63, code: noiseBytes(r, 12, (r / 2^20) % 90),
      data: range(0, 72 - k % 40).foldl([], (l, i) => l.append(if (k % 4 == 0 and i % 32 != 3) 0 else (noise(r, 10) / 2^(3 * i)) % 256)) }
  }

  action init = {
    nondet s = 0.to(2^40 - 1).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    val sigs = range(0, 3).foldl([], (l, i) => l.append((s / 8^i) % 8))
    all { g' = start(sigs, 12 + (s / 2^12) % 16, 40 + (s / 2^18) % 60), sto' = Map(), env' = mkEnv(r, 0), res' = none }
  }
  action growing(flow: int): bool = {
    nondet r = 0.to(2^512 - 1).oneOf()
    all { not(g.done), g' = growMany(g, r, 16, flow), sto' = sto, env' = env, res' = none }
  }
  /// boundary words in storage, call data and memory
  pure def opsEnv(r: int, k: int): Env =
    { ...mkEnv(r, k), data: range(0, 3).foldl([1, 2, 3, 4], (l, i) => l.concat(toBytes(if ((r / 2^(30 + 2 * i)) % 4 == 3) noise(r, 20 + i) else edge(r / 2^(40 + 8 * i)), 32))) }
  action initOps = {
    nondet r = 0.to(2^64 - 1).oneOf()
    all { g' = start([], 0, 250 + r % 150), sto' = range(0, 4).foldl(Map(), (m, i) => m.put(i, edge(r / 2^(6 * i)))), env' = mkEnv(r, 0), res' = none }
  }
  action growingOps: bool = {
    nondet r = 0.to(2^512 - 1).oneOf()
    nondet q = 0.to(2^512 - 1).oneOf()
    nondet t = 0.to(2^512 - 1).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    all { not(g.done), g' = growOp(growOp(growOp(growOp(g, r), q), t), u), sto' = sto, env' = env, res' = none }
  }
  action callingOps: bool = {
    nondet r = 0.to(2^96 - 1).oneOf()
    val e = opsEnv(r, r % 32)
    val m = exec(g.p, e, sto)
    all { g.done, g' = g, env' = e, sto' = if (m.st == "finish" or m.st == "selfdestruct") m.sto else sto,
          res' = resultOf(m) }
  }
  action stepOps = any { growingOps, callingOps }

  action initSys = {
    nondet r = 0.to(2^64 - 1).oneOf()
    all { g' = withImms(start([], 0, 200 + r % 150), r / 256), sto' = range(0, 4).foldl(Map(), (m, i) => m.put(i, edge(r / 2^(6 * i)))), env' = mkEnv(r, 0), res' = none }
  }
  action growingSys: bool = {
    nondet r = 0.to(2^512 - 1).oneOf()
    nondet q = 0.to(2^512 - 1).oneOf()
    all { not(g.done), g' = growSys(growSys(g, r), q), sto' = sto, env' = env, res' = none }
  }
  action stepSys = any { growingSys, callingOps }
  /// the same within functions, loops and cases
  action initMixed = {
    nondet s = 0.to(2^40 - 1).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    val sigs = range(0, 3).foldl([], (l, i) => l.append((s / 8^i) % 8))
    all { g' = withImms(start(sigs, 25 + (s / 2^12) % 32, 120 + (s / 2^18) % 120), r / 256), sto' = Map(), env' = mkEnv(r, 0), res' = none }
  }
  action growingMixed: bool = {
    nondet r = 0.to(2^512 - 1).oneOf()
    all { not(g.done), g' = range(0, 12).foldl({ g: g, r: r }, (a, i) => { g: growMixed(a.g, a.r % 2^36, 30), r: a.r / 2^36 }).g, sto' = sto, env' = env, res' = none }
  }
  action stepMixed = any { growingMixed, calling }
  /// the shapes of compiled Solidity
  action initSol = {
    nondet s = 0.to(2^40 - 1).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    val sigs = range(0, 4).foldl([], (l, i) => l.append((s / 8^i) % 8))
    val names = range(0, 4).foldl([], (l, i) => l.append(FNAMES[(r / 2^8 + i * (1 + 2 * (r % 8))) % length(FNAMES)]))
    val g0 = start([], 30 + (s / 2^12) % 40, 200 + (s / 2^18) % 160)
    val g1 = { ...g0, sol: true, wide: (r / 2^40) % 3 == 0, p: { ...g0.p, sigs: sigs, fnames: if (distinctNames(names)) names else [] } }
    all { g' = startFun(g1, 0), sto' = range(0, 4).foldl(Map(), (m, i) => m.put(i, edge(r / 2^(6 * i)))), env' = mkEnv(r, 0), res' = none }
  }
  pure def distinctNames(l: List[str]): bool = l.foldl(Set(), (a, x) => a.union(Set(x))).size() == length(l)
  action growingSol: bool = {
    nondet r = 0.to(2^512 - 1).oneOf()
    nondet q = 0.to(2^512 - 1).oneOf()
    nondet t = 0.to(2^512 - 1).oneOf()
    all { not(g.done), g' = growSol(growSol(growSol(g, r), q), t), sto' = sto, env' = env, res' = none }
  }
  pure def solEnv(r: int, k: int): Env = {
    pure val e = opsEnv(r, k)
    pure val d = toBytes(SELS[(r / 2^20) % length(SELS)], 4).concat(e.data.slice(4, length(e.data)))
    { ...e, data: if (k % 8 == 7) d.slice(0, (r / 2^24) % (length(d) + 1)) else d }
  }
  /// few accounts and small amounts, so that transfers meet balances
  pure val SMALLACC: List[int] = [0, 1, 2, 256, 2^159 + 5, 2^160 - 1]
  pure def tokenEnv(r: int, k: int): Env = {
    pure def acc(i) = SMALLACC[(r / 2^(3 * i)) % 6] + (if ((r / 2^(40 + i)) % 4 == 0) 2^160 * (noise(r, i) % 2^96) else 0)
    pure val sel = [2835717307, 599290589, 1889567281, 1086394137, 1086394137, 2835717307, 599290589, 5][k % 8]
    pure val clean = SMALLACC[(r / 2^20) % 6]
    pure val am = if ((r / 2^30) % 8 == 0) edge(r / 2^33) else (r / 2^33) % 100
    pure val ws = if (sel == 599290589) [acc(0), acc(1), am] else if (sel == 2835717307) [acc(0), am, 0] else [clean, am, 0]
    { ...mkEnv(r, k), caller: SMALLACC[(r / 2^10) % 6], data: ws.foldl(toBytes(sel, 4), (l, w) => l.concat(toBytes(w, 32))) }
  }
  action initToken = {
    val g0 = { ...start([], 0, 0), sol: true }
    all { g' = tokenProg(startFun({ ...g0, p: { ...g0.p, sigs: [8], fnames: ["fun_transfer"] } }, 0)), sto' = Map(), env' = mkEnv(0, 0), res' = none }
  }
  action stepToken = {
    nondet r = 0.to(2^96 - 1).oneOf()
    val e = tokenEnv(r, r / 2^90)
    val m = exec(g.p, e, sto)
    all { g' = g, env' = e, sto' = if (m.st == "finish") m.sto else sto, res' = resultOf(m) }
  }
  action callingSol: bool = {
    nondet r = 0.to(2^96 - 1).oneOf()
    val e = solEnv(r, r % 32)
    val m = exec(g.p, e, sto)
    all { g.done, g' = g, env' = e, sto' = if (m.st == "finish" or m.st == "selfdestruct") m.sto else sto, res' = resultOf(m) }
  }
  action stepSol = any { growingSol, callingSol }

  action calling: bool = {
    nondet r = 0.to(2^64 - 1).oneOf()
    val e = mkEnv(r, r % 32)
    val m = exec(g.p, e, sto)
    all { g.done, g' = g, env' = e,
          sto' = if (m.st == "finish" or m.st == "selfdestruct") m.sto else sto,
          res' = resultOf(m) }
  }
  action step = any { growing(30), calling }
  action stepExpr = any { growing(6), calling }

  // ------------------------------------------------- properties of the model
  /// every opened construct of a finished program is closed, and jumps stay inside
  val wellFormed = g.done implies and {
    length(g.open) == 0, g.d == 0,
    g.p.links.keys().forall(k => k < g.p.links.get(k) and g.p.links.get(k) < length(g.p.code)),
    g.p.code.indices().forall(i => Set("if", "block", "for", "switch", "fun").contains(g.p.code[i].k) implies g.p.links.keys().contains(i)) }
  val wordsOk = sto.keys().forall(k => 0 <= sto.get(k) and sto.get(k) < W)
}
