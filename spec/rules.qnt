// -*- mode: Bluespec; -*-
/// C20: the static rules of Yul.
///
/// `rulesem` decides whether a program keeps the rules, by walking its tokens with
/// a stack of scopes, and names the offenders.  `rules` grows a program that keeps
/// them and, in most behaviours, plants a single violation at some point of it.
module rulesem {
  /// a program is a list of tokens, expressions in reverse Polish order with explicit
  /// argument counts.  `x` name, `n` number, `v` and `w` names
  type Tok = { k: str, x: str, n: int, v: List[str], w: List[str] }
  pure def tok(k: str, x: str, n: int): Tok = { k: k, x: x, n: n, v: [], w: [] }
  type Sig = { p: int, r: int }
  type Fn = { at: int, x: str, p: int, r: int }
  type Val = { c: int, x: str, quoted: bool }
  type Scope = { k: str, at: int, vars: Set[str] }
  type St = { i: int, scopes: List[Scope], vals: List[Val], errs: List[Set[str]] }

  pure val WORD: int = 2^256
  /// built-in functions: arguments and values
  pure def builtin(x: str): Sig =
    if (Set("stop", "invalid").contains(x)) { p: 0, r: 0 }
    else if (Set("pop", "selfdestruct").contains(x)) { p: 1, r: 0 }
    else if (Set("mstore", "mstore8", "sstore", "tstore", "return", "revert", "log0").contains(x)) { p: 2, r: 0 }
    else if (Set("mcopy", "calldatacopy", "codecopy", "datacopy", "returndatacopy", "setimmutable", "log1").contains(x)) { p: 3, r: 0 }
    else if (Set("extcodecopy", "log2").contains(x)) { p: 4, r: 0 }
    else if (x == "log3") { p: 5, r: 0 } else if (x == "log4") { p: 6, r: 0 }
    else if (Set("not", "iszero", "mload", "sload", "tload", "loadimmutable", "balance", "calldataload", "extcodesize", "extcodehash",
                 "dataoffset", "datasize", "blockhash", "linkersymbol").contains(x)) { p: 1, r: 1 }
    else if (Set("add", "sub", "mul", "div", "sdiv", "mod", "smod", "exp", "lt", "gt", "slt", "sgt", "eq", "and", "or", "xor", "byte",
                 "shl", "shr", "sar", "signextend", "keccak256").contains(x)) { p: 2, r: 1 }
    else if (Set("addmod", "mulmod", "create").contains(x)) { p: 3, r: 1 }
    else if (x == "create2") { p: 4, r: 1 } else if (Set("delegatecall", "staticcall").contains(x)) { p: 6, r: 1 }
    else if (x == "call") { p: 7, r: 1 }
    else if (Set("gas", "address", "selfbalance", "caller", "callvalue", "calldatasize", "codesize", "returndatasize", "chainid", "basefee",
                 "origin", "gasprice", "coinbase", "timestamp", "number", "gaslimit").contains(x)) { p: 0, r: 1 }
    else { p: -1, r: -1 }
  pure def isBuiltin(x: str): bool = builtin(x).p >= 0
  /// the argument that is a name in quotes
  pure def nameArg(x: str): int =
    if (Set("datasize", "dataoffset", "loadimmutable", "linkersymbol").contains(x)) 0 else if (x == "setimmutable") 1 else -1

  pure val OPENS: Set[str] = Set("block", "if", "for", "post", "body", "case", "default", "fun")
  /// how many scopes a token closes before anything else
  pure def closes(k: str): int =
    if (k == "end" or k == "endcase" or k == "body" or k == "endfun") 1 else if (k == "endfor") 2 else 0

  /// the functions each scope defines, known in all of it
  pure def functionsOf(ts: List[Tok]): List[Fn] =
    range(0, length(ts)).foldl({ open: [-1], fs: [] }, (a, i) => {
      pure val t = ts[i]
      pure val o = a.open.slice(0, length(a.open) - closes(t.k))
      { fs: if (t.k == "fun") a.fs.append({ at: o[length(o) - 1], x: t.x, p: length(t.v), r: length(t.w) }) else a.fs,
        open: if (OPENS.contains(t.k)) o.append(i) else o }
    }).fs

  pure def lastN(l: List[a], n: int): List[a] = l.slice(length(l) - n, length(l))
  pure def cutN(l: List[a], n: int): List[a] = l.slice(0, length(l) - n)
  pure def setOf(l: List[str]): Set[str] = l.foldl(Set(), (s, x) => s.union(Set(x)))
  pure def twice(l: List[str]): Set[str] =
    l.foldl({ seen: Set(), dup: Set() }, (a, x) => if (a.seen.contains(x)) { ...a, dup: a.dup.union(Set(x)) } else { ...a, seen: a.seen.union(Set(x)) }).dup

  /// variables are visible up to the function they are in
  pure def visible(s: St): Set[str] =
    s.scopes.foldl(Set(), (acc, c) => if (c.k == "fun") c.vars else acc.union(c.vars))
  pure def fnsNamed(s: St, fs: List[Fn], x: str): List[Fn] =
    fs.foldl([], (l, f) => if (f.x == x and s.scopes.foldl(false, (b, c) => b or c.at == f.at)) l.append(f) else l)
  pure def err(s: St, names: Set[str]): St = { ...s, errs: s.errs.append(names) }
  pure def errIf(s: St, c: bool, names: Set[str]): St = if (c) err(s, names) else s
  pure def inLoop(s: St): bool =
    s.scopes.foldl(false, (b, c) => if (c.k == "body") true else if (Set("for", "post", "fun").contains(c.k)) false else b)
  pure def inFunction(s: St): bool = s.scopes.foldl(false, (b, c) => b or c.k == "fun")
  pure def declare(s: St, fs: List[Fn], xs: List[str]): St = {
    pure val d = cutN(s.scopes, 1)
    pure val c = s.scopes[length(s.scopes) - 1]
    pure val s1 = xs.foldl(s, (a, x) => errIf(errIf(errIf(a, c.vars.contains(x), Set(x)), isBuiltin(x), Set(x)), length(fnsNamed(a, fs, x)) > 0, Set(x)))
    { ...errIf(s1, twice(xs) != Set(), twice(xs)), scopes: d.append({ ...c, vars: c.vars.union(setOf(xs)) }) }
  }
  pure def openScope(s: St, k: str): St = { ...s, scopes: s.scopes.append({ k: k, at: s.i, vars: Set() }) }
  /// the pending values must be as many as needed: a single expression gives all
  pure def takeValues(s: St, n: int, extra: Set[str]): St = {
    pure val v = s.vals[length(s.vals) - 1]
    { ...errIf(s, v.c != n, if (v.x == "") Set() else Set(v.x).union(extra)), vals: cutN(s.vals, 1) }
  }

  pure def walk(fs: List[Fn], data: Set[str], s0: St, t: Tok): St = {
    pure val s = { ...s0, scopes: cutN(s0.scopes, closes(t.k)) }
    pure val r =
      if (t.k == "lit") { ...errIf(s, t.n >= WORD, Set()), vals: s.vals.append({ c: 1, x: "", quoted: false }) }
      else if (t.k == "str") { ...errIf(s, t.n > 32, Set()), vals: s.vals.append({ c: 1, x: t.x, quoted: true }) }
      else if (t.k == "var") { ...errIf(s, not(visible(s).contains(t.x)), Set(t.x)), vals: s.vals.append({ c: 1, x: t.x, quoted: false }) }
      else if (t.k == "call") {
        pure val sigs = fnsNamed(s, fs, t.x)
        pure val sg = if (isBuiltin(t.x)) builtin(t.x) else if (length(sigs) > 0) { p: sigs[0].p, r: sigs[0].r } else { p: -1, r: 1 }
        // the first argument was pushed last
        pure val args = lastN(s.vals, t.n)
        pure val s1 = errIf(s, sg.p != t.n, Set(t.x))
        pure val s2 = args.foldl(s1, (a, v) => errIf(a, v.c != 1, Set(v.x, t.x)))
        pure val q = nameArg(t.x)
        pure val s3 = if (q < 0 or q >= t.n) s2 else {
          pure val v = args[t.n - 1 - q]
          // no library is given to the compiler
          errIf(errIf(s2, not(v.quoted) or t.x == "linkersymbol", Set(t.x, v.x)), v.quoted and Set("datasize", "dataoffset").contains(t.x) and not(data.contains(v.x)), Set(v.x))
        }
        { ...s3, vals: cutN(s.vals, t.n).append({ c: sg.r, x: t.x, quoted: false }) }
      }
      else if (t.k == "expr") takeValues(s, 0, Set())
      else if (t.k == "let") declare(takeValues(s, length(t.v), Set()), fs, t.v)
      else if (t.k == "letz") declare(s, fs, t.v)
      else if (t.k == "set") {
        pure val s1 = takeValues(s, length(t.v), Set())
        pure val s2 = t.v.foldl(s1, (a, x) => errIf(a, not(visible(s).contains(x)), Set(x)))
        errIf(s2, twice(t.v) != Set(), twice(t.v))
      }
      else if (t.k == "if") openScope(takeValues(s, 1, Set()), "if")
      else if (t.k == "switch") takeValues(s, 1, Set())
      else if (t.k == "case") openScope(s, "case")
      else if (t.k == "default") openScope(s, "default")
      else if (t.k == "block") openScope(s, "block")
      else if (t.k == "for") openScope(s, "for")
      else if (t.k == "post") openScope(takeValues(s, 1, Set()), "post")
      else if (t.k == "body") openScope(s, "body")
      else if (t.k == "fun") {
        pure val s1 = errIf(errIf(s, isBuiltin(t.x), Set(t.x)), length(fnsNamed(s, fs, t.x)) > 1, Set(t.x))
        declare(openScope(s1, "fun"), fs, t.v.concat(t.w))
      }
      else if (t.k == "break" or t.k == "continue") errIf(s, not(inLoop(s)), Set(t.k))
      else if (t.k == "leave") errIf(s, not(inFunction(s)), Set("leave"))
      else s
    { ...r, i: s0.i + 1 }
  }
  /// cases with the same value, per switch
  pure def dupCases(ts: List[Tok]): int =
    ts.foldl({ open: [], n: 0 }, (a, t) =>
      if (t.k == "switch") { ...a, open: a.open.append(Set()) }
      else if (t.k == "endswitch") { ...a, open: cutN(a.open, 1) }
      else if (t.k == "case") {
        pure val seen = a.open[length(a.open) - 1]
        { open: cutN(a.open, 1).append(seen.union(Set(t.n))), n: if (seen.contains(t.n)) a.n + 1 else a.n }
      }
      else a).n

  /// the violations of a program: for each the names that may be called the offender
  pure def violations(ts: List[Tok], data: Set[str]): List[Set[str]] = {
    pure val fs = functionsOf(ts)
    pure val z = ts.foldl({ i: 0, scopes: [{ k: "top", at: -1, vars: Set() }], vals: [], errs: [] }, (s, t) => walk(fs, data, s, t))
    if (dupCases(ts) > 0) z.errs.append(Set()) else z.errs
  }
}

/// growing programs, with one violation at most
module rulegen {
  import rulesem.*

  type Open = { k: str, vars: List[str], used: Set[int], dfl: bool }
  /// `unit` -1 main, otherwise the function under growth; `plant` statements until the violation
  type Gen = { ts: List[Tok], open: List[Open], ever: List[str], sigs: List[Sig], order: List[int], unit: int, left: int,
               plant: int, kind: str, done: bool, data: List[str] }

  pure val POOL: List[str] = ["vq1", "vq2", "$vq3", "vq_4", "vq.5", "vq6", "vq7", "vq8", "vq9", "vq0"]
  pure val FNAMES: List[str] = ["fnz0", "fnz1", "fnz2"]
  pure val SIGL: List[Sig] = [ { p: 1, r: 1 }, { p: 2, r: 1 }, { p: 1, r: 2 }, { p: 0, r: 0 }, { p: 2, r: 0 }, { p: 0, r: 1 }, { p: 3, r: 3 }, { p: 0, r: 2 } ]
  pure val PURE: List[str] = ["add", "sub", "lt", "eq", "and", "shl", "byte", "iszero", "not", "addmod", "mload", "sload", "calldataload", "caller",
                              "callvalue", "timestamp", "keccak256", "mulmod", "signextend", "gas", "chainid", "number", "selfbalance", "balance"]
  pure val STMTS: List[str] = ["sstore", "mstore", "mstore8", "pop", "log0", "log1", "log2", "log4", "tstore", "mcopy", "calldatacopy", "codecopy", "returndatacopy", "extcodecopy"]
  pure val KINDS: List[str] = ["undef", "gone", "self", "assign", "nofun", "argsB", "argsU", "argsS", "count", "countB", "void", "voidU", "multi", "break", "continue",
    "leave", "dup", "dup2", "twice", "builtinV", "funV", "data", "big", "long", "nameArg", "callVar", "varFun", "cond", "switchC", "case", "value", "other",
    "params", "dupFun", "builtinF", "builtinP", "unsup"]
  pure def pickS(l: List[str], r: int): str = l[r % length(l)]
  pure def flat(g: Gen): List[str] = g.open.foldl([], (l, o) => l.concat(o.vars))
  pure def top(g: Gen): Open = g.open[length(g.open) - 1]
  pure def emit(g: Gen, l: List[Tok]): Gen = { ...g, ts: g.ts.concat(l), left: g.left - 1 }
  pure def call(x: str, n: int): Tok = tok("call", x, n)
  pure def lit(n: int): Tok = tok("lit", "", n)
  pure def vs(k: str, l: List[str]): Tok = { ...tok(k, "", 0), v: l }
  pure def fresh(g: Gen): List[str] = {
    pure val seen = setOf(flat(g))
    // no name of main in a function: that would be shadowing, which is not judged
    (if (g.unit < 0) POOL.slice(0, 6) else POOL.slice(6, 10)).foldl([], (l, x) => if (seen.contains(x)) l else l.append(x))
  }
  pure def goneOf(g: Gen): List[str] = {
    pure val seen = setOf(flat(g))
    g.ever.foldl([], (l, x) => if (seen.contains(x)) l else l.append(x))
  }
  pure def atomT(g: Gen, r: int): List[Tok] = {
    pure val f = flat(g)
    if (r % 3 < 2 and length(f) > 0) [tok("var", pickS(f, r / 3), 0)]
    else if (r % 13 == 0) [tok("str", pickS(["ab", "hello world", "x"], r / 13), 2)]
    else [lit([0, 1, 2, 255, 2^64, 2^255, WORD - 1][(r / 3) % 7])]
  }
  pure def atoms(g: Gen, r: int, n: int): List[Tok] = range(0, n).foldl([], (l, i) => l.concat(atomT(g, r / (5 + 7 * i))))
  pure def withSig(g: Gen, rets: int): List[int] = range(0, length(g.sigs)).foldl([], (l, i) => if (g.sigs[i].r == rets) l.append(i) else l)
  pure def userCall(g: Gen, i: int, r: int): List[Tok] = atoms(g, r, g.sigs[i].p).append(call(FNAMES[i], g.sigs[i].p))
  /// an expression that gives one value
  pure def exprT(g: Gen, r: int): List[Tok] = {
    pure val us = withSig(g, 1)
    pure val b = pickS(PURE, r / 8)
    if (r % 8 < 2) atomT(g, r / 8)
    else if (r % 8 < 5) atoms(g, r / 64, builtin(b).p).append(call(b, builtin(b).p))
    else if (r % 8 == 5 and length(us) > 0) userCall(g, us[(r / 8) % length(us)], r / 64)
    else if (r % 8 == 6) [tok("str", pickS(g.data, r / 8), 0), call(["datasize", "dataoffset"][(r / 64) % 2], 1)]
    else {
      pure val c = pickS(PURE, r / 1024)
      // an argument that is a call itself
      atoms(g, r / 64, builtin(b).p).concat(if (builtin(b).p == 0) [] else []).append(call(b, builtin(b).p))
        .concat(if (builtin(c).p == 2) atomT(g, r / 16).append(call(c, 2)) else [call("iszero", 1)])
    }
  }
  pure def letT(g: Gen, names: List[str], e: List[Tok]): Gen = {
    pure val g1 = emit(g, e.append(vs("let", names)))
    addVars(g1, names)
  }
  pure def addVars(g: Gen, names: List[str]): Gen =
    { ...g, ever: g.ever.concat(names), open: g.open.slice(0, length(g.open) - 1).append({ ...top(g), vars: top(g).vars.concat(names) }) }
  pure def openT(g: Gen, k: str, l: List[Tok]): Gen = { ...emit(g, l), open: g.open.append({ k: k, vars: [], used: Set(), dfl: false }) }
  pure def body(g: Gen): bool = g.open.foldl(false, (b, o) => if (o.k == "body") true else if (Set("for", "post", "fun").contains(o.k)) false else b)

  /// close the innermost construct, or go on to its next part
  pure def close(g: Gen, r: int): Gen = {
    pure val k = top(g).k
    pure val o = g.open.slice(0, length(g.open) - 1)
    if (k == "block" or k == "if") { ...emit(g, [tok("end", "", 0)]), open: o }
    else if (k == "for") { ...emit(g, exprT(g, r).append(tok("post", "", 0))), open: g.open.append({ k: "post", vars: [], used: Set(), dfl: false }) }
    else if (k == "post") { ...emit(g, [tok("body", "", 0)]), open: o.append({ ...top(g), k: "body", vars: [] }) }
    else if (k == "body") { ...emit(g, [tok("endfor", "", 0)]), open: o.slice(0, length(o) - 1) }
    else if (k == "case" or k == "default") {
      pure val c = [0, 1, 2, 7, 2^32, 2^64 + 1, 2^255, WORD - 1][r % 8]
      if (k == "case" and r % 3 == 0 and not(top(g).used.contains(c)))
        { ...emit(g, [tok("endcase", "", 0), tok("case", "", c)]), open: o.append({ ...top(g), vars: [], used: top(g).used.union(Set(c)) }) }
      else if (k == "case" and r % 3 == 1)
        { ...emit(g, [tok("endcase", "", 0), tok("default", "", 0)]), open: o.append({ ...top(g), k: "default", vars: [] }) }
      else { ...emit(g, [tok("endcase", "", 0), tok("endswitch", "", 0)]), open: o }
    }
    else nextUnit(g)
  }
  pure def nextUnit(g: Gen): Gen = {
    pure val o1 = g.order.slice(1, length(g.order))
    pure val g1 = if (g.unit >= 0) { ...emit(g, [tok("endfun", "", 0)]), open: g.open.slice(0, 1) } else g
    if (length(o1) == 0) { ...g1, done: true, order: [] } else startUnit({ ...g1, order: o1 })
  }
  pure def paramsOf(i: int, s: Sig): List[str] = ["pz0", "pz1", "pz2"].slice(0, s.p)
  pure def startUnit(g: Gen): Gen =
    if (g.order[0] < 0) { ...g, unit: -1, left: 8 }
    else {
      pure val i = g.order[0]
      pure val ps = paramsOf(i, g.sigs[i])
      pure val rs = ["rz0", "rz1", "rz2"].slice(0, g.sigs[i].r)
      // names of main are not visible here: its scope is put aside and comes back
      { ...g, ts: g.ts.append({ k: "fun", x: FNAMES[i], n: 0, v: ps, w: rs }), unit: i, left: 5,
              open: [top({ ...g, open: g.open.slice(0, 1) }), { k: "fun", vars: ps.concat(rs), used: Set(), dfl: false }] }
    }
  /// the names visible in the unit under growth: main's are not in a function
  pure def hidden(g: Gen): Gen = if (g.unit >= 0) { ...g, open: g.open.replaceAt(0, { ...g.open[0], vars: [] }) } else g
  pure def unhide(g: Gen, old: Gen): Gen = if (length(g.open) > 0) { ...g, open: g.open.replaceAt(0, if (g.unit >= 0 or old.unit >= 0) { ...g.open[0], vars: old.open[0].vars } else g.open[0]) } else g

  /// one statement that keeps the rules
  pure def good(g: Gen, r: int): Gen = {
    pure val a = r % 32
    pure val q = r / 32
    pure val f = flat(g)
    pure val fr = fresh(g)
    if (g.left <= 0) close(g, q)
    else if (a < 8 and length(fr) > 0) letT(g, [pickS(fr, q)], exprT(g, q / 8))
    else if (a < 12 and length(f) > 0) emit(g, exprT(g, q / 8).append(vs("set", [pickS(f, q)])))
    else if (a < 16) { pure val s = pickS(STMTS, q) emit(g, atoms(g, q / 16, builtin(s).p).append(call(s, builtin(s).p)).append(tok("expr", "", 0))) }
    else if (a == 16) { pure val us = withSig(g, 0) if (length(us) == 0) g else emit(g, userCall(g, us[q % length(us)], q / 8).append(tok("expr", "", 0))) }
    else if (a < 19) {
      pure val n = 2 + q % 2
      pure val us = withSig(g, n)
      if (length(us) == 0) g
      else if (length(fr) >= n and q % 4 < 2) letT(g, fr.slice(0, n), userCall(g, us[0], q / 8))
      else if (length(f) >= n) emit(g, userCall(g, us[0], q / 8).append(vs("set", f.slice(0, n))))
      else g
    }
    else if (a == 19 and length(fr) > 1) addVars(emit(g, [vs("letz", fr.slice(0, 1 + q % 2))]), fr.slice(0, 1 + q % 2))
    else if (a == 20) openT(g, "block", [tok("block", "", 0)])
    else if (a == 21 and length(g.open) < 6) openT(g, "if", exprT(g, q).append(tok("if", "", 0)))
    else if (a < 24 and length(g.open) < 6) openT(g, "for", [tok("for", "", 0)])
    else if (a == 24 and length(g.open) < 6) {
      pure val g1 = openT(g, "case", exprT(g, q).append(tok("switch", "", 0)).append(tok("case", "", q % 4)))
      { ...g1, open: g1.open.slice(0, length(g1.open) - 1).append({ ...top(g1), used: Set(q % 4) }) }
    }
    else if (a < 30) (if (length(g.open) > (if (g.unit >= 0) 2 else 1)) close(g, q) else g)
    else if (a == 30 and body(g)) emit(g, [tok(["break", "continue"][q % 2], "", 0)])
    else if (a == 31 and g.unit >= 0) emit(g, [tok("leave", "", 0)])
    else g
  }
  pure def stmt(g: Gen, l: List[Tok]): Gen = { ...emit(g, l), plant: -2 }
  pure def use(g: Gen, r: int, e: List[Tok]): Gen = {
    // the offending expression in different places
    pure val f = flat(g)
    pure val fr = fresh(g)
    if (r % 6 == 0) stmt(g, e.concat([lit(1), call("sstore", 2), tok("expr", "", 0)]))
    else if (r % 6 == 1) stmt(g, e.concat([call("iszero", 1), tok("if", "", 0), tok("end", "", 0)]))
    else if (r % 6 == 2 and length(fr) > 0) addVars(stmt(g, e.append(vs("let", [fr[0]]))), [fr[0]])
    else if (r % 6 == 3 and length(f) > 0) stmt(g, e.append(vs("set", [pickS(f, r / 6)])))
    else if (r % 6 == 4) stmt(g, [tok("for", "", 0)].concat(e).append(tok("post", "", 0)).append(tok("body", "", 0)).append(tok("endfor", "", 0)))
    else stmt(g, e.append(tok("switch", "", 0)).append(tok("default", "", 0)).append(tok("endcase", "", 0)).append(tok("endswitch", "", 0)))
  }
  /// the planted violation.  If the place does not allow it, it is tried again at the next statement
  pure def bad(g: Gen, r: int): Gen = {
    pure val k = g.kind
    pure val f = flat(g)
    pure val fr = fresh(g)
    pure val gn = goneOf(g)
    pure val cur = top(g).vars
    pure val b = pickS(PURE, r)
    pure val s = pickS(STMTS, r)
    pure val u1 = withSig(g, 1)
    pure val u2 = withSig(g, 2).concat(withSig(g, 3))
    pure val u0 = withSig(g, 0)
    pure def off(n: int): int = if (n == 0 or r % 2 == 0) n + 1 else n - 1
    if (k == "undef") use(g, r, if (r % 2 == 0) [tok("var", "vnone", 0)] else [lit(3), tok("var", "vnone", 0), call("add", 2)])
    else if (k == "gone" and length(gn) > 0) use(g, r, [tok("var", pickS(gn, r / 7), 0)])
    else if (k == "self" and length(fr) > 0) stmt(g, [lit(1), tok("var", fr[0], 0), call("add", 2), vs("let", [fr[0]])])
    else if (k == "assign") { pure val x = if (length(gn) > 0 and r % 2 == 0) gn[0] else "vnone" stmt(g, exprT(g, r).append(vs("set", [x]))) }
    else if (k == "nofun") { pure val x = pickS(["fnone", "pc", "fnz9", "jump"], r / 11) use(g, r, atoms(g, r / 5, r % 3).append(call(x, r % 3))) }
    else if (k == "argsB") use(g, r / 2, atoms(g, r / 5, off(builtin(b).p)).append(call(b, off(builtin(b).p))))
    else if (k == "argsU" and length(u1) > 0) use(g, r / 2, atoms(g, r / 5, off(g.sigs[u1[0]].p)).append(call(FNAMES[u1[0]], off(g.sigs[u1[0]].p))))
    else if (k == "argsS") stmt(g, atoms(g, r / 5, off(builtin(s).p)).append(call(s, off(builtin(s).p))).append(tok("expr", "", 0)))
    else if (k == "count" and length(u2) > 0 and length(fr) > 3)
      { pure val n = g.sigs[u2[0]].r stmt(g, userCall(g, u2[0], r).append(vs("let", fr.slice(0, if (r % 3 == 0) 1 else if (r % 3 == 1) n + 1 else n - 1)))) }
    else if (k == "countB" and length(fr) > 1) stmt(g, (if (r % 2 == 0) [lit(5)] else exprT(g, r)).append(vs(if (r % 3 > 0 or length(f) < 2) "let" else "set", if (r % 3 > 0 or length(f) < 2) fr.slice(0, 2) else f.slice(0, 2))))
    else if (k == "void") use(g, r, atoms(g, r / 3, builtin(s).p).append(call(s, builtin(s).p)))
    else if (k == "voidU" and length(u0) > 0) use(g, r, userCall(g, u0[0], r))
    else if (k == "multi" and length(u2) > 0) use(g, r, userCall(g, u2[0], r).append(call("not", 1)))
    else if (k == "cond" and length(u2) > 0) use(g, r, userCall(g, u2[0], r))
    else if ((k == "break" or k == "continue") and not(body(g))) stmt(g, [tok(k, "", 0)])
    else if ((k == "break" or k == "continue") and r % 3 == 0) stmt(g, [tok("for", "", 0)].concat(if (r % 2 == 0) [tok(k, "", 0)] else []).append(lit(1)).append(tok("post", "", 0))
           .concat(if (r % 2 == 1) [tok(k, "", 0)] else []).append(tok("body", "", 0)).append(tok("endfor", "", 0)))
    else if (k == "leave" and g.unit < 0) stmt(g, [tok("leave", "", 0)])
    else if (k == "dup" and length(cur) > 0 and top(g).k != "fun") stmt(g, (if (r % 2 == 0) [] else [lit(1)]).append(vs(if (r % 2 == 0) "letz" else "let", [pickS(cur, r / 2)])))
    else if (k == "dup2" and length(fr) > 0) stmt(g, [vs("letz", [fr[0], fr[0]])])
    else if (k == "twice" and length(f) > 0 and length(u2) > 0 and g.sigs[u2[0]].r == 2) stmt(g, userCall(g, u2[0], r).append(vs("set", [f[0], f[0]])))
    else if (k == "builtinV") stmt(g, [lit(1), vs("let", [pickS(PURE, r)])])
    else if (k == "funV" and length(g.sigs) > 0) stmt(g, [lit(1), vs("let", [FNAMES[r % length(g.sigs)]])])
    else if (k == "data") use(g, r, [tok("str", pickS(["nodata", "fnz0", "vq1", ""], r / 3), 6), call(["datasize", "dataoffset"][r % 2], 1)])
    else if (k == "big") use(g, r, [lit([WORD, WORD + 1, 2^260, 10^78][(r / 6) % 4])])
    else if (k == "long") use(g, r, [tok("str", "s", [33, 34, 64, 100][(r / 6) % 4])])
    else if (k == "nameArg") use(g, r, if (r % 2 == 0) [lit(1), call(pickS(["datasize", "dataoffset", "loadimmutable"], r / 2), 1)] else [tok("str", "im", 2), call("iszero", 1), call("loadimmutable", 1)])
    else if (k == "callVar" and length(f) > 0) use(g, r, atoms(g, r, r % 2).append(call(pickS(f, r), r % 2)))
    else if (k == "varFun" and length(g.sigs) > 0) use(g, r, [tok("var", FNAMES[r % length(g.sigs)], 0)])
    else if (k == "switchC") stmt(g, exprT(g, r).concat([tok("switch", "", 0), tok("case", "", 1 + r % 2), tok("endcase", "", 0), tok("case", "", 5), tok("endcase", "", 0),
           tok("case", "", 1 + r % 2), tok("endcase", "", 0)]).concat(if (r % 3 == 0) [tok("default", "", 0), tok("endcase", "", 0)] else []).append(tok("endswitch", "", 0)))
    else if (k == "case") stmt(g, [lit(1), tok("switch", "", 0), tok("case", "", WORD - 1), tok("endcase", "", 0), tok("case", "", WORD - 1), tok("endcase", "", 0), tok("endswitch", "", 0)])
    else if (k == "value" and length(f) > 0) stmt(g, atoms(g, r / 3, builtin(s).p).append(call(s, builtin(s).p)).append(vs("set", [f[0]])))
    else if (k == "unsup") use(g, r, if (r % 12 < 4) [tok("str", "libz", 0), call("linkersymbol", 1)] else if (r % 12 < 8) atoms(g, r / 3, 7).append(call("callcode", 7)) else atoms(g, r / 3, 1).append(call("blobhash", 1)))
    else if (k == "other") use(g, r, [lit(1), call("fother", 1)])
    else if (k == "params" and g.unit >= 0 and g.left == 5 and length(flat(g)) > 1 and g.ts[length(g.ts) - 1].k == "fun") {
      pure val t = g.ts[length(g.ts) - 1]
      pure val all1 = t.v.concat(t.w)
      // the last name becomes the first
      pure val t2 = if (length(t.w) > 0) { ...t, w: t.w.slice(0, length(t.w) - 1).append(all1[0]) } else { ...t, v: t.v.slice(0, length(t.v) - 1).append(all1[0]) }
      { ...g, ts: g.ts.slice(0, length(g.ts) - 1).append(t2), plant: -2 }
    }
    else if (k == "builtinP" and g.unit >= 0 and g.left == 5 and g.ts[length(g.ts) - 1].k == "fun" and length(g.ts[length(g.ts) - 1].v) > 0) {
      pure val t = g.ts[length(g.ts) - 1]
      { ...g, ts: g.ts.slice(0, length(g.ts) - 1).append({ ...t, v: t.v.replaceAt(0, pickS(PURE, r)) }), plant: -2 }
    }
    else if (k == "dupFun" and g.unit < 0 and length(g.open) == 1 and length(g.sigs) > 0)
      stmt(g, [{ k: "fun", x: FNAMES[r % length(g.sigs)], n: 0, v: ["pz0"], w: [] }, tok("endfun", "", 0)])
    else if (k == "builtinF" and g.unit < 0 and length(g.open) == 1)
      stmt(g, [{ k: "fun", x: pickS(PURE, r), n: 0, v: ["pz0"], w: ["rz0"] }, tok("endfun", "", 0)])
    else good({ ...g, left: if (g.left < 1 and length(g.order) < 2) 1 else g.left }, r)
  }
  pure def grow(g0: Gen, r: int): Gen =
    if (g0.done) g0
    else {
      pure val g = hidden(g0)
      unhide(if (g.plant == 0) bad(g, r) else good({ ...g, plant: if (g.plant > 0) g.plant - 1 else g.plant }, r), g0)
    }
  pure def start(r: int): Gen = {
    pure val n = [0, 1, 2, 3, 3, 3, 2, 3][r % 8]
    pure val q = r / 8
    pure val sigs = range(0, n).foldl([], (l, i) => l.append(SIGL[q / 2^(3 * i) % 8]))
    pure val pos = (q / 2^9) % (n + 1)
    pure val order = range(0, n + 1).foldl([], (l, i) => l.append(if (i == pos) -1 else if (i < pos) i else i - 1))
    pure val t = q / 2^12
    startUnit({ ts: [], open: [{ k: "top", vars: [], used: Set(), dfl: false }], ever: [], sigs: sigs, order: order, unit: -1, left: 8,
                plant: if (t % 8 == 0) -1 else (t / 8) % 12, kind: KINDS[(t / 128) % length(KINDS)], done: false, data: ["MAIN", "d_one", "sub.obj"] })
  }
}

module rules {
  import rulesem.*
  import rulegen.*
  var g: Gen
  var place: int
  /// the verdict on a finished program
  var res: { done: bool, errs: List[Set[str]] }

  action init = {
    nondet r = 0.to(2^40 - 1).oneOf()
    all { g' = start(r), place' = r / 2^36 % 8, res' = { done: false, errs: [] } }
  }
  action step = {
    nondet r = 0.to(2^80 - 1).oneOf()
    val n = if (g.done) g else range(0, 4).foldl(g, (a, i) => grow(a, r / 2^(11 * i)))
    all { g' = n, place' = place, res' = if (res.done) res else if (n.done) { done: true, errs: violations(n.ts, setOf(n.data)) } else res }
  }
  /// what was grown without a violation keeps the rules; a planted one breaks them
  val verdict = res.done implies ((length(res.errs) == 0) == (g.plant != -2))
  val nested = res.done implies length(g.open) == 1
}
