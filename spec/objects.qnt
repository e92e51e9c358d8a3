// -*- mode: Bluespec; -*-
/// C19: objects, data and entry points.
///
/// An object tree is built, compiled once, and then explored: an entry point of
/// the current contract runs and shows every part it can name with its size and
/// bytes; a contract found that way becomes the current one and is explored from
/// exactly the bytes the running code saw.
module objects {
  import evm.* from "./evm"

  /// kind: "obj" a contract, "dep" the run time object of its parent, "data"
  type Nd = { kind: str, name: str, parent: int, bytes: List[int] }
  /// one part as the running code sees it.  A contract is its code behind a length
  /// prefix (compared with itself and explored later); the run time object is
  /// compiled into its parent and leaves only an empty prefix
  type Obs = { node: int, size: int, bytes: List[int] }
  type Ev = { op: str, node: int, args: List[int], obs: List[Obs], back: List[int] }

  var nodes: List[Nd]
  var cur: int
  var seen: Set[int]      // contracts whose code has been seen in the current one
  var left: int
  var ev: Ev

  pure val NAMES: List[str] = ["A", "B", "C_1", "x.y", ".metadata", "data_4e0d", "lib$q", "deployed", "A_", "name with blanks"]
  /// the grammar takes fewer names for data, hexadecimal data only, and at least one byte
  pure val DATANAMES: List[str] = ["A", "B", "C_1", "x.y", ".metadata", "data_4e0d", "lib_q", "deployed", "A_", "0"]
  pure val SIZES: List[int] = [0, 1, 2, 3, 4, 5, 31, 32, 33, 40, 63, 64, 65, 127, 300]
  pure val none: Ev = { op: "none", node: 0, args: [], obs: [], back: [] }
  pure def noise(r: int, i: int): int = wrap((r + 2^200 + i) * (2 * r + 2 * i + 1))
  pure def blob(r: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(noise(r, i / 16) / 2^(8 * (i % 16) + 64) % 256))

  def children(p: int): List[int] = range(0, length(nodes)).foldl([], (l, i) => if (nodes[i].parent == p) l.append(i) else l)
  def depOf(p: int): int = children(p).foldl(-1, (a, i) => if (nodes[i].kind == "dep") i else a)
  def hasName(p: int, n: str): bool = children(p).foldl(false, (a, i) => a or (nodes[i].kind != "dep" and nodes[i].name == n))
  def depth(i: int): int = range(0, 8).foldl({ at: i, d: 0 }, (a, k) => if (a.at <= 0) a else { at: nodes[a.at].parent, d: a.d + 1 }).d
  /// the contract a node belongs to
  def owner(i: int): int = if (nodes[i].kind == "dep") nodes[i].parent else i

  action init = {
    nondet r = 0.to(2^20 - 1).oneOf()
    all {
      nodes' = [{ kind: "obj", name: NAMES[r % 4], parent: -1, bytes: [] }].concat(if (r % 8 == 7) [] else [{ kind: "dep", name: "", parent: 0, bytes: [] }]),
      cur' = 0, seen' = Set(), left' = 2 + (r / 2^8) % 8, ev' = none
    }
  }
  action addNode: bool = {
    nondet r = 0.to(2^64 - 1).oneOf()
    val p = r % length(nodes)
    val j = r / 2^10
    val isObj = j / 64 % 3 == 0 and depth(p) < 4
    val n = if (isObj) NAMES[j % length(NAMES)] else DATANAMES[j % length(DATANAMES)]
    val mine = nodes[owner(if (nodes[p].kind == "data") 0 else p)].name
    val fits = nodes[p].kind != "data" and not(hasName(p, n)) and n != mine
    all {
      left > 0, left' = left - 1, cur' = cur, seen' = seen, ev' = none,
      nodes' = if (not(fits)) nodes
               else if (isObj) nodes.append({ kind: "obj", name: n, parent: p, bytes: [] })
                               .concat(if (j / 2^12 % 4 == 0) [] else [{ kind: "dep", name: "", parent: length(nodes), bytes: [] }])
               else nodes.append({ kind: "data", name: n, parent: p, bytes: blob(r, SIZES[1 + j / 2^9 % (length(SIZES) - 1)]) })
    }
  }
  def look(i: int): Obs =
    if (nodes[i].kind == "data") { node: i, size: length(nodes[i].bytes), bytes: nodes[i].bytes }
    else if (nodes[i].kind == "dep") { node: i, size: 4, bytes: [0, 0, 0, 0] }
    else { node: i, size: -1, bytes: [] }
  def lookAll(p: int): List[Obs] = children(p).foldl([], (l, i) => l.append(look(i)))
  def contractsIn(p: int): Set[int] = children(p).foldl(Set(), (s, i) => if (nodes[i].kind == "obj") s.union(Set(i)) else s)

  /// deployment runs the code of the object; the arguments follow the code
  action deploy: bool = {
    nondet r = 0.to(2^64 - 1).oneOf()
    val args = blob(r, SIZES[r % length(SIZES)])
    all { left == 0, nodes' = nodes, left' = left, cur' = cur, seen' = seen.union(contractsIn(cur)),
          ev' = { op: "deploy", node: cur, args: args, obs: lookAll(cur), back: args } }
  }
  /// a call runs the code of the run time object, and sees what that one holds
  action call: bool = {
    nondet r = 0.to(2^64 - 1).oneOf()
    val d = depOf(cur)
    val args = blob(r, SIZES[r % length(SIZES)])
    all { left == 0, nodes' = nodes, left' = left, cur' = cur,
          seen' = if (d < 0) seen else seen.union(contractsIn(d)),
          ev' = if (d < 0) { ...none, op: "nocall" } else { op: "call", node: d, args: args, obs: lookAll(d), back: args } }
  }
  action descend: bool = {
    nondet r = 0.to(2^16 - 1).oneOf()
    val c = range(0, length(nodes)).foldl([], (l, i) => if (seen.contains(i)) l.append(i) else l)
    all { left == 0, nodes' = nodes, left' = left,
          cur' = if (length(c) == 0 or r % 5 == 0) 0 else c[r % length(c)],
          seen' = Set(),
          ev' = { ...none, op: if (length(c) == 0 or r % 5 == 0) "root" else "descend", node: if (length(c) == 0 or r % 5 == 0) 0 else c[r % length(c)] } }
  }
  action step = any { addNode, deploy, call, descend }

  /// the tree is a tree, names are unique where they are visible
  val isTree = range(1, length(nodes)).foldl(true, (a, i) => a and nodes[i].parent >= 0 and nodes[i].parent < i and nodes[nodes[i].parent].kind != "data")
  val namesUnique = range(0, length(nodes)).foldl(true, (a, i) => a and range(0, i).foldl(true, (b, j) =>
    b and not(nodes[i].kind != "dep" and nodes[j].kind != "dep" and nodes[i].parent == nodes[j].parent and nodes[i].name == nodes[j].name)))
  val curIsContract = nodes[cur].kind == "obj"
  val sizesAgree = ev.obs.foldl(true, (a, o) => a and (o.size == length(o.bytes) or (o.size == -1 and nodes[o.node].kind == "obj")))
}
