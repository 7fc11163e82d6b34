// C10: constraint systems composed of smaller ones. A composition is a tree of
// leaves, written in postfix form; its meaning is where each cell of each leaf
// instance ends up, and that it is satisfied when all instances are.
module Component {
  import Ints.* from "./Ints"
  import Air.* from "./Air"

  // leaf: number k.  side: the last two, next to each other.  stack: k copies
  // on top of each other.  fold: columns into rows, k times.
  type Node = { o: str, k: int }
  // test: x(0) = seed, x(i+2) = x(i) x(i+1) + claim, row by row.
  // air: a generated system.  empty: no constraints.
  type Leaf = { kind: str, lg: int, cols: int, seed: int, claim: int, sys: Sys, es: List[Expr] }
  type Inst = { leaf: int, place: List[List[(int, int)]] }  // place[column][row] = (column, row) of the whole
  type Comp = { nodes: List[Node], lg: int, cols: int, insts: List[Inst], stackable: bool }

  var nodes: List[Node]
  var leaves: List[Leaf]
  var insts: List[Inst]
  var tables: List[Table]       // of the instances
  var lg: int
  var cols: int
  var layout: List[int]
  var spot: (int, int, int, int)     // instance, column, row, value put there; instance -1: none
  var unmet: List[int]          // instances that the change breaks
  var bare: bool                // no constraints at all

  // ---- leaves --------------------------------------------------------------
  pure def sequence(n: int, seed: int, wit: int, cl: int): List[int] =
    range(0, n).foldl([], (s, i) => s.append(
      if (i == 0) seed else if (i == 1) wit else (s[i - 2] * s[i - 1] + cl) % P))
  pure def transpose(s: List[int], rows: int, nc: int): Table =
    range(0, nc).foldl([], (t, c) => t.append(range(0, rows).foldl([], (v, r) => v.append(s[r * nc + c]))))
  pure def started(s: Sys, wit: int): Sys =
    s.with("cols", range(0, s.cols.length()).foldl([], (l, j) => l.append(s.cols[j].with("start", mix(wit, j)))))
  pure def tableOf(l: Leaf, wit: int): Table =
    if (l.kind == "test") transpose(sequence(2^l.lg * l.cols, l.seed, mix(wit, 0), l.claim), 2^l.lg, l.cols)
    else if (l.kind == "air") fill(started(l.sys, wit))
    else range(0, l.cols).foldl([], (t, _) => t.append(range(0, 2^l.lg).foldl([], (v, _) => v.append(0))))
  pure def meets(l: Leaf, t: Table): bool =
    if (l.kind == "test") {
      pure val n = 2^l.lg * l.cols
      pure val x = range(0, n).foldl([], (s, i) => s.append(t[i % l.cols][i / l.cols]))
      and { n == 0 or x[0] == l.seed,
            range(2, max2(n, 2)).foldl(true, (ok, i) => ok and x[i] == (x[i - 2] * x[i - 1] + l.claim) % P) }
    } else if (l.kind == "air") broken(l.sys, t).length() == 0 else true
  pure def constraints(l: Leaf): int =
    if (l.kind == "test") l.cols else if (l.kind == "air") l.sys.cons.length() else 0
  // no constraint reads beyond the first or last row, where copies would meet
  pure def contained(l: Leaf): bool = l.kind != "air" or
    l.sys.cons.foldl(true, (ok, c) => ok and
      range(0, 2^l.lg).select(i => applies(c, i)).foldl(true, (ok2, i) => ok2 and
        cells(c.num).select(u => i + u._2 < 0 or i + u._2 >= 2^l.lg).length() == 0))

  // ---- composition ---------------------------------------------------------
  pure def moved(is: List[Inst], f: (int, int) => (int, int)): List[Inst] =
    is.foldl([], (l, s) => l.append(s.with("place", s.place.foldl([], (p, col) =>
      p.append(col.foldl([], (q, u) => q.append(f(u._1, u._2))))))))
  pure def single(l: Leaf, k: int): Comp = {
    nodes: [{ o: "leaf", k: k }], lg: l.lg, cols: l.cols, stackable: contained(l),
    insts: [{ leaf: k, place: range(0, l.cols).foldl([], (p, c) => p.append(range(0, 2^l.lg).foldl([], (q, r) => q.append((c, r))))) }]
  }
  pure def side(a: Comp, b: Comp): Comp = {
    nodes: a.nodes.concat(b.nodes).append({ o: "side", k: 0 }), lg: a.lg, cols: a.cols + b.cols,
    stackable: a.stackable and b.stackable,
    insts: a.insts.concat(moved(b.insts, (c, r) => (c + a.cols, r)))
  }
  pure def stack(a: Comp, k: int): Comp = {
    nodes: a.nodes.append({ o: "stack", k: 2^k }), lg: a.lg + k, cols: a.cols, stackable: a.stackable,
    insts: range(0, 2^k).foldl([], (l, i) => l.concat(moved(a.insts, (c, r) => (c, r + i * 2^a.lg))))
  }
  pure def folded(a: Comp, k: int): Comp = {
    nodes: a.nodes.append({ o: "fold", k: k }), lg: a.lg + k, cols: (a.cols + 2^k - 1) / 2^k, stackable: a.stackable,
    insts: moved(a.insts, (c, r) => (c / 2^k, r * 2^k + reversed(c % 2^k, k)))
  }
  // the k low bits of v in opposite order
  pure def reversed(v: int, k: int): int =
    range(0, k).foldl(0, (s, i) => 2 * s + (v / 2^i) % 2)
  pure def raise(a: Comp, k: int, r: int): Comp =
    if (k == 0) a else if (a.stackable and r % 2 == 0) stack(a, k)
    else if (r % 3 == 0 and k > 1) folded(folded(a, 1), k - 1) else folded(a, k)
  pure def beside(a: Comp, b: Comp, r: int): Comp =
    if (a.lg <= b.lg) side(raise(a, b.lg - a.lg, r), b) else side(a, raise(b, a.lg - b.lg, r))

  pure def leafOf(r: int, top: int): Leaf = {
    pure val g = (r / 64) % (top + 1)
    pure val k = r % 8
    pure val nc = (r / 1024) % 5
    pure val s = generate(r / 2^20, g, 1 + nc % 3, 0, 1)
    if (k < 4) { kind: "test", lg: g, cols: if (nc == 0 and k > 0) 2 else nc, seed: mix(r, 1), claim: mix(r, 2), sys: s, es: [] }
    else if (k < 7) { kind: "air", lg: g, cols: 1 + nc % 3, seed: 0, claim: 0, sys: s, es: exprs(s) }
    else { kind: "empty", lg: g, cols: nc % 3, seed: 0, claim: 0, sys: s, es: [] }
  }
  // grow a pile of compositions, then join them
  pure def construct(ls: List[Leaf], r: int, top: int): Comp = {
    pure val pile = range(0, ls.length()).foldl([], (p, i) => {
      pure val w = mix(r, i)
      pure val one = single(ls[i], i)
      pure val q = p.append(raise(one, min2((w / 8) % 3, max2(0, top - one.lg - 1)), w))
      pure val n = q.length()
      if (w % 3 == 0 and n > 1) {
        pure val j = beside(q[n - 2], q[n - 1], w / 32)
        q.slice(0, n - 2).append(raise(j, if (j.lg + 1 < top) (w / 2^20) % 2 else 0, w / 2^24))
      } else q
    })
    pure val c = range(1, pile.length()).foldl(pile[0], (a, i) => beside(a, pile[i], mix(r, 90 + i)))
    raise(c, if (c.lg < top) (r / 8) % 2 else 0, r / 16)
  }
  pure def spread(c: Comp): int = c.insts.length()
  pure def threes(left: int): List[int] =
    range(0, left / 3).foldl([], (l, _) => l.append(3)).concat(if (left % 3 == 0) [] else [left % 3])

  action composed(n: int, top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet h = 0.to(2).oneOf()
    pure val ls = range(0, 1 + r2 % n).foldl([], (l, i) => l.append(leafOf(mix(r, 500 + i) + 2^251, min2(2, top))))
    pure val c = construct(ls, r2 / 64, top)
    pure val ts = range(0, c.insts.length()).foldl([], (l, i) => l.append(tableOf(ls[c.insts[i].leaf], mix(r2, i))))
    pure val real = range(0, ts.length()).select(i => ts[i].length() > 0)
    pure val at1 = if (real.length() == 0) 0 else real[(r2 / 2^40) % real.length()]
    pure val col = if (real.length() == 0) 0 else (r2 / 2^50) % ts[at1].length()
    pure val row = if (real.length() == 0) 0 else (r2 / 2^60) % ts[at1][col].length()
    pure val s = if (h == 0 or real.length() == 0) (-1, 0, 0, 0)
                 else (at1, col, row, if (h == 1) (ts[at1][col][row] + 1) % P else mix(r2, 7))
    all {
      nodes' = c.nodes, leaves' = ls, insts' = c.insts, tables' = ts, lg' = c.lg, cols' = c.cols,
      layout' = threes(c.lg), spot' = s,
      unmet' = if (s._1 < 0 or meets(ls[c.insts[at1].leaf], ts[at1].replaceAt(col, ts[at1][col].replaceAt(row, s._4)))) [] else [at1],
      bare' = ls.select(l => constraints(l) > 0).length() == 0
    }
  }
  action init = composed(2, 3)
  action step = composed(4, 4)
  action deep = composed(8, 6)

  pure def flat(is: List[Inst]): List[(int, int)] =
    is.foldl([], (l, s) => s.place.foldl(l, (m, col) => m.concat(col)))
  val laws = {
    val p = flat(insts)
    and {
      // every instance is satisfied before the change
      range(0, insts.length()).select(i => not(meets(leaves[insts[i].leaf], tables[i]))).length() == 0,
      // cells do not collide and stay inside
      p.length() == p.foldl(Set(), (s, u) => s.union(Set(u))).size(),
      p.select(u => u._1 < 0 or u._1 >= cols or u._2 < 0 or u._2 >= 2^lg).length() == 0,
      lg <= 10
    }
  }
}
