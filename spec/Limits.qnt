// C13: advertised security, proof size and default parameters.
module Limits {
  import Ints.* from "./Ints"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  type Cfg = { blowup: int, pow: int, queries: int, layout: List[int] }
  // twice the bits: queries log2(blowup) + 2 pow;  worst: bytes of the longest
  // possible proof;  over: indices of configurations that it must exceed
  type Judged = { cfg: Cfg, bits2: int, worst: int, over: List[int] }

  var cases: List[Judged]
  var rows: List[(int, bool)]         // trace lengths, and which are admissible
  var lengths: List[int]               // logarithms of trace lengths for default parameters
  var make: str                        // "default" or "given": which parameters a proof is made with

  // ---- sizes -----------------------------------------------------------------
  // k queries spread evenly reach min(k, 2^l) nodes of level l
  pure def nodes(k: int, l: int): int = min2(k, 2^l)
  pure def opening(k: int, d: int): int =
    range(1, d + 1).foldl(0, (s, l) => s + 2 * nodes(k, l - 1) - nodes(k, l))
  pure def args(s: Sys): int =
    exprs(s).foldl(Set(), (u, e) => e.foldl(u, (v, t) => if (t.o == "t") v.union(Set((t.a, t.b))) else v)).size()
  // elements in a proof whose queries are k distinct, evenly spread positions
  pure def elements(s: Sys, a: int, p: int, g: Cfg, k: int): int = {
    pure val d = s.lg + bitlen(g.blowup) - 1
    pure val front = 2 + a + p + g.layout.length() + 2^(s.lg - sum(g.layout))
    pure val opened = g.queries * (s.cols.length() + p) + 2 * opening(k, d)
    pure val fri = g.layout.foldl((0, d), (t, r) => {
      pure val l = t._2 - r
      (t._1 + nodes(k, l) * 2^r - nodes(k, t._2) + opening(k, l), l) })
    front + opened + fri._1
  }
  pure def worst(s: Sys, a: int, p: int, g: Cfg): int = {
    pure val d = s.lg + bitlen(g.blowup) - 1
    8 + 32 * range(0, d + 1).foldl(0, (m, j) => max2(m, elements(s, a, p, g, min2(g.queries, 2^j))))
  }
  pure def bits2(g: Cfg): int = g.queries * (bitlen(g.blowup) - 1) + 2 * g.pow

  // the configuration and those with one parameter raised
  pure def family(s: Sys, g: Cfg): List[Judged] = {
    pure val a = args(s)
    pure val p = parts(s)
    pure val up = [g, g.with("queries", g.queries + 2), g.with("blowup", 2 * g.blowup), g.with("pow", g.pow + 1),
                   g.with("queries", 2 * g.queries + 1), g.with("blowup", 4 * g.blowup)]
    range(0, up.length()).foldl([], (l, i) => {
      pure val h = up[i]
      l.append({ cfg: h, bits2: bits2(h), worst: worst(s, a, p, h),
                 // half a pair of queries provides nothing yet
                 over: range(0, i).foldl([], (o, j) => {
                   pure val b = up[j]
                   if (h.queries >= b.queries and h.blowup >= b.blowup and h.pow >= b.pow
                       and (h.pow > b.pow or (h.queries / 2 > b.queries / 2 and h.blowup > 1)
                            or (h.blowup > b.blowup and b.queries >= 2)))
                     o.append(j) else o }) })
    })
  }
  action judge(s: Sys, r: int): bool = all {
    cases' = family(s, { blowup: s.blowup, pow: s.pow, queries: s.queries, layout: s.layout }),
    lengths' = range(0, 6).foldl([], (l, i) => l.append(mix(r, 20 + i) % 41)),
    rows' = range(0, 4).foldl([], (l, i) => {
      pure val v = mix(r, i) % 2^[4, 12, 34, 62][i]
      pure val w = [2^((r / 2^9) % 63), 5, 0, 7][i]
      pure val x = if ((r / 2^(3 * i)) % 8 == 0) w else v
      l.append((x, x > 0 and 2^(bitlen(x) - 1) == x)) })
  }
  // small systems: proofs are made, with the given or with default parameters
  action posed(top: int, cols: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(cols).oneOf()
    nondet d = Set("default", "detailed", "given", "given").oneOf()
    pure val g = generate(r, lg, nc, 0, 2)
    pure val t = fill(g)
    pure val u = tune(bound(g, t, r, if (g.cons.length() == 0) 1 else r % 3), r2)
    all { pose(u, t, (-1, 0, 0)), judge(u, r2), make' = if (parts(u) > 16) "given" else d }
  }
  // large ones: proofs with default parameters up to 2^12 rows, arithmetic beyond
  action wide(top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(40).oneOf()
    nondet q = 1.to(300).oneOf()
    nondet w = 0.to(64).oneOf()
    nondet b = 0.to(5).oneOf()
    pure val g = generate(r, lg, if (nc < 20) 1 + nc % 3 else nc, 0, 3)
    pure val u = tune(ruled(g), r2).with("queries", if (r2 % 4 == 0) q % 7 else q).with("pow", if (lg > 12) w else w % 8)
    pure val s = u.with("blowup", parts(u) * 2^b).with("queries", max2(1, u.queries))
    all { pose(s, [], (-1, 0, 0)), judge(s, r2),
          make' = if (lg > 12 or parts(s) > 16) "none" else if (r2 % 3 == 0) "detailed" else "default" }
  }
  action init = posed(3, 2)
  action step = posed(5, 4)
  action more = wide(26)
  val laws = and {
    airLaws,
    cases.select(c => c.worst < 8 + 32 * 4).length() == 0,
    // the longest proof does not shrink when a parameter is raised
    range(1, cases.length()).foldl(true, (b, i) => b and cases[i].worst >= cases[0].worst and cases[i].bits2 >= cases[0].bits2),
    range(0, cases.length()).foldl(true, (b, i) => b and cases[i].over.select(j => cases[j].bits2 >= cases[i].bits2).length() == 0)
  }
}
