// A constraint system posed with a trace, satisfying or spoiled in one cell.
module AirState {
  import Ints.* from "./Ints"
  import Air.* from "./Air"

  var sys: Sys
  var es: List[Expr]                 // the constraint expressions
  var table: Table                   // [] for long traces: filled by the rules
  var change: (int, int, int)        // column, row, value put there; column -1: none
  var broken1: List[(int, int)]      // (row, constraint) violated by the changed trace
  var sound: bool                    // well formed: degrees fit the parameters
  var deg1: { system: int, parts: int, adjust: List[int] }

  pure def tune(s: Sys, r: int): Sys = {
    pure val d = 2^bitlen(max2(sysDegree(s) - 1, 0))
    pure val red = if (s.lg == 0) 0 else 1 + r % s.lg
    s.with("blowup", d * 2^(if (s.lg < 4 and (r / 2^200) % 8 == 0) (r / 2^204) % 8 else (r / 64) % 4)).with("pow", [0, 0, 1, 3, 7, 8, 9, 12][(r / 256) % 8])
     .with("queries", 1 + (r / 2048) % [1, 3, 8, 30, 1, 3, 8, 180][(r / 2^20) % 8])
     .with("layout", layoutOf(r / 2^76, if ((r / 2^24) % 4 == 0) s.lg else if ((r / 2^24) % 16 == 1) 0 else red))
     .with("seed", range(0, ((r / 2^40) % 65536) % [1, 40, 40, 140, 300, 700][(r / 2^56) % 6]).foldl([], (l, i) => l.append(mix(r, 900 + i) % 256)))
  }
  pure def describe(s: Sys, e: List[Expr]): { system: int, parts: int, adjust: List[int] } = {
    pure val top = degreeOf(e)
    { system: top, parts: partsOf(e), adjust: e.foldl([], (l, q) => l.append(adjust(s.lg, top, q))) }
  }
  pure def spoil(t: Table, c: (int, int, int)): Table =
    if (c._1 < 0) t else t.replaceAt(c._1, t[c._1].replaceAt(c._2, c._3))

  // with a constraint at least: a free column starts with mix(start, 0)
  pure def ruled(g: Sys): Sys = if (g.cons.length() > 0) g
    else g.with("cons", [{ num: sub(T(0, 0), C(fill(g.with("lg", 0).with("cols", [g.cols[0]]))[0][0])), s: g.lg, r: 0, exc: [], form: 0 }])

  // the last two constraints as one, with a factor that leaves no pole of one to
  // the other: a sum of quotients is a polynomial when both
  // are, and has the poles of both
  pure def merge(l: List[Expr], r: int): List[Expr] = {
    pure val n = l.length()
    if (n < 2 or r % 4 > 0) l
    else l.slice(0, n - 2).append(
      if ((r / 4) % 3 == 0) add(l[n - 2], mul(l[n - 1], C(mix(r, 3)))) else if ((r / 4) % 3 == 1) sub(l[n - 1], mul(C(mix(r, 1)), l[n - 2]))
      else add(mul(l[n - 2], C(1 + r % 1000)), mul(C(mix(r, 2)), l[n - 1])))
  }
  action pose(s: Sys, t: Table, c: (int, int, int)): bool = poseAs(s, exprs(s), t, c)
  action poseAs(s: Sys, e: List[Expr], t: Table, c: (int, int, int)): bool = all {
    sys' = s, es' = e, table' = t, change' = c,
    broken1' = if (t.length() == 0) [] else broken(s, spoil(t, c)).foldl([], (l, b) => l.append((b._1, min2(b._2, e.length() - 1)))), sound' = wellFormed(s, e), deg1' = describe(s, e)
  }
  action small(top: int, far: int, maxc: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(maxc).oneOf()
    nondet nb = 0.to(3).oneOf()
    nondet h = 0.to(3).oneOf()
    pure val g = generate(r, lg, nc, nb, far)
    pure val t = fill(g)
    pure val g2 = bound(g, t, r, if (g.cons.length() == 0) 1 + nb else nb)
    pure val c = (r2 / 2^100) % nc
    pure val row = (r2 / 2^110) % 2^lg
    pure val s = tune(g2, r2)
    poseAs(s, merge(exprs(s), r2 / 2^130), t, if (h < 2) (-1, 0, 0)
         else (c, row, if (h == 2) (t[c][row] + 1) % P else mix(r2, 8)))
  }
  action crowded(top: int, lo: int, hi: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 1.to(top).oneOf()
    nondet nc = 1.to(4).oneOf()
    nondet nb = lo.to(hi).oneOf()
    pure val g = generate(r, lg, nc, nb, 2)
    pure val t = fill(g)
    pose(tune(bound(g, t, r, nb), r2), t, (-1, 0, 0))
  }
  action big(lg: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet nc = 2.to(3).oneOf()
    pose(tune(ruled(generate(r, lg, nc, 0, 3)), r2), [], (-1, 0, 0))
  }
  val airLaws = and {
    // the rules make the trace, so nothing is broken before the change
    table.length() == 0 or broken(sys, table).length() == 0,
    // a change is noticed exactly through the cells the constraints read
    change._1 >= 0 or broken1.length() == 0,
    deg1.adjust.length() == es.length()
  }
}
