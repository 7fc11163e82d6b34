// C12: the combination of the constraints that a verifier computes at one
// point, and what a contract generated from the system must therefore return.
module Export {
  import Ints.* from "./Ints"
  import ExprBuild.* from "./ExprBuild"
  import Air.* from "./Air"

  var lg: int
  var ncols: int
  var es: List[Expr]
  var claims: List[List[int]]
  var params: { blowup: int, pow: int, queries: int }
  var x: int
  var seed: int                       // coefficients and values are numbered elements of it
  var reads: List[(int, int)]         // cells, in the order in which their values are given
  var rows: List[int]                 // distinct offsets, ascending
  var top: int                        // degree of the system
  var adjusts: List[int]
  var combined: int                   // -1: a division by zero

  pure def coef(s: int, i: int): int = mix(s, 1000 + i)
  pure def val1(s: int, c: int, o: int): int = mix(s, 100 * c + o)

  // the generator takes offsets from 0, inverses that are not nested and
  // polynomials of powers of X
  type Flags = { ok: bool, invs: bool, power: bool }
  pure def exportable(e: Expr): bool =
    e.foldl([], (s, t) => {
      pure val n = s.length()
      if (t.o == "x") s.append({ ok: true, invs: false, power: true })
      else if (t.o == "c") s.append({ ok: true, invs: false, power: false })
      else if (t.o == "t") s.append({ ok: t.b >= 0, invs: false, power: false })
      else if (t.o == "+" or t.o == "*") s.slice(0, n - 2).append(
        { ok: s[n - 2].ok and s[n - 1].ok, invs: s[n - 2].invs or s[n - 1].invs, power: false })
      else {
        pure val u = s[n - 1]
        s.replaceAt(n - 1,
          if (t.o == "i") { ok: u.ok and not(u.invs), invs: true, power: false }
          else if (t.o == "-") u.with("power", false)
          else if (t.o == "^") u
          else if (t.o == "p") { ok: u.ok and u.power, invs: false, power: false }
          else { ok: u.ok and u.power, invs: false, power: false })
      }
    })[0].ok
  // offsets count round the trace
  pure def forward(e: Expr, n: int): Expr =
    e.foldl([], (s, t) => s.append(if (t.o == "t") t.with("b", md(t.b, n)) else t))
  pure def degOf(l: List[Expr]): int =
    l.foldl(0, (m, e) => { pure val d = degree(e, 0, 1)  max2(m, d._1 - d._2) })
  pure def gap(e: Expr, n: int, d: int): int = { pure val k = degree(e, 1, n - 1)  d * n - 1 + k._2 - k._1 }
  pure def sorted(l: List[(int, int)]): List[int] =
    l.foldl([], (s, u) => s.select(v => v < u._2).append(u._2).concat(s.select(v => v > u._2)))

  // constraints as systems have them, and others of any shape
  pure def candidates(r: int, s: Sys): List[Expr] = {
    pure val n = 2^s.lg
    pure val plain = exprs(s).foldl([], (l, e) => l.append(forward(e, n)))
    pure val odd = range(0, 3).foldl([], (l, i) => l.append(
      forward(mul(sub(T(i % s.cols.length(), i), build(mix(r, i), 1 + (r / 8) % 9, true)), inv(sub(pow(X, n), C(1)))), n)))
    // the same denominators, periodic values and powers again
    pure val again = if (plain.length() == 0) [] else range(0, 2).foldl([], (l, i) => {
      pure val e = plain[(r / 2^(20 + 4 * i)) % plain.length()]
      l.append(if ((r / 2^30) % 2 == i) add(e, e) else mul(pow(X, 1 + (r / 2^40) % 20), e)) })
    plain.concat(odd).concat(again)
  }
  action posed(maxlg: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet g = 0.to(maxlg).oneOf()
    nondet nc = 1.to(3).oneOf()
    pure val n = 2^g
    pure val s0 = generate(r, g, nc, 0, 2)
    pure val s1 = bound(s0, fill(s0), r, 1 + (r / 2^50) % 3)
    pure val all1 = candidates(mix(r, 9), s1).select(e => exportable(e) and
      cells(e).select(u => u._1 >= nc).length() == 0 and
      e.select(t => t.o == "q" and t.a >= s1.claims.length()).length() == 0)
    pure val one = sub(T(0, 0), C(mix(r, 3)))
    pure val some = all1.append(mul(one, inv(sub(X, C(1)))))
    pure val d = degOf(some)
    pure val fit = some.select(e => gap(e, n, d) >= 0)
    // every claim polynomial once: its place is known by its name
    pure val kept = if (degOf(fit) == d) fit else [some[some.length() - 1]]
    pure val use = kept.foldl([], (l, e) => if (l.length() < 6) l.append(e) else l)
    pure val d2 = degOf(use)
    pure val fin = use.select(e => gap(e, n, d2) >= 0)
    pure val fine = if (fin.length() > 0 and degOf(fin) == d2) fin else [mul(one, inv(sub(X, C(1))))]
    pure val dd = degOf(fine)
    pure val at1 = mix(r, 4)
    all {
      lg' = g, ncols' = nc, es' = fine, claims' = s1.claims,
      params' = { blowup: 2^(1 + r % 5), pow: (r / 32) % 30, queries: 1 + (r / 1024) % 60 },
      x' = at1, seed' = r, reads' = fine.foldl([], (l, e) => cellsInto(l, e)),
      rows' = sorted(fine.foldl([], (l, e) => cellsInto(l, e))), top' = dd,
      adjusts' = fine.foldl([], (l, e) => l.append(gap(e, n, dd))),
      combined' = range(0, fine.length()).foldl(0, (a, i) => {
        pure val v = eval(fine[i], s1.claims, at1, (c, o) => val1(r, c, o))
        if (a < 0 or v < 0) -1
        else (a + v * ((coef(r, 2 * i) + coef(r, 2 * i + 1) * powmod64(at1, gap(fine[i], n, dd), P)) % P)) % P })
    }
  }
  action init = posed(2)
  action step = posed(5)
  val laws = and {
    top > 0,
    adjusts.select(a => a < 0).length() == 0,
    es.select(e => not(exportable(e))).length() == 0,
    rows.length() <= reads.length()
  }
}
