// C08: expressions of every shape with the value, degree and cells they denote.
module ExprGen {
  import Ints.* from "./Ints"
  import Expr.* from "./Expr"
  import ExprBuild.* from "./ExprBuild"

  var e: Expr                    // the expression
  var by: Expr                   // put in place of X
  var claims: List[List[int]]
  var x: int
  var seed: int                  // cells: cell (c, o) is mix(seed, 64 c + o + 8)
  var value: int                 // -1: a division by zero
  var composed: int
  var degrees: List[(int, int)]  // for trace degrees 0, 1, 7, 1023 with X of degree 1; and of the trace alone
  var reads: List[(int, int)]
  var fits: bool                 // every claim polynomial is within its bound

  pure def cellv(s: int, c: int, o: int): int = mix(s, 64 * c + o + 8)
  pure val TDS: List[int] = [0, 1, 7, 1023]

  action step = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet n = 1.to(12).oneOf()
    nondet h = 0.to(9).oneOf()
    pure val cl = [coeffs(3 + 16 * (r % 1000)), coeffs((if (h == 0) 3 else 2) + 16 * (r2 % 1000))]
    pure val expr = build(r, n, true)
    pure val other = build(r2, 2, true)
    pure val at = if (h == 1) r2 % 3 else mix(r2, 5)
    pure val inner = eval(other, cl, at, (c, o) => cellv(r, c, o))
    pure val bounded = expr.concat(other).select(t => t.o == "q" and deg(cl[t.a]) > t.b).length() == 0
    all {
      e' = expr, by' = other, claims' = cl, x' = at, seed' = r,
      value' = eval(expr, cl, at, (c, o) => cellv(r, c, o)),
      composed' = eval(compose(expr, other), cl, at, (c, o) => cellv(r, c, o)),
      degrees' = TDS.foldl([], (s, t) => s.append(degree(expr, 1, t))).append(degree(expr, 0, 1)),
      reads' = cells(expr), fits' = bounded
    }
  }
  action init = step

  val laws = and {
    // substitution changes nothing
    eval(substitute(e, claims), [], x, (c, o) => cellv(seed, c, o)) == value,
    // where the inner value is defined, composition is evaluation there
    {
      val inner = eval(by, claims, x, (c, o) => cellv(seed, c, o))
      inner < 0 or eval(e, claims, inner, (c, o) => cellv(seed, c, o)) == composed
    },
    value < P
  }
}
