// Expressions of every shape, grown out of a random number; without cells they
// are rational functions of X alone.
module ExprBuild {
  import Ints.* from "./Ints"
  import Expr.* from "./Expr"

  pure def konst(r: int): int =
    if (r % 5 == 0) r % 3 else if (r % 5 == 1) P - 1 - r % 2 else mix(r, 3)
  pure def coeffs(r: int): List[int] = {
    pure val n = 2^(r % 4)
    range(0, n).foldl([], (s, i) => s.append(if ((r / 16 + i) % 3 == 0) 0 else mix(r, i)))
  }
  pure def leaf(r: int, cells: bool): Expr = {
    pure val k = r % 7
    if (k < 2) X else if (k < 4) C(konst(r / 7)) else if (not(cells)) (if (k < 6) X else C(konst(r / 7))) else T((r / 7) % 3, (r / 21) % 9 - 4)
  }
  // one more expression out of those already there
  pure def grow(pool: List[Expr], r: int, cells: bool): Expr = {
    pure val n = pool.length()
    pure val a = pool[(r / 1000) % n]
    pure val b = pool[(r / 1000000) % n]
    pure val k = r % 16
    pure val q = (r / 16) % 1000
    if (k < 3) add(a, b) else if (k < 5) sub(a, b) else if (k < 8) mul(a, b) else if (k == 8) neg(a)
    else if (k == 9) inv(a) else if (k < 12) pow(a, [0, 1, 2, 3, 5, 8, 16, 64][q % 8])
    else if (k == 12) poly(coeffs(q), a) else if (k == 13 and cells) claim(q % 2, [7, 3][q % 2], a)
    else if (k == 14) mul(a, inv(b)) else leaf(q, cells)
  }
  pure def build(r: int, steps: int, cells: bool): Expr = {
    pure val start = [leaf(r % 100000, cells), leaf((r / 100000) % 100000, cells), leaf((r / 2^40) % 100000, cells)]
    range(0, steps).foldl((start, r), (s, i) => {
      pure val w = mix(s._2, i)
      pure val g = grow(s._1, w % 2^40, cells)
      pure val d = degree(g, 1, 1023)
      (s._1.append(if (g.length() > 60 or max2(d._1, d._2) > 2^40) leaf(w % 1000, cells) else g), w)
    })._1[start.length() + steps - 1]
  }
}
