// C01, C07, C08: systems whose constraints are written in roundabout ways: each
// is multiplied by D and by 1 / D, for rational functions D of every shape.
module AirDress {
  import Ints.* from "./Ints"
  import ExprBuild.* from "./ExprBuild"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  // a function that is not zero throughout
  pure def other(r: int): Expr = {
    pure val d = build(r, 1 + r % 9, false)
    pure val v = eval(d, [], mix(r, 1), (c, o) => 0)
    pure val k = degree(d, 1, 1)
    if (v <= 0 or max2(k._1, k._2) > 300) sub(X, C(mix(r, 2))) else d
  }
  // made of multiples of X^(2^j), whose values repeat with every power of two
  pure def repeats(r: int, lg: int): Expr = {
    pure val j = (r / 8) % (lg + 4)
    pure val k = if ((r / 2^12) % 3 == 0) j else (r / 2^14) % (lg + 4)
    pure val u = mul(C(konst(r / 2^20)), pow(X, 2^j))
    pure val v = if ((r / 2^18) % 2 == 0) mul(pow(X, 2^k), C(mix(r, 4))) else pow(pow(X, 2^(k / 2)), 2^(k - k / 2))
    pure val w = r % 8
    pure val d = if (w == 0) u else if (w == 1) inv(v) else if (w == 2) add(u, v) else if (w == 3) mul(u, v)
      else if (w == 4) sub(inv(u), v) else if (w == 5) poly(coeffs(r), v) else if (w == 6) add(inv(add(v, C(mix(r, 5)))), neg(u))
      else mul(inv(v), add(mul(u, v), pow(v, 2)))
    pure val z = eval(d, [], mix(r, 1), (c, o) => 0)
    if (z <= 0) v else d
  }
  pure def dress(e: Expr, r: int, lg: int): Expr = {
    pure val d = if ((r / 2^40) % 3 > 0) repeats(mix(r, 6), lg) else other(r)
    pure val k = (r / 2^30) % 6
    if (k == 0) mul(mul(e, d), inv(d))
    else if (k == 1) mul(d, mul(e, inv(d)))
    else if (k == 2) mul(inv(d), mul(d, e))
    else if (k == 3) mul(mul(e, inv(inv(d))), inv(d))
    else if (k == 4) mul(mul(e, pow(d, 2)), pow(inv(d), 2))
    else e
  }
  // the function takes part in the numerator and in the denominator
  pure def woven(lg: int, c: Con, r: int): Expr = {
    pure val d0 = if ((r / 2^40) % 3 > 0) repeats(mix(r, 6), lg) else other(r)
    pure val d = if (eval(d0, [], mix(r, 1), (cc, o) => 0) == P - 1) X else d0
    pure val n = if (c.exc.length() == 0) restyle(c.num, c.form / 6) else mul(restyle(c.num, c.form / 6), exempt(lg, c))
    pure val z = onRows(lg, c.s, c.r, c.form / 48)
    pure val k = (r / 2^30) % 7
    if (k == 0) mul(mul(n, d), inv(mul(z, d)))
    else if (k == 1) mul(mul(n, d), mul(inv(z), inv(d)))
    else if (k == 2) mul(mul(inv(d), n), mul(d, inv(z)))
    else if (k == 3) mul(mul(inv(inv(d)), n), inv(mul(d, z)))
    else if (k == 4) mul(mul(pow(d, 2), n), mul(pow(inv(d), 2), inv(z)))
    else if (k == 5) mul(add(mul(d, n), n), inv(add(mul(z, d), z)))
    else mul(inv(mul(mul(z, inv(d)), d)), n)
  }
  pure def clothe(s: Sys, r: int): List[Expr] =
    range(0, s.cons.length()).foldl([], (l, i) => {
      pure val w = mix(r, i) * 7 + 1
      l.append(if ((w / 2^90) % 3 == 0 or (s.cons[i].form / 73728) % 8 > 5) dress(quotient(s.lg, s.cons[i]), w, s.lg) else woven(s.lg, s.cons[i], w))
    })
  action dressed(top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(3).oneOf()
    nondet nb = 0.to(2).oneOf()
    pure val g = generate(r, lg, nc, nb, 3)
    pure val t = fill(g)
    pure val s = tune(bound(g, t, r, if (g.cons.length() == 0) 1 + nb else nb), r2)
    poseAs(s, merge(clothe(s, r2), r2 / 2^130), t, (-1, 0, 0))
  }
  // longer traces, given by their rules
  action wide(lo: int, hi: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = lo.to(hi).oneOf()
    nondet nc = 1.to(2).oneOf()
    pure val s = tune(ruled(generate(r, lg, nc, 0, 3)), r2)
    poseAs(s, merge(clothe(s, r2), r2 / 2^130), [], (-1, 0, 0))
  }
  action init = dressed(2)
  action step = dressed(4)
  val laws = and {
    airLaws,
    // the degrees that matter are not affected
    es.foldl(true, (ok, e) => { val d = degree(e, 0, 1)  ok and d._1 - d._2 <= sysDegree(sys) })
  }
}
