// C24: two registers of curve points, moved by group operations; every state
// gives the results of all operations on them.
module Curve {
  import Ints.* from "./Ints"
  import CurveLaw.* from "./CurveLaw"

  var P: (int, int)
  var Q: (int, int)
  var a: int                  // scalars
  var b: int
  var lam: int                // projective scale factors, non zero
  var mu: int
  var off: (int, int)         // any pair of coordinates
  var cost: bool              // whether the multiples below were computed
  var obs: { add: (int, int), sub: (int, int), dbl: (int, int), neg: (int, int), mul: (int, int), two: (int, int),
             offOn: bool }

  action load(x: (int, int), y: (int, int), k: int, l: int, la: int, m: int, o: (int, int), full: bool): bool = all {
    P' = x, Q' = y, a' = k, b' = l, lam' = la, mu' = m, off' = o, cost' = full,
    obs' = { add: sum(x, y), sub: sum(x, neg(y)), dbl: dbl(x), neg: neg(x),
             mul: if (full) times(x, k) else O, two: if (full) both(x, k, y, l) else O, offOn: onCurve(o) }
  }
  action init = load(G, G, 1, 1, 1, 1, G, true)

  // scalars that exercise the signed digit expansion: tiny, near the order,
  // powers of two, runs of ones, alternating digits, window boundaries
  pure def scalar(h: int, r: int): int = {
    pure val v =
      if (h == 0) r % 4 else if (h == 1) r % 300 else if (h == 2) n - 1 - r % 300
      else if (h == 3) 2^(r % 252) else if (h == 4) 2^(r % 252) - 1 + 2 * (r / 2^9 % 2)
      else if (h == 5) 2^(1 + r % 251) - 2^(r / 2^9 % (1 + r % 251))
      else if (h == 6) (2^250 / 31) * (1 + r % 30)
      else if (h == 7) (2^250 / 127) * (1 + r % 126)
      else if (h == 8) 16 * 2^(5 * (r % 50)) + (r / 2^9) % 33
      else if (h == 9) 64 * 2^(7 * (r % 35)) + (r / 2^9) % 130
      else if (h == 10) n - 2^(r % 251)
      else if (h == 11) r % 2^(1 + r % 251)
      else r
    v % n
  }

  action step = {
    nondet hp = 0.to(11).oneOf()
    nondet hq = 0.to(9).oneOf()
    nondet ha = 0.to(15).oneOf()
    nondet hb = 0.to(19).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet small = 0.to(20).oneOf()
    nondet full = 0.to(3).oneOf()
    val x = if (hp == 0) G else if (hp == 1) obs.add else if (hp == 2) obs.sub else if (hp == 3) obs.dbl
            else if (hp == 4) (if (cost) obs.mul else P) else if (hp == 5) (if (cost) obs.two else P)
            else if (hp == 6) Q else if (hp == 7) neg(P) else if (hp == 8) times(G, small)
            else if (hp == 9) (if (small == 0) O else P) else if (hp == 10) times(G, r2 % n) else P
    val y = if (hq < 2) x else if (hq == 2) neg(x) else if (hq == 3) G else if (hq == 4) dbl(x)
            else if (hq == 5) (if (small < 6) O else neg(dbl(x))) else if (hq == 6) times(x, small) else Q
    pure val k = scalar(ha, r1)
    // the second scalar may equal, oppose or cancel the first
    pure val l = if (hb < 13) scalar(hb, r2) else if (hb < 16) k else if (hb == 16) md(-k, n)
                 else if (hb == 17) (2 * k) % n else if (hb == 18) (k + 1) % n else scalar(12, r2)
    val o = if (small < 4) (x._1, md(x._2 + small, p)) else if (small < 6) (r1 % p, r2 % p)
            else if (small == 6) (0, 0) else if (small == 7) (md(x._1 + 1, p), md(x._2, p)) else y
    load(x, y, k, l, 1 + r1 % (p - 1), if (full == 1) 1 else 1 + r2 % (p - 1), if (o._1 < 0 and o != O) G else o, full == 0)
  }

  val laws = and {
    onCurve(P), onCurve(Q), onCurve(obs.add), onCurve(obs.sub), onCurve(obs.dbl), onCurve(obs.mul), onCurve(obs.two),
    sum(obs.sub, Q) == P,
    sum(obs.add, obs.neg) == Q,
    obs.dbl == sum(P, P),
    cost implies sum(obs.mul, P) == times(P, a + 1)
  }
}
