// C23: bit reversal and transposition as permutations of positions.
module Perm {
  import Ints.* from "./Ints"
  var lg: int                        // bit reversal over 2^lg positions
  var pairs: List[(int, int)]        // position, where it goes
  var side: int                      // square of side x side cells ...
  var stretch: int                   // ... of stretch entries each
  var moves: List[(int, int)]        // position, where it goes

  pure def target(n: int, s: int, p: int): int = {
    pure val k = p % s
    pure val j = (p / s) % n
    pure val i = p / (s * n)
    (j * n + i) * s + k
  }
  action step = {
    nondet k = 0.to(14).oneOf()
    nondet r = 0.to(R256 - 1).oneOf()
    nondet n0 = 0.to(130).oneOf()
    nondet s = 1.to(2).oneOf()
    // single entries are only transposed in pairs of rows
    pure val n = if (s == 1) n0 - n0 % 2 else n0
    pure val cells = n * n * s
    all {
      lg' = k,
      pairs' = range(0, 12).foldl([], (l, i) => { pure val p = (r / 2^(16 * i)) % 2^k  l.append((p, bitrev(p, k))) }),
      side' = n, stretch' = s,
      moves' = if (cells == 0) [] else range(0, 12).foldl([], (l, i) => {
        pure val p = (r / 2^(15 * i)) % cells  l.append((p, target(n, s, p))) })
    }
  }
  action init = step
  val laws = and {
    pairs.select(p => bitrev(p._2, lg) != p._1).length() == 0,
    moves.select(p => target(side, stretch, p._2) != p._1).length() == 0
  }
}
