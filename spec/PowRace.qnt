// C06: the search for a proof of work on its own, so that it can be repeated
// often enough for its threads to meet. The specification hashes for itself and
// says which nonce is the smallest; tla/PowSearch.tla says that every
// interleaving of the search ends with that one.
module PowRace {
  import Ints.* from "./Ints"
  import Keccak.* from "./Keccak"

  var seed: List[int]        // what the search is bound to
  var difficulty: int
  var least: int             // the smallest nonce that is worth it
  var known: bool            // whether it is among the nonces tried here
  var threads: int
  var repeats: int

  pure def be(v: int, n: int): List[int] = rev(digits(v, 256, n))
  pure def hash(l: List[int]): int = keccak256(l).foldl(0, (s, b) => 256 * s + b)
  pure def bound(s: List[int], d: int): List[int] =
    be(hash(be(0x0123456789abcded, 8).concat(s).append(d)), 32)
  pure def worth(b: List[int], d: int, nonce: int): bool = hash(b.concat(be(nonce, 8))) < 2^(256 - d)

  action posed(top: int): bool = {
    nondet r = 0.to(2^256 - 1).oneOf()
    nondet d = 0.to(top).oneOf()
    nondet th = 1.to(12).oneOf()
    pure val s = be(r, 32)
    pure val b = bound(s, d)
    pure val found = range(0, 6 * 2^d + 8).foldl(-1, (k, n) => if (k >= 0) k else if (worth(b, d, n)) n else -1)
    all {
      seed' = s, difficulty' = d, least' = found, known' = found >= 0, threads' = th, repeats' = if (d < 3) 4000 else if (d < 6) 1000 else 100
    }
  }
  // difficulty 0 needs no luck
  action init = posed(0)
  action step = posed(3)
  action deep = posed(7)

  val laws = not(known) or worth(bound(seed, difficulty), difficulty, least)
}
