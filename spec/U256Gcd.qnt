// C19: greatest common divisors and inverses. Operands are built from lists of
// continued fraction quotients, so that Euclid's sequence visits chosen
// quotient sizes (ones, small, around the unrolling limits, half words, words).
module U256Gcd {
  import Ints.* from "./Ints"

  var a: int
  var b: int
  var m: int                // modulus for the modular inverse
  var obs: str -> int

  // one quotient from a profile and 16 random bits
  pure def quotient(profile: int, r: int): int =
    if (profile == 0) 1
    else if (profile == 1) 1 + r % 3
    else if (profile == 2) 14 + r % 10
    else if (profile == 3) 2^(r % 34) + (r / 64) % 2
    else if (profile == 4) 2^32 - 2 + r % 5
    else if (profile == 5) 2^(60 + r % 8) - 1 + (r / 64) % 3
    else if (profile == 6) 1 + r % 40
    else if (profile == 7) (if (r % 16 == 0) 2^(r / 256) else 1 + r % 2)
    else if (profile == 8) (if (r % 8 == 0) 2^32 - 1 + r / 512 else 1)
    else 1 + r

  // number pair with the given quotient sequence, at most 256 bits
  pure def pairFrom(g: int, profile: int, r: int, s: int): (int, int) =
    range(0, 190).foldl((g, 0, r, true), (t, i) => {
      pure val nx = quotient(profile, (t._3 + s * i) % 65536) * t._1 + t._2
      if (t._4 and nx < R256) (nx, t._1, (t._3 * 25173 + 13849 + s) % 2^32, true) else (t._1, t._2, t._3, false)
    }).first2()
  pure def first2(t: (int, int, int, bool)): (int, int) = (t._1, t._2)

  pure def outcome(x: int, y: int, k: int): str -> int = {
    pure val g = gcd(x, y)
    Map(
      "gcd" -> g,
      "inv" -> if (k < 2) -2 else invmod(x, k),
      "inv2" -> if (x % 2 == 0) -1 else invmod(x, R256)
    )
  }

  action load(x: int, y: int, k: int): bool = all {
    a' = x, b' = y, m' = k, obs' = outcome(x, y, k)
  }
  action init = load(0, 0, 0)

  pure val P251 = 2^251 + 17 * 2^192 + 1
  pure val EC = 0x0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f

  action step = {
    nondet cls = 0.to(2^48 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet how = 0.to(23).oneOf()
    nondet profile = 0.to(9).oneOf()
    nondet rq = 0.to(2^32 - 1).oneOf()
    nondet sz = 0.to(256).oneOf()
    pure val g = if (how % 4 == 0) 1 else if (how % 4 == 1) 1 + rq % 1000 else if (how % 4 == 2) 1 + r1 % 2^64 else 1 + r1 % 2^(sz % 200)
    pure val pr = pairFrom(g, profile, rq, r2 % 1021)
    pure val x0 = shape(cls % 2^16, r1)
    pure val y0 = shape((cls / 2^16) % 2^16, r2)
    pure val xs = r1 % 2^sz
    pure val ys = r2 % 2^(max2(0, sz - rq % 40))
    val x = if (how < 10) pr._1 else if (how < 12) pr._2 else if (how < 16) x0 else if (how < 20) xs
            else if (how == 20) b else if (how == 21) 0 else if (how == 22) R256 - 1 - rq % 3 else x0
    val y = if (how < 10) pr._2 else if (how < 12) pr._1 else if (how < 16) y0 else if (how < 20) ys
            else if (how == 20) a else if (how == 21) y0 else if (how == 22) y0 else x
    val k = if (how < 8) y else if (how < 10) pr._1 else if (how < 12) y else if (how == 12) P251 else if (how == 13) EC
            else if (how == 14) 2^(sz % 256) else if (how == 15) R256 - 1 - rq % 200 else y
    load(x, y, k)
  }

  val laws = and {
    a != 0 implies a % obs.get("gcd") == 0,
    b != 0 implies b % obs.get("gcd") == 0,
    m >= 2 implies (obs.get("inv") >= 0) == (gcd(a, m) == 1),
    (m >= 2 and obs.get("inv") >= 0) implies and { (a * obs.get("inv")) % m == 1, obs.get("inv") < m },
    obs.get("inv2") >= 0 implies (a * obs.get("inv2")) % R256 == 1
  }
}
