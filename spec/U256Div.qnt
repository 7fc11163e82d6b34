// C18: division of 256-bit integers and modular multiplication. A state holds
// a division problem and its unique solution; `addback` and `adjust` follow
// Knuth's Algorithm D on the same operands, so that runs can show that its
// rare correction branches were exercised.
module U256Div {
  import Ints.* from "./Ints"

  var a: int      // dividend / first factor
  var b: int      // divisor
  var c: int      // second factor of the modular product
  var m: int      // modulus of the modular product
  var w: int      // one-word divisor
  var obs: str -> int

  pure def limbsOf(x: int): int = (bitlen(x) + 63) / 64

  // Algorithm D on num = (num digits) by den, base 2^64, after normalisation:
  // how many digits need the first/second estimate correction and how many the
  // final add-back; and how many need two corrections and the add-back.
  pure def knuth(num: int, den: int, digitsN: int): (int, int, int) = {
    pure val n = limbsOf(den)
    if (n < 2) (0, 0, 0) else {
      pure val sh = 64 * n - bitlen(den)
      pure val d = den * 2^sh
      pure val d1 = d / W^(n - 1)
      pure val d2 = d / W^(n - 2)
      range(0, digitsN - n + 1).foldl((num * 2^sh, 0, 0, 0), (s, i) => {
        pure val j = digitsN - n - i
        pure val est1 = min2(s._1 / W^(j + n - 1) / d1, W - 1)  // two by one estimate
        pure val est2 = min2(s._1 / W^(j + n - 2) / d2, W - 1)  // three by two estimate
        pure val q = s._1 / W^j / d
        (s._1 - q * d * W^j, s._2 + (if (est1 > est2) 1 else 0), s._3 + (if (est2 > q) 1 else 0),
         s._4 + (if (est1 > est2 + 1 and est2 > q) 1 else 0))
      }).counts()
    }
  }
  pure def counts(t: (int, int, int, int)): (int, int, int) = (t._2, t._3, t._4)

  pure def outcome(x: int, y: int, z: int, k: int, p: int): str -> int = {
    pure val kd = knuth(x, y, 4)
    pure val km = knuth(x * z, k, 8)
    Map(
      "q" -> if (y == 0) -1 else x / y, "r" -> if (y == 0) -1 else x % y,
      "qw" -> if (p == 0) -1 else x / p, "rw" -> if (p == 0) -1 else x % p,
      "mulmod" -> if (k == 0) -1 else (x * z) % k,
      "adjust" -> kd._1, "addback" -> kd._2, "madjust" -> km._1, "maddback" -> km._2, "both" -> kd._3, "mboth" -> km._3
    )
  }

  action load(x: int, y: int, z: int, k: int, p: int): bool = all {
    a' = x, b' = y, c' = z, m' = k, w' = p, obs' = outcome(x, y, z, k, p)
  }

  action init = load(0, 0, 0, 0, 0)

  // a divisor of a chosen number of words
  pure def trim(x: int, words: int): int = x % W^words

  action step = {
    nondet cls = 0.to(2^64 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet r3 = 0.to(R256 - 1).oneOf()
    nondet how = 0.to(25).oneOf()
    nondet words = 1.to(4).oneOf()
    nondet sh = 0.to(255).oneOf()
    pure val y0 = trim(shape(cls % 2^16, r2), words)
    // top word with the high bit set and nothing below, the hard divisors
    pure val y1 = (2^63 + limb((cls / 2^16) % 16, r2 % W) % 2^63) * W^(words - 1) + limb((cls / 2^20) % 16, r3 % W) % W^(words - 1)
    pure val y2 = y1 / 2^(sh % 64)
    // least leading word with the largest below it: the first estimate is two
    // too large, and the second one more when the remainder is nearly the divisor
    pure val y3 = ((2^63 + cls % 3) * W^3 + (W - 1 - (cls / 4) % 3) * W^2 + limb((cls / 16) % 16, r2 % W) * W + limb((cls / 256) % 16, r3 % W)) / W^(4 - words)
    pure val y4 = max2(1, y3 / 2^(if (cls % 2 == 0 and words < 4) 0 else sh % 64))
    val y = if (how >= 20) y4 else if (how < 6) y0 else if (how < 10) y1 else if (how < 13) y2
            else if (how == 13) 2^sh else if (how == 14) 2^sh - 1 else if (how == 15) a
            else if (how == 16) obs.get("mulmod") else y0
    pure val q = trim(shape((cls / 2^24) % 2^16, r1), 5 - words)
    pure val x0 = shape((cls / 2^40) % 2^16, r1)
    val yy = max2(y, 0)
    // dividends at and around multiples of the divisor
    pure val most = (R256 - 1) / y4
    pure val q4 = if (cls % 5 == 0) most - 1 - (cls / 8) % 40 else if (cls % 5 == 1) r1 % max2(1, most)
                  else min2(most, W - 1 - (cls / 8) % 40) - 1
    pure val z4 = W^(sh % 4)
    val x = if (how >= 23) ((max2(q4, 0) + 1) * y4 * (W^3 / z4) - 1) / W^3 % R256
            else if (how >= 20) max2(0, (max2(q4, 0) + 1) * y4 - 1 - (if (sh % 2 == 0) 0 else r3 % W)) % R256
            else if (how % 5 == 0) x0
            else if (how % 5 == 1) (q * yy) % R256
            else if (how % 5 == 2) md(q * yy - 1, R256)
            else if (how % 5 == 3) (q * yy + yy - (if (yy == 0) 0 else 1)) % R256
            else (yy * W^(4 - min2(4, max2(1, limbsOf(yy)))) + x0 % W^(4 - min2(4, max2(1, limbsOf(yy))))) % R256
    pure val z = if (how >= 23) z4 else if (how == 17) 2^sh else if (how == 18) 1 else shape((cls / 2^8) % 2^16, r3)
    pure val p = limb((cls / 2^60) % 16, r3 % W)
    load(x, yy % R256, z, if (how >= 23) y4 else if (sh % 3 == 0) max2(y, 0) % R256 else trim(shape(cls % 2^16, r3), 1 + sh % 4), p)
  }

  // the division theorem characterises the outcome uniquely
  val laws = and {
    b != 0 implies and { obs.get("q") * b + obs.get("r") == a, obs.get("r") >= 0, obs.get("r") < b },
    w != 0 implies and { obs.get("qw") * w + obs.get("rw") == a, obs.get("rw") < w },
    m != 0 implies and { obs.get("mulmod") < m, (a * c - obs.get("mulmod")) % m == 0 },
    obs.get("adjust") >= 0, obs.get("addback") >= 0,
    // no digit needs two corrections and the add-back
    obs.get("both") == 0, obs.get("mboth") == 0
  }
}
