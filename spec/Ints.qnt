// Integer mathematics shared by every specification: the ground truth is
// unbounded integer arithmetic.
module Ints {
  pure val W: int = 2^64
  pure val R256: int = 2^256

  pure def md(a: int, m: int): int = { pure val r = a % m  if (r < 0) r + m else r }
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def abs1(a: int): int = if (a < 0) -a else a

  // b^e mod m by square and multiply; e < 2^512
  pure def powmod(b: int, e: int, m: int): int =
    range(0, bitlen(e)).foldl((1 % m, md(b, m), e), (s, _) =>
      (if (s._3 % 2 == 1) (s._1 * s._2) % m else s._1, (s._2 * s._2) % m, s._3 / 2))._1

  // the same for a one-word exponent
  pure def powmod64(b: int, e: int, m: int): int =
    range(0, bitlen(e)).foldl((1 % m, md(b, m), e), (s, _) =>
      (if (s._3 % 2 == 1) (s._1 * s._2) % m else s._1, (s._2 * s._2) % m, s._3 / 2))._1

  // greatest common divisor, at most 800 Euclid steps (enough for 512 bits)
  pure def gcd(a: int, b: int): int =
    range(0, 400).foldl((a, b), (s, _) => if (s._2 == 0) s else (s._2, s._1 % s._2))._1

  // extended Euclid: <<g, s, t>> with s*a + t*b = g
  pure def egcd(a: int, b: int): (int, int, int) = {
    pure val f = range(0, 400).foldl((a, b, 1, 0, 0, 1), (s, _) =>
      if (s._2 == 0) s
      else { pure val q = s._1 / s._2
             (s._2, s._1 - q * s._2, s._4, s._3 - q * s._4, s._6, s._5 - q * s._6) })
    (f._1, f._3, f._5)
  }

  // inverse of a modulo m, or -1 when there is none (m >= 2)
  pure def invmod(a: int, m: int): int = {
    pure val e = egcd(md(a, m), m)
    if (e._1 == 1) md(e._2, m) else -1
  }

  // little-endian digits of v in the given base, exactly n of them
  pure def digits(v: int, base: int, n: int): List[int] =
    range(0, n).foldl(([], v), (s, _) => (s._1.append(s._2 % base), s._2 / base))._1

  pure def rev(l: List[int]): List[int] =
    l.foldl([], (s, x) => [x].concat(s))

  // number of bits needed: 0 for 0 (v < 2^512)
  pure def bitlen(v: int): int =
    if (v == 0) 0
    else [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((1, v), (s, k) =>
      if (s._2 >= 2^k) (s._1 + k, s._2 / 2^k) else s)._1

  // number of trailing zero bits, top when v is 0
  pure def ctz(v: int, top: int): int =
    if (v == 0) top
    else [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((0, v), (s, k) =>
      if (s._2 % 2^k == 0) (s._1 + k, s._2 / 2^k) else s)._1

  pure def popcount(v: int): int =
    range(0, 64).foldl((0, v), (s, _) =>
      (s._1 + [0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4][s._2 % 16], s._2 / 16))._1

  // conjunction of two 4 bit numbers
  pure def and4(a: int, b: int): int =
    (a % 2) * (b % 2) + 2 * ((a / 2) % 2) * ((b / 2) % 2)
    + 4 * ((a / 4) % 2) * ((b / 4) % 2) + 8 * (a / 8) * (b / 8)
  pure val AND4: List[int] =
    range(0, 256).foldl([], (s, i) => s.append(and4(i / 16, i % 16)))

  // bitwise conjunction of two 256 bit numbers
  pure def band(a: int, b: int): int =
    range(0, 64).foldl((0, a, b, 1), (s, _) =>
      (s._1 + s._4 * AND4[16 * (s._2 % 16) + s._3 % 16], s._2 / 16, s._3 / 16, 16 * s._4))._1

  // bit reversal of i within k bits
  pure def bitrev(i: int, k: int): int =
    range(0, k).foldl((0, i), (s, _) => (2 * s._1 + s._2 % 2, s._2 / 2))._1

  // ---- structured values: every limb comes from a class of interesting words
  pure def limb(c: int, r: int): int =
    [0, 1, W - 1, W - 2, 2^63, 2^63 - 1, 2^63 + 1, 2^32, 2^32 - 1,
     r % 2^32, r - r % 2^32, 0, W - 1, r, r, r][c]

  // 256 bit number from a 16 bit class word (4 bits per limb) and 256 random bits
  pure def shape(c: int, r: int): int =
    range(0, 4).foldl((0, 1, c, r), (s, _) =>
      (s._1 + s._2 * limb(s._3 % 16, s._4 % W), s._2 * W, s._3 / 16, s._4 / W))._1
}
