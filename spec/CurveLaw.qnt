// The curve y^2 = x^3 + x + B over the field of 2^251 + 17 2^192 + 1: its group
// by the textbook chord-and-tangent law, and scalar multiples.
module CurveLaw {
  import Ints.* from "./Ints"
  import Fields.* from "./Fields"

  pure val B: int = 0x06f21413efbe40de150e596d72f7a8c5609ad26c15c915c1f4cdfcb99cee9e89
  pure val GX: int = 0x01ef15c18599971b7beced415a40f0c7deacfd9b0d1819e03d723d8bc943cfca
  pure val GY: int = 0x005668060aa49730b7be4801df46ec62de53ecd11abe43a32873000c36e8dc1f
  // a point is its pair of coordinates; the neutral element is (-1, -1)
  pure val O: (int, int) = (-1, -1)
  pure val G: (int, int) = (GX, GY)
  pure val p: int = P251
  pure val n: int = NORD

  pure def onCurve(a: (int, int)): bool =
    a == O or (a._2 * a._2 - a._1 * a._1 * a._1 - a._1 - B) % p == 0

  pure def neg(a: (int, int)): (int, int) = if (a == O) O else (a._1, md(-a._2, p))

  pure def through(a: (int, int), b: (int, int), m: int): (int, int) = {
    pure val x = md(m * m - a._1 - b._1, p)
    (x, md(m * (a._1 - x) - a._2, p))
  }
  pure def dbl(a: (int, int)): (int, int) =
    if (a == O or a._2 == 0) O
    else through(a, a, ((3 * a._1 * a._1 + 1) * invmod(2 * a._2, p)) % p)
  pure def sum(a: (int, int), b: (int, int)): (int, int) =
    if (a == O) b
    else if (b == O) a
    else if (a._1 == b._1) { if (a._2 == b._2) dbl(a) else O }
    else through(a, b, ((a._2 - b._2) * invmod(a._1 - b._1, p)) % p)

  // the same law on homogeneous coordinates (X : Y : Z), free of inversions; used
  // for multiples, where it is far cheaper; (0 : 1 : 0) is the neutral element
  pure def pdbl(a: (int, int, int)): (int, int, int) = {
    pure val w = (3 * a._1 * a._1 + a._3 * a._3) % p
    pure val s = (a._2 * a._3) % p
    pure val q = (a._1 * a._2 * s) % p
    pure val h = md(w * w - 8 * q, p)
    (md(2 * h * s, p), md(w * (4 * q - h) - 8 * a._2 * a._2 * s * s, p), (8 * s * s * s) % p)
  }
  pure def padd(a: (int, int, int), b: (int, int, int)): (int, int, int) =
    if (a._3 == 0) b
    else if (b._3 == 0) a
    else {
      pure val u = md(b._2 * a._3 - a._2 * b._3, p)
      pure val v = md(b._1 * a._3 - a._1 * b._3, p)
      if (v == 0) { if (u == 0) pdbl(a) else (0, 1, 0) }
      else {
        pure val zz = (a._3 * b._3) % p
        pure val vv = (v * v) % p
        pure val vvv = (vv * v) % p
        pure val r = (vv * a._1 * b._3) % p
        pure val t = md(u * u * zz - vvv - 2 * r, p)
        (md(v * t, p), md(u * (r - t) - vvv * a._2 * b._3, p), (vvv * zz) % p)
      }
    }
  pure def lift(a: (int, int)): (int, int, int) = if (a == O) (0, 1, 0) else (a._1, a._2, 1)
  pure def drop(a: (int, int, int)): (int, int) =
    if (a._3 == 0) O else { pure val i = invmod(a._3, p)  ((a._1 * i) % p, (a._2 * i) % p) }

  // k times a
  pure def ptimes(a: (int, int), k: int): (int, int, int) =
    range(0, bitlen(k)).foldl(((0, 1, 0), lift(a), k), (s, _) =>
      (if (s._3 % 2 == 1) padd(s._1, s._2) else s._1, pdbl(s._2), s._3 / 2))._1
  pure def times(a: (int, int), k: int): (int, int) = drop(ptimes(a, k))
  // k a + l b
  pure def both(a: (int, int), k: int, b: (int, int), l: int): (int, int) =
    drop(padd(ptimes(a, k), ptimes(b, l)))
}
