// C22: inverses, powers, quadratic residues, square roots and roots of unity.
module FieldFun {
  import Ints.* from "./Ints"
  import Fields.* from "./Fields"

  var f: int
  var x: int                // a value of the field
  var e: int                // exponent, 256 bits
  var es: int               // signed word exponent
  var ord: int              // order of a root of unity
  var batch: List[int]      // values for batch inversion
  var obs: str -> int

  pure def outcome(g: int, v: int, ex: int, se: int, o: int): str -> int = {
    pure val p = PRIMES[g]
    Map(
      "inv" -> if (v == 0) -1 else invmod(v, p),
      "pow" -> powmod(v, ex, p),
      "powu" -> powmod(v, ex % W, p),
      "pows" -> if (se >= 0) powmod(v, se, p) else if (v == 0) -1 else powmod(invmod(v, p), -se, p),
      "euler" -> powmod(v, (p - 1) / 2, p),
      // the primitive root of order o, -1 where the group has none
      "root" -> if (o == 0) 1 else if ((p - 1) % o != 0) -1 else powmod(GENS[g], (p - 1) / o, p),
      "order" -> o
    )
  }
  pure def hasZero(l: List[int]): bool = l.select(v => v == 0).length() > 0

  action load(g: int, v: int, ex: int, se: int, o: int, l: List[int]): bool = all {
    f' = g, x' = v, e' = ex, es' = se, ord' = o, batch' = l,
    obs' = outcome(g, v, ex, se, o)
  }
  action init = load(0, 0, 0, 0, 0, [])

  // prime factors of the group orders that a root may be taken of
  pure val FACT: List[List[int]] = [
    [2, 2^3, 2^64, 2^192, 5, 7, 98714381, 166848103],
    [2, 3, 1481071, 74435395, 6, 1481071 * 3, 7, 4],
    [2, 4, 3, 65147, 12, 195441, 8, 5],
    [2, 4, 8, 16, 256, 3, 512, 128],
    [2, 2^17, 2^192, 113, 113 * 113, 179, 9391, 429702587]]

  action step = {
    nondet g = 0.to(7).oneOf()
    nondet hx = 0.to(19).oneOf()
    nondet cls = 0.to(2^16 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet he = 0.to(11).oneOf()
    nondet hs = 0.to(7).oneOf()
    nondet ho = 0.to(11).oneOf()
    nondet len = 0.to(30).oneOf()
    nondet zat = 0.to(60).oneOf()
    pure val fld = if (g < 4) 0 else if (g == 7) 4 else g - 3
    pure val p = PRIMES[fld]
    pure val v0 = if (hx < 8) unmont(fld, rep(fld, hx % 16, cls, r1))
                  else if (hx < 12) rep(fld, 6 + (hx + cls) % 10, cls, r1)
                  else r1 % p
    // squares, powers of the generator, roots of unity of large two-power order
    pure val v = if (hx == 13) (v0 * v0) % p
                 else if (hx == 14) powmod(GENS[fld], r1 % 64, p)
                 else if (hx == 15) powmod(GENS[fld], ((p - 1) / 2^(ctz(p - 1, 0))) * (r2 % 2^20), p)
                 else if (hx == 16) (((v0 * v0) % p) * GENS[fld]) % p
                 else if (hx == 17) powmod(GENS[fld], (p - 1) / 2^(1 + r1 % ctz(p - 1, 1)), p)
                 else v0
    pure val ex = if (he == 0) 0 else if (he == 1) 1 else if (he == 2) p - 1 else if (he == 3) p
                  else if (he == 4) p - 2 else if (he == 5) 2^(r2 % 256) else if (he == 6) R256 - 1
                  else if (he == 7) r2 % 2^64 else if (he == 8) r2 % 100
                  else if (he == 9) 2^64 * (r2 % 2^10) + r1 % 3 else shape(cls, r2)
    pure val se = if (hs == 0) -2^63 else if (hs == 1) 2^63 - 1 else if (hs == 2) -1 else if (hs == 3) -(r2 % 100)
                  else if (hs == 4) r2 % 100 else r2 % 2^64 - 2^63
    pure val o = if (ho < 5) FACT[fld][r2 % 8] else if (ho == 5) 0 else if (ho == 6) 1
                 else if (ho == 7) 2^(r2 % 256) else if (ho == 8) 2^(r2 % 64)
                 else if (ho == 9) r2 % 1000 else if (ho == 10) p - 1
                 else FACT[fld][r2 % 8] * FACT[fld][r1 % 8]
    pure val l = range(0, len).foldl(([], r2), (s, i) =>
      (s._1.append(if (i == zat) 0 else { pure val q = (s._2 * (i + 1) + v) % p  if (q == 0) 1 else q }), (s._2 * 3 + 7) % R256))._1
    load(fld, v, ex, se, if (o < R256) o else 1, l)
  }

  val p0 = PRIMES[f]
  val laws = and {
    x != 0 implies (obs.get("inv") * x) % p0 == 1,
    obs.get("euler") == 0 or obs.get("euler") == 1 or obs.get("euler") == p0 - 1,
    (ord > 1 and obs.get("root") >= 0) implies powmod(obs.get("root"), ord, p0) == 1,
    (ord % 2 == 0 and ord > 0 and obs.get("root") >= 0) implies powmod(obs.get("root"), ord / 2, p0) == p0 - 1
  }
}
