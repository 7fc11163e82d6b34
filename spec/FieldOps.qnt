// C21: arithmetic in a prime field. Operands are chosen by representation (the
// library stores x 2^256 mod p) because that is where carries and the final
// subtraction happen; results are given as representations too, so that a
// result that is right modulo p but not canonical is noticed.
module FieldOps {
  import Ints.* from "./Ints"
  import Fields.* from "./Fields"

  var f: int
  var x: int                // representation of the left operand
  var y: int                // representation of the right operand
  var n: int                // any 256 bit number
  var ty: int               // native type of the conversion
  var k: int                // a value of that type
  var obs: str -> int

  pure val BITS: List[int] = [8, 16, 32, 64, 128, 64]
  // native types: 0..5 unsigned u8 u16 u32 u64 u128 usize, 6..11 signed
  pure def low(t: int): int = if (t < 6) 0 else -2^(BITS[t - 6] - 1)
  pure def high(t: int): int = if (t < 6) 2^BITS[t] - 1 else 2^(BITS[t - 6] - 1) - 1

  pure def within(v: int, lo: int, hi: int): int = if (lo <= v and v <= hi) 1 else 0

  pure def outcome(g: int, a: int, b: int, m: int, i: int): str -> int = {
    pure val p = PRIMES[g]
    pure val va = unmont(g, a)
    pure val vb = unmont(g, b)
    pure val s = if (va < p / 2) va else va - p
    Map(
      "vx" -> va, "vy" -> vb,
      "add" -> (a + b) % p,
      "sub" -> md(a - b, p),
      "mul" -> (va * b) % p,
      "div" -> if (b == 0) -1 else (a * invmod(vb, p)) % p,
      "neg" -> md(-a, p),
      "dbl" -> (2 * a) % p,
      "tri" -> (3 * a) % p,
      "sq" -> (va * a) % p,
      "red" -> mont(g, m % p),
      "cst" -> mont(g, md(i, p)),
      "fit" -> within(m, 0, p - 1),
      "signed" -> s,
      "u128" -> within(va, 0, 2^128 - 1),
      "i128" -> within(s, -2^127, 2^127 - 1),
      "u64" -> within(va, 0, 2^64 - 1),
      "i64" -> within(s, -2^63, 2^63 - 1)
    )
  }

  action load(g: int, a: int, b: int, m: int, t: int, i: int): bool = all {
    f' = g, x' = a, y' = b, n' = m, ty' = t, k' = i, obs' = outcome(g, a, b, m, i)
  }
  action init = load(0, 0, 0, 0, 0, 0)

  action step = {
    nondet g = 0.to(9).oneOf()
    nondet hx = 0.to(15).oneOf()
    nondet hy = 0.to(23).oneOf()
    nondet cls = 0.to(2^32 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet hn = 0.to(7).oneOf()
    nondet t = 0.to(11).oneOf()
    nondet hi = 0.to(7).oneOf()
    nondet cont = 0.to(7).oneOf()
    pure val nf = if (g < 4) 0 else if (g < 6) 1 else g - 5
    pure val fld = if (nf > 4) 0 else nf
    pure val p = PRIMES[fld]
    // continue the history with a result, or start from a fresh operand
    val a = if (cont == 0 and f == fld) obs.get("mul")
            else if (cont == 1 and f == fld) obs.get("add")
            else if (cont == 2 and f == fld) obs.get("sub")
            else rep(fld, hx, cls % 2^16, r1)
    // the right operand: fresh, equal, opposite, or such that the product, sum
    // or difference is a chosen boundary representation
    pure val target = rep(fld, 6 + r2 % 10, 0, r1 / 3)
    val va = unmont(fld, a)
    val b = if (hy < 16) rep(fld, hy, cls / 2^16, r2)
            else if (hy == 16) a
            else if (hy == 17) md(-a, p)
            else if (hy < 21 and va != 0) (target * invmod(va, p)) % p
            else if (hy == 21) md(target - a, p)
            else if (hy == 22) md(a - target, p)
            else 0
    pure val m = if (hn == 0) p else if (hn == 1) p - 1 else if (hn == 2) R256 - 1 - r1 % 3
                 else if (hn == 3) (p * (1 + r1 % (R256 / p))) - r2 % 2
                 else if (hn == 4) (p * (1 + r1 % (R256 / p)) + r2 % 2) % R256
                 else shape(cls / 2^16, r2)
    pure val i = if (hi == 0) low(t) else if (hi == 1) high(t) else if (hi == 2) low(t) + r1 % 3
                 else if (hi == 3) high(t) - r1 % 3 else if (hi == 4 and t > 5) -1 - r1 % 3
                 else if (hi == 5) r1 % 3 else low(t) + r1 % (high(t) - low(t) + 1)
    load(fld, a, b, m, t, i)
  }

  val p0 = PRIMES[f]
  val laws = and {
    0 <= x and x < p0 and 0 <= y and y < p0,
    obs.get("add") == mont(f, (obs.get("vx") + obs.get("vy")) % p0),
    obs.get("mul") == mont(f, (obs.get("vx") * obs.get("vy")) % p0),
    (obs.get("sub") + y) % p0 == x,
    y != 0 implies (obs.get("div") * obs.get("vy")) % p0 == x,
    mont(f, obs.get("vx")) == x
  }
}
