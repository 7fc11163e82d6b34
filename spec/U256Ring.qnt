// C17: the register machine of 256-bit integers. Registers a, b, c hold
// integers in 0..2^256-1; every state carries the exact outcome of every ring,
// bit and order operation on the registers.
module U256Ring {
  import Ints.* from "./Ints"

  var a: int
  var b: int
  var c: int
  var n: int          // shift amount / bit index
  var w: int          // 64-bit word operand
  var v: int          // second word operand
  var u: int          // third word operand
  var obs: str -> int

  pure def m(x: int): int = md(x, R256)

  pure def outcome(x: int, y: int, z: int, k: int, p: int, q: int, t: int): str -> int = {
    pure val conj = band(x, y)
    pure val sh = if (k < 256) k else 256
    Map(
      "add" -> m(x + y), "carry" -> (x + y) / R256,
      "sub" -> m(x - y), "borrow" -> if (x < y) 1 else 0,
      "neg" -> m(-x),
      "mul" -> m(x * y), "mulhi" -> (x * y) / R256,
      "sq" -> m(x * x), "sqhi" -> (x * x) / R256,
      "mulw" -> m(x * p), "mulwhi" -> (x * p) / R256,
      "pow" -> powmod64(x, p, R256),
      "muladd" -> m(x * y + z),
      "sum" -> m(x + y + z), "sum0" -> 0, "prod" -> m(x * y * z), "prod0" -> 1,
      "and" -> conj, "or" -> x + y - conj, "xor" -> x + y - 2 * conj, "not" -> R256 - 1 - x,
      "andw" -> band(x % W, p),
      "shl" -> m(x * 2^sh), "shr" -> x / 2^sh,
      "bit" -> if (k < 256) (x / 2^k) % 2 else 0,
      "ones" -> popcount(x), "zeros" -> 256 - popcount(x),
      "lz" -> 256 - bitlen(x), "tz" -> ctz(x, 256), "bits" -> bitlen(x), "msb" -> bitlen(x) - 1,
      "cmp" -> if (x < y) -1 else if (x == y) 0 else 1,
      "iszero" -> if (x == 0) 1 else 0, "isone" -> if (x == 1) 1 else 0,
      "adc_lo" -> (p + q + t) % W, "adc_hi" -> (p + q + t) / W,
      "sbb_lo" -> md(p - q - t % 2, W), "sbb_hi" -> if (p < q + t % 2) 1 else 0,
      "mac_lo" -> (p + q * t + x % W) % W, "mac_hi" -> (p + q * t + x % W) / W,
      "msb_lo" -> md(p - q * t - x % W, W),
      "msb_hi" -> (md(p - q * t - x % W, W) - (p - q * t - x % W)) / W,
      "div21_q" -> if (t == 0) 0 else ((p % t) * W + q) / t,
      "div21_r" -> if (t == 0) 0 else ((p % t) * W + q) % t
    )
  }

  action load(x: int, y: int, z: int, k: int, p: int, q: int, t: int): bool = all {
    a' = x, b' = y, c' = z, n' = k, w' = p, v' = q, u' = t,
    obs' = outcome(x, y, z, k, p, q, t)
  }

  action init = load(0, 0, 0, 0, 0, 0, 0)

  // Registers are reloaded with structured words, or continue from results of
  // the previous step, so that values travel through sequences of operations.
  action step = {
    nondet cls = 0.to(2^36 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet r3 = 0.to(R256 - 1).oneOf()
    nondet how = 0.to(23).oneOf()
    nondet kk = 0.to(271).oneOf()
    pure val x0 = shape(cls % 2^16, r1)
    pure val y0 = shape((cls / 2^16) % 2^16, r2)
    pure val p = limb((cls / 2^32) % 16, r3 % W)
    pure val q = limb(r3 / 2^128 % 16, (r3 / W) % W)
    pure val t = limb(r3 / 2^132 % 16, (r3 / 2^192) % W)
    val x = if (how == 0) obs.get("add") else if (how == 1) obs.get("mul") else if (how == 2) obs.get("sub")
            else if (how == 3) obs.get("shl") else if (how == 4) obs.get("xor") else if (how == 5) obs.get("mulhi")
            else if (how == 6) 2^(kk % 256) else if (how == 7) 2^(kk % 256) - 1 else x0
    val y = if (how == 8) x else if (how == 9) m(x + 1) else if (how == 10) m(x - 1) else if (how == 11) m(-x)
            else if (how == 12) R256 - 1 - x else if (how == 13) m(x + 2^(64 * (kk % 4)))
            else if (how == 14) 2^(kk % 256) else if (how == 15) m(-p) else y0
    val z = if (how == 16) m(-(x + y)) else if (how == 17) m(-(x * y)) else shape((cls / 2^20) % 2^16, r3)
    load(x, y, z, if (kk > 260) [512, 1024, 257, 2^32, 2^63, 2^64 - 1, 320, 255, 256, 300, 65535][kk - 261] else kk, p, q, t)
  }

  // Sanity of the specification itself: algebraic laws linking the outcomes.
  val laws = and {
    obs.get("add") + R256 * obs.get("carry") == a + b,
    obs.get("mul") + R256 * obs.get("mulhi") == a * b,
    m(obs.get("sub") + b) == a,
    obs.get("and") + obs.get("xor") == obs.get("or"),
    n < 256 implies obs.get("shr") * 2^n <= a,
    obs.get("ones") + obs.get("zeros") == 256,
    obs.get("bits") + obs.get("lz") == 256
  }
}
