// C23: the discrete Fourier transform. Short vectors are transformed by the
// definition. Long ones are given in closed form (a geometric sequence plus
// sparse terms), so that the definition's sum has a closed form as well.
module Fft {
  import Ints.* from "./Ints"
  import Fields.* from "./Fields"

  var f: int
  var lg: int                 // log2 of the length
  var vec: List[int]          // short vectors, [] for long ones
  var gc: int                 // long vectors: gc gr^i + sum of sparse terms
  var gr: int
  var sparse: List[(int, int)]
  var cof: int                // coset factor, non zero
  var threads: int
  var out: { fft: List[int], ifft: List[int], cfft: List[int], cifft: List[int] }
  var at: List[int]           // natural positions looked at in long transforms
  var val1: List[int]         // fft there
  var val2: List[int]         // coset fft there
  var rootn: int

  pure def root(g: int, k: int): int = powmod(GENS[g], (PRIMES[g] - 1) / 2^k, PRIMES[g])
  pure def eval(p: int, a: List[int], x: int): int =
    a.foldl((0, 1), (s, c) => ((s._1 + c * s._2) % p, (s._2 * x) % p))._1
  // values at shift w^bitrev(i)
  pure def transform(p: int, a: List[int], w: int, shift: int, k: int): List[int] =
    range(0, 2^k).foldl([], (s, i) => s.append(eval(p, a, (shift * powmod64(w, bitrev(i, k), p)) % p)))
  pure def scale(p: int, a: List[int], c: int): List[int] =
    a.foldl([], (s, v) => s.append((v * c) % p))

  // entry i of a bit-reversed vector is multiplied by c^bitrev(i)
  pure def shiftedRev(p: int, a: List[int], c: int, k: int): List[int] =
    range(0, a.length()).foldl([], (s, i) => s.append((a[i] * powmod64(c, bitrev(i, k), p)) % p))

  pure val none: { fft: List[int], ifft: List[int], cfft: List[int], cifft: List[int] } =
    { fft: [], ifft: [], cfft: [], cifft: [] }

  // value at x of gc sum gr^i x^i + sum c x^k over n terms
  pure def closed(p: int, n: int, c: int, r: int, sp: List[(int, int)], x: int): int = {
    pure val q = (r * x) % p
    pure val geo = if (q == 1) (c * n) % p
                   else (((c * (powmod64(q, n, p) - 1 + p)) % p) * invmod(q - 1, p)) % p
    sp.foldl(geo, (s, t) => (s + t._2 * powmod64(x, t._1, p)) % p)
  }

  action small = {
    nondet g = 0.to(3).oneOf()
    nondet k = 0.to(5).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet h = 0.to(5).oneOf()
    nondet th = 1.to(5).oneOf()
    pure val fld = if (g == 2) 3 else if (g == 3) 4 else 0
    pure val p = PRIMES[fld]
    pure val w = root(fld, k)
    pure val a = range(0, 2^k).foldl(([], r1), (s, i) =>
      (s._1.append(if (h == 0) p - 1 else if (h == 1) (if (i == r2 % 2^k) 1 else 0) else if (h == 2) (if (s._2 % 3 == 0) 0 else s._2 % p) else s._2 % p),
       (s._2 * 6364136223846793005 + r2 + i) % R256))._1
    pure val c = 1 + r2 % (p - 1)
    pure val ninv = invmod(2^k, p)
    pure val inv = scale(p, transform(p, a, invmod(w, p), 1, k), ninv)
    all {
      f' = fld, lg' = k, vec' = a, gc' = 0, gr' = 0, sparse' = [], cof' = c, threads' = th,
      out' = { fft: transform(p, a, w, 1, k), ifft: inv, cfft: transform(p, a, w, c, k),
               cifft: shiftedRev(p, inv, invmod(c, p), k) },
      at' = [], val1' = [], val2' = [], rootn' = w
    }
  }

  action large = { nondet k = 9.to(LARGEST).oneOf()  long(k) }
  // sizes are enumerated: every length class of the implementation is reached
  action upTo(top: int): bool = long(if (lg >= top) 9 else lg + 1)
  action long(k: int): bool = {
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet h = 0.to(3).oneOf()
    nondet th = 1.to(5).oneOf()
    pure val p = P251
    pure val w = root(0, k)
    pure val c = if (h == 0) 0 else r1 % p
    pure val r = if (h == 1) powmod64(w, r2 % 2^k, p) else r2 % p
    pure val sp = range(0, 3).foldl([], (s, i) => s.append(((r1 / 2^(20 * i + 7)) % 2^k, (r2 / 3^i) % p)))
    pure val cf = 1 + (r1 / 5) % (p - 1)
    pure val pos = range(0, 6).foldl([], (s, i) => s.append((r2 / 2^(17 * i)) % 2^k))
    all {
      f' = 0, lg' = k, vec' = [], gc' = c, gr' = r, sparse' = sp, cof' = cf, threads' = th, out' = none,
      at' = pos,
      val1' = pos.foldl([], (s, j) => s.append(closed(p, 2^k, c, r, sp, powmod64(w, j, p)))),
      val2' = pos.foldl([], (s, j) => s.append(closed(p, 2^k, c, r, sp, (cf * powmod64(w, j, p)) % p))),
      rootn' = w
    }
  }
  pure val LARGEST: int = 14

  action init = small
  action step = { nondet c = 0.to(3).oneOf()  if (c == 0) large else small }

  val laws = and {
    lg > 0 implies powmod(rootn, 2^(lg - 1), PRIMES[f]) == PRIMES[f] - 1,
    // the first entry is the sum of all
    vec.length() > 0 implies out.fft[0] == vec.foldl(0, (s, v) => (s + v) % PRIMES[f]),
    // Parseval-like: the inverse of the constant term
    vec.length() > 0 implies (out.ifft[0] * vec.length()) % PRIMES[f] == out.fft[0]
  }
}
