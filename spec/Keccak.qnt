// C16: Keccak-256 from its definition (FIPS 202 permutation, original 0x01
// padding, rate 1088), on integers. Lanes are 64 bit numbers, lane (x, y) is
// entry 5y + x, bytes are little endian within lanes.
module Keccak {
  import Ints.* from "./Ints"

  // bitwise operations on 64 bit words through byte tables
  pure val AND8: List[int] =
    range(0, 65536).foldl([], (s, i) => {
      pure val a = i / 256
      pure val b = i % 256
      s.append(16 * and4(a / 16, b / 16) + and4(a % 16, b % 16)) })
  pure def and64(a: int, b: int): int =
    range(0, 8).foldl((0, a, b, 1), (s, _) =>
      (s._1 + s._4 * AND8[256 * (s._2 % 256) + s._3 % 256], s._2 / 256, s._3 / 256, 256 * s._4))._1
  pure def xor64(a: int, b: int): int = a + b - 2 * and64(a, b)
  pure def rol(a: int, k: int): int = if (k == 0) a else (a * 2^k) % W + a / 2^(64 - k)

  // rotation offsets by lane, and the lane each position is filled from
  pure val RHO: List[int] = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14]
  pure def fromLane(i: int): int = {
    // B[y, 2x+3y] = rot(A[x, y]): position (u, v) comes from x = u + 3v, y = u
    pure val u = i % 5
    pure val v = i / 5
    5 * u + (u + 3 * v) % 5
  }
  pure val PI: List[int] = range(0, 25).foldl([], (s, i) => s.append(fromLane(i)))

  // round constants from the degree 8 linear feedback shift register
  pure def lfsr(n: int): int =
    range(0, n % 255).foldl(1, (r, _) => {
      pure val t = 2 * r
      if (t >= 256) { pure val u = t - 256
        // x^8 = x^6 + x^5 + x^4 + 1
        xor64(u, 113) } else t }) % 2
  pure val RC: List[int] =
    range(0, 24).foldl([], (s, i) => s.append(
      range(0, 7).foldl(0, (a, j) => a + lfsr(j + 7 * i) * 2^(2^j - 1))))

  pure def round(a: List[int], rc: int): List[int] = {
    pure val c = range(0, 5).foldl([], (s, x) =>
      s.append(xor64(xor64(xor64(a[x], a[x + 5]), xor64(a[x + 10], a[x + 15])), a[x + 20])))
    pure val d = range(0, 5).foldl([], (s, x) => s.append(xor64(c[(x + 4) % 5], rol(c[(x + 1) % 5], 1))))
    pure val b = PI.foldl([], (s, l) => s.append(rol(xor64(a[l], d[l % 5]), RHO[l])))
    range(0, 25).foldl([], (s, i) => {
      pure val y = i - i % 5
      pure val v = xor64(b[i], and64(W - 1 - b[y + (i + 1) % 5], b[y + (i + 2) % 5]))
      s.append(if (i == 0) xor64(v, rc) else v) })
  }
  pure def permute(a: List[int]): List[int] = RC.foldl(a, (s, rc) => round(s, rc))

  // little endian 64 bit lanes of the padded message
  pure def padded(m: List[int]): List[int] = {
    pure val n = 136 * (m.length() / 136 + 1)
    range(m.length(), n).foldl(m, (s, i) =>
      s.append((if (i == m.length()) 1 else 0) + (if (i == n - 1) 128 else 0)))
  }
  pure def laneOf(p: List[int], at: int): int =
    range(0, 8).foldl((0, 1), (s, i) => (s._1 + s._2 * p[at + i], 256 * s._2))._1
  pure val zeroState: List[int] = range(0, 25).foldl([], (s, _) => s.append(0))
  pure def keccak256(m: List[int]): List[int] = {
    pure val p = padded(m)
    pure val f = range(0, p.length() / 136).foldl(zeroState, (st, k) =>
      permute(range(0, 25).foldl([], (s, i) =>
        s.append(if (i < 17) xor64(st[i], laneOf(p, 136 * k + 8 * i)) else st[i]))))
    range(0, 4).foldl([], (s, i) => s.concat(digits(f[i], 256, 8)))
  }
  // the commitment hash: the last 96 bits cleared
  pure def masked(m: List[int]): List[int] =
    keccak256(m).slice(0, 20).concat([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])

  // known answer: Keccak-256 of the empty string starts c5d2460186f7233c
  run emptyTest = assert(keccak256([]).slice(0, 8) == [197, 210, 70, 1, 134, 247, 35, 60])
}
