// C16: the masked hasher as a state machine (absorb pieces, then read the
// digest), and the hash of values built from numbers, field elements, hashes
// and lists of them.
module Hashing {
  import Ints.* from "./Ints"
  import Keccak.* from "./Keccak"
  pure val P: int = 2^251 + 17 * 2^192 + 1
  pure val R: int = R256 % P

  var pieces: List[List[int]]      // what has been fed, piece by piece
  var digest: List[int]            // masked digest of everything fed
  var kind: str                    // u256 | field | hash
  var rows: List[List[int]]        // numbers, lists of them, lists of lists
  var depth: int                   // 0: rows[0][0], 1: rows[0], 2: rows
  var expected: List[int]
  // a long list, the numbers base, base + 104729, ...: its hash is listHash of
  // their encodings; the driver computes that with the reference hash that every
  // other state compares with the definition here
  var wide: { n: int, base: int }

  pure def be32(v: int): List[int] = rev(digits(v, 256, 32))
  pure def enc(k: str, v: int): List[int] = be32(if (k == "field") (v * R) % P else v)
  pure def listHash(hs: List[List[int]]): List[int] =
    if (hs.length() == 1) hs[0] else masked(hs.foldl([], (s, h) => s.concat(h)))
  pure def rowHash(k: str, r: List[int]): List[int] =
    listHash(r.foldl([], (s, v) => s.append(enc(k, v))))
  pure def valueHash(k: str, rs: List[List[int]], d: int): List[int] =
    if (d == 0) enc(k, rs[0][0]) else if (d == 1) rowHash(k, rs[0])
    else listHash(rs.foldl([], (s, r) => s.append(rowHash(k, r))))

  pure def content(n: int, r: int, c: int): List[int] =
    range(0, n).foldl([], (s, i) => s.append(
      if (c == 0) 0 else if (c == 1) 255 else (r / 2^(i % 250) + 37 * i) % 256))

  // the next piece tops the total up to a chosen distance from a block border
  action feed = {
    nondet border = oneOf(Set(0, 1, 8, 31, 32, 64, 128, 135, 136, 137, 200, 271, 272, 273))
    nondet jitter = 0.to(40).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet again = 0.to(3).oneOf()
    nondet r = 0.to(R256 - 1).oneOf()
    val old = if (again == 0) [] else pieces
    val total = old.foldl(0, (s, p) => s + p.length())
    val n = if (c == 3) jitter else if (border >= total) border - total else jitter % 3
    val ps = if (total > 300) [content(jitter, r, c)] else old.append(content(n, r, c))
    all {
      pieces' = ps,
      digest' = masked(ps.foldl([], (s, p) => s.concat(p)))
    }
  }
  action value = {
    nondet k = oneOf(Set("u256", "field", "hash"))
    nondet d = 0.to(2).oneOf()
    nondet h = oneOf(Set(0, 1, 2, 3, 5))
    nondet w = oneOf(Set(0, 1, 1, 2, 3, 4, 5))
    nondet cl = 0.to(65535).oneOf()
    nondet r = 0.to(R256 - 1).oneOf()
    pure val m = if (k == "field") P else R256
    pure val hh = if (d == 2) h else 1
    pure val ww = if (d == 0) 1 else w
    pure val rs = range(0, hh).foldl([], (s, i) => s.append(
      range(0, ww).foldl([], (t, j) => t.append((shape(cl, r) + i * 7919 + j * 104729) % m))))
    all { kind' = k, rows' = rs, depth' = d, expected' = valueHash(k, rs, d) }
  }
  pure val BORDERS: List[int] = [4, 5, 8, 16, 17, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048, 4096]
  action long = {
    nondet b = 0.to(16).oneOf()
    nondet d = 0.to(8).oneOf()
    nondet any_ = 0.to(700).oneOf()
    nondet r = 0.to(P - 1).oneOf()
    wide' = { n: if (d < 3) BORDERS[b] + d - 1 else if (d == 3) BORDERS[b] else any_, base: r }
  }
  action step = all { feed, value, long }
  action init = all {
    pieces' = [], digest' = masked([]), kind' = "u256", rows' = [[0]], depth' = 0, expected' = be32(0),
    wide' = { n: 0, base: 0 }
  }
  val laws = and {
    digest.length() == 32, expected.length() == 32,
    digest.slice(20, 32).foldl(0, (s, x) => s + x) == 0,
    depth == 0 or rows.length() == 1 or expected.slice(20, 32).foldl(0, (s, x) => s + x) == 0
  }
}
