// C22: geometric series as a state machine: an iterator over base, base step,
// base step^2 ... with the adaptors of the library.
module Series {
  import Ints.* from "./Ints"
  import Fields.* from "./Fields"

  var f: int
  var made: (int, int, int)   // base, step, length (length -1: unbounded; -2: roots of unity)
  var op: (int, int)          // what the last transition did, with its argument
  var cur: int
  var stp: int
  var len: int
  var probe: int              // an index to look up
  var obs: { at: int, head: List[int], item: int }

  pure val UNBOUNDED: int = 2^64 - 1

  pure def look(p: int, c: int, s: int, n: int, i: int, it: int): { at: int, head: List[int], item: int } =
    { at: (c * powmod64(s, i, p)) % p,
      head: range(0, min2(n, 6)).foldl(([], c), (t, _) => (t._1.append(t._2), (t._2 * s) % p))._1,
      item: it }

  action fresh = {
    nondet g = 0.to(4).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet h = 0.to(9).oneOf()
    nondet i = 0.to(2^64 - 1).oneOf()
    nondet ex = 0.to(20).oneOf()
    pure val p = PRIMES[g]
    pure val b = if (h == 0) 0 else if (h == 1) 1 else r1 % p
    pure val s = if (h == 2) 0 else if (h == 3) 1 else r2 % p
    pure val o = if (h >= 8) { if ((p - 1) % 2^ex == 0) 2^ex else 2 } else 0
    pure val root = if (o == 0) 1 else powmod(GENS[g], (p - 1) / o, p)
    if (h >= 8) all {
      f' = g, made' = (o, root, -2), op' = (0, 0), cur' = 1, stp' = root, len' = o, probe' = i,
      obs' = look(p, 1, root, o, i, -1)
    } else all {
      f' = g, made' = (b, s, -1), op' = (0, 0), cur' = b, stp' = s, len' = UNBOUNDED, probe' = i,
      obs' = look(p, b, s, UNBOUNDED, i, -1)
    }
  }
  action init = fresh

  action move(k: int, n: int, c: int, s: int, l: int, i: int, it: int): bool = all {
    f' = f, made' = made, op' = (k, n), cur' = c, stp' = s, len' = l, probe' = i,
    obs' = look(PRIMES[f], c, s, l, i, it)
  }

  action adapt = {
    nondet k = 1.to(5).oneOf()
    nondet n0 = 0.to(2^64 - 1).oneOf()
    nondet small = 0.to(2).oneOf()
    nondet i = 0.to(2^64 - 1).oneOf()
    val p = PRIMES[f]
    val n = if (small == 0) n0 else if (small == 1) n0 % 7 else if (n0 % 4 == 0) len else md(len - n0 % 3, 2^64)
    if (k == 1) move(1, 0, if (len == 0) cur else (cur * stp) % p, stp, max2(len - 1, 0), i, if (len == 0) -1 else cur)
    else if (k == 2) move(2, n, (cur * powmod64(stp, n, p)) % p, stp, max2(len - n, 0), i, -1)
    else if (k == 3) move(3, n, cur, stp, min2(len, n), i, -1)
    else if (k == 4) { val q = max2(n, 1)  move(4, q, cur, powmod64(stp, q, p), (len + q - 1) / q, i, -1) }
    else move(5, 0, cur, stp, len, i, -1)
  }
  action step = { nondet c = 0.to(5).oneOf()  if (c == 0) fresh else adapt }

  val laws = and { 0 <= len, cur < PRIMES[f], obs.head.length() == min2(len, 6) }
}
