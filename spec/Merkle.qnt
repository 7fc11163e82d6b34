// C14, C15: vector commitments by Merkle trees. Hashes are symbolic terms:
// node (d, o) of the committed tree, a node with one bit flipped, or garbage.
// Hashing is injective on terms, so the verdict of the specification's own
// verifier is exact. Leaf contents repeat with period 2^per.
module Merkle {
  import Ints.* from "./Ints"
  // x = 0: the node's hash; x > 0: that hash with bit x - 1 flipped; d < 0: no such node
  type Term = { d: int, o: int, x: int }
  pure val Junk: Term = { d: -1, o: 0, x: 0 }

  var lg: int                      // 2^lg leaves
  var per: int                     // leaf i has the content of leaf i mod 2^per
  var skip: int                    // layers recomputed instead of stored
  var kind: int                    // leaf type
  var asked: List[int]             // positions opened
  var opening: List[(int, int)]    // nodes whose hashes form the opening, in order
  var alter: str                   // what is done to the opening before it is verified
  var claim: { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] }
  var accept: bool

  pure def sortedSet(l: List[int]): List[int] =
    l.foldl([], (s, x) => s.select(y => y < x).concat([x]).concat(s.select(y => y > x)))
  pure def mem(l: List[int], x: int): bool = l.select(y => y == x).length() > 0
  pure def parents(l: List[int]): List[int] =
    l.foldl([], (s, x) => if (s.length() > 0 and s[s.length() - 1] == x / 2) s else s.append(x / 2))
  pure def sib(x: int): int = if (x % 2 == 0) x + 1 else x - 1

  // the minimal opening: bottom up, left to right, siblings that are not known
  pure def openingOf(depth: int, idx: List[int]): List[(int, int)] =
    range(0, depth).foldl((sortedSet(idx), []), (s, k) =>
      (parents(s._1), s._1.foldl(s._2, (h, x) => if (mem(s._1, sib(x))) h else h.append((depth - k, sib(x))))))._2

  // contents: the node as the first of those with equal content
  pure def canon(depth: int, period: int, d: int, o: int): Term =
    { d: d, o: if (depth - d >= period) 0 else o % 2^(period - (depth - d)), x: 0 }
  pure def join(depth: int, period: int, l: Term, r: Term): Term =
    if (l.d > 0 and l.d == r.d and l.x == 0 and r.x == 0
        and (if (depth - l.d >= period) l.o == 0 and r.o == 0 else l.o % 2 == 0 and r.o == l.o + 1))
      canon(depth, period, l.d - 1, l.o / 2)
    else Junk

  // the verifier: rebuild the root from the claimed leaves and the hashes
  type Known = { o: int, t: Term }
  pure def climb(depth: int, period: int, known: List[Known], hs: List[Term]): { known: List[Known], hs: List[Term], ok: bool } =
    known.foldl({ known: [], hs: hs, ok: true }, (s, n) =>
      if (not(s.ok)) s
      else if (n.o % 2 == 1 and known.select(m => m.o == n.o - 1).length() > 0) s
      else {
        pure val other = known.select(m => m.o == sib(n.o))
        if (other.length() > 0)
          { known: s.known.append({ o: n.o / 2, t: join(depth, period, n.t, other[0].t) }), hs: s.hs, ok: true }
        else if (s.hs.length() == 0) { known: s.known, hs: s.hs, ok: false }
        else {
          pure val h = s.hs[0]
          pure val t = if (n.o % 2 == 0) join(depth, period, n.t, h) else join(depth, period, h, n.t)
          { known: s.known.append({ o: n.o / 2, t: t }), hs: s.hs.slice(1, s.hs.length()), ok: true }
        }
      })
  pure def verdict(depth: int, period: int, c: { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] }): bool = {
    pure val ld = if (c.size > 0) bitlen(c.size) - 1 else 0
    pure val wellFormed = c.size > 0 and c.size == 2^ld
      and c.idx.select(i => i >= c.size or i < 0).length() == 0
      and c.leaves.select(l => l.i >= c.size).length() == 0
      and c.hashes.length() == openingOf(ld, c.idx).length()
    if (not(wellFormed)) false
    else {
      pure val ids = sortedSet(c.leaves.foldl([], (s, l) => s.append(l.i)))
      pure val known = ids.foldl([], (s, i) => s.append({ o: i, t: c.leaves.select(l => l.i == i)[0].t }))
      pure val conflict = c.leaves.select(l => l.t != known.select(k => k.o == l.i)[0].t).length() > 0
      if (conflict or ids != sortedSet(c.idx)) false
      else {
        pure val end = range(0, ld).foldl({ known: known, hs: c.hashes, ok: true }, (s, _) =>
          if (s.ok) climb(depth, period, s.known, s.hs) else s)
        end.ok and end.hs.length() == 0
          and end.known.select(n => n.t != c.root).length() == 0
      }
    }
  }

  pure def honest(depth: int, period: int, idx: List[int]): { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] } =
    { size: 2^depth, root: canon(depth, period, 0, 0), idx: idx,
      hashes: openingOf(depth, idx).foldl([], (s, n) => s.append(canon(depth, period, n._1, n._2))),
      leaves: idx.foldl([], (s, i) => s.append({ i: i, t: canon(depth, period, depth, i) })) }

  pure def bump(t: Term, b: int): Term = { d: t.d, o: t.o, x: 1 + b % 256 }
  pure def without(n: int, k: int): List[int] = range(0, n).select(i => i != k)

  // one deviation, chosen by name and two numbers
  pure def deviate(depth: int, period: int, idx: List[int], how: str, a: int, b: int): { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] } = {
    pure val c = honest(depth, period, idx)
    pure val n = c.leaves.length()
    pure val m = c.hashes.length()
    pure val k = if (n > 0) a % n else 0
    pure val h = if (m > 0) a % m else 0
    pure val k2 = if (n > 0) b % n else 0
    pure val h2 = if (m > 0) b % m else 0
    match0(how, c, n, m, k, h, k2, h2, depth, period, a, b)
  }
  pure def match0(how: str, c: { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] },
                  n: int, m: int, k: int, h: int, k2: int, h2: int, depth: int, period: int, a: int, b: int)
                  : { size: int, root: Term, idx: List[int], hashes: List[Term], leaves: List[{ i: int, t: Term }] } =
    if (how == "leaf" and n > 0) c.with("leaves", c.leaves.replaceAt(k, { i: c.leaves[k].i, t: bump(c.leaves[k].t, b) }))
    else if (how == "otherleaf" and n > 0) c.with("leaves", c.leaves.replaceAt(k, { i: c.leaves[k].i, t: canon(depth, period, depth, b % 2^depth) }))
    else if (how == "moved" and n > 0) c.with("leaves", c.leaves.replaceAt(k, { i: b % 2^depth, t: c.leaves[k].t }))
    else if (how == "outside" and n > 0) c.with("leaves", c.leaves.replaceAt(k, { i: c.leaves[k].i + 2^depth, t: c.leaves[k].t }))
    else if (how == "swapped" and n > 1) c.with("leaves", c.leaves.replaceAt(k, { i: c.leaves[k].i, t: c.leaves[k2].t }).replaceAt(k2, { i: c.leaves[k2].i, t: c.leaves[k].t }))
    else if (how == "missing" and n > 0) c.with("leaves", without(n, k).foldl([], (s, i) => s.append(c.leaves[i])))
    else if (how == "noleaves") c.with("leaves", [])
    else if (how == "extraleaf") c.with("leaves", c.leaves.append({ i: b % 2^depth, t: canon(depth, period, depth, b % 2^depth) }))
    else if (how == "repeated" and n > 0) c.with("leaves", c.leaves.append(c.leaves[k]))
    else if (how == "conflict" and n > 0) c.with("leaves", if (a % 2 == 0) c.leaves.append({ i: c.leaves[k].i, t: bump(c.leaves[k].t, b) }) else [{ i: c.leaves[k].i, t: bump(c.leaves[k].t, b) }].concat(c.leaves))
    else if (how == "reordered" and n > 1) c.with("leaves", c.leaves.slice(k, n).concat(c.leaves.slice(0, k)))
    else if (how == "hash" and m > 0) c.with("hashes", c.hashes.replaceAt(h, bump(c.hashes[h], b)))
    else if (how == "hashswap" and m > 1) c.with("hashes", c.hashes.replaceAt(h, c.hashes[h2]).replaceAt(h2, c.hashes[h]))
    else if (how == "hashdrop" and m > 0) c.with("hashes", without(m, h).foldl([], (s, i) => s.append(c.hashes[i])))
    else if (how == "hashadd") c.with("hashes", c.hashes.append(if (m > 0) c.hashes[h] else c.root))
    else if (how == "root") c.with("root", bump(c.root, b))
    else if (how == "rootother" and depth > 0) c.with("root", canon(depth, period, 1, a % 2))
    else if (how == "size") c.with("size", if (a % 2 == 0 and c.size < 2^63) 2 * c.size else c.size / 2)
    else if (how == "sizeodd") c.with("size", c.size + 1 + a % 2)
    else if (how == "indices") c.with("idx", c.idx.append(b % 2^depth))
    else if (how == "far" and n > 0) c.with("leaves", c.leaves.replaceAt(k, { i: 2^64 - 1 - b % 3, t: c.leaves[k].t }))
    else if (how == "farindex") c.with("idx", c.idx.append(if (a % 2 == 0) 2^64 - 1 - b % 3 else 2^63 + b % 3)).with("leaves", if (a % 3 == 0) c.leaves else c.leaves.append({ i: if (a % 2 == 0) 2^64 - 1 - b % 3 else 2^63 + b % 3, t: canon(depth, period, depth, 0) }))
    else if (how == "indicesdrop" and n > 0) c.with("idx", without(n, k).foldl([], (s, i) => s.append(c.idx[i])))
    else c

  pure val HOWS: List[str] = ["none", "leaf", "otherleaf", "moved", "outside", "swapped", "missing", "noleaves", "extraleaf",
    "repeated", "conflict", "reordered", "hash", "hashswap", "hashdrop", "hashadd", "root", "rootother", "size", "sizeodd",
    "indices", "indicesdrop", "far", "farindex"]

  action pose(depth: int, period: int, sk: int, kd: int, idx: List[int], how: str, a: int, b: int): bool = {
    pure val c = deviate(depth, period, idx, how, a, b)
    all {
      lg' = depth, per' = period, skip' = sk, kind' = kd, asked' = idx, opening' = openingOf(depth, idx),
      alter' = how, claim' = c, accept' = verdict(depth, period, c)
    }
  }

  // sampled: trees up to 2^11 leaves in full, and openings in trees up to 2^63
  action step = {
    nondet small = 0.to(9).oneOf()
    nondet d0 = 0.to(11).oneOf()
    nondet d1 = 12.to(65).oneOf()
    nondet p0 = 0.to(3).oneOf()
    nondet sk = 0.to(13).oneOf()
    nondet kd = 0.to(5).oneOf()
    nondet n = 0.to(7).oneOf()
    nondet near = 0.to(3).oneOf()
    nondet r = 0.to(2^128 - 1).oneOf()
    nondet q = 0.to(2^63 - 1).oneOf()
    nondet hw = 0.to(32).oneOf()
    nondet b = 0.to(2^63 - 1).oneOf()
    nondet a = 0.to(99).oneOf()
    pure val depth = if (small < 8) d0 else min2(d1, 63)
    pure val period = if (depth > 11) depth else if (p0 == 0) min2(a % 4, depth) else depth
    // independent positions, or positions close together
    pure val idx = range(0, n).foldl([], (s, i) =>
      s.append((if (near == 0) q * (i + 1) + r / 2^(16 * i) else if (near == 1) q + (r / 2^(3 * i)) % 8
                else if (near == 2) 2^depth - 1 - (r / 2^(4 * i)) % 16 else (r / 2^(3 * i)) % 8) % 2^depth)).select(i => i >= 0)
    pose(depth, period, sk, kd, idx, if (hw < 24) HOWS[hw] else "none", a, if (a % 3 == 0) b % 2^depth else b)
  }
  action init = pose(2, 2, 1, 0, [0, 3], "none", 0, 0)

  // exhaustive: every tree of up to 8 leaves, every set of positions, every
  // cache depth, every deviation with every target: states are numbered
  pure val TARGETS: int = 6
  pure def caseAt(c: int): { d: int, set: int, how: int, a: int } = {
    pure val a = c % TARGETS
    pure val how = (c / TARGETS) % 24
    pure val s = c / (TARGETS * 24)
    // 2 sets for one leaf, 4 for two, 16 for four, 256 for eight
    if (s < 2) { d: 0, set: s, how: how, a: a } else if (s < 6) { d: 1, set: s - 2, how: how, a: a }
    else if (s < 22) { d: 2, set: s - 6, how: how, a: a } else { d: 3, set: s - 22, how: how, a: a }
  }
  pure val CASES: int = 278 * 24 * TARGETS
  var counter: int
  action at(c: int): bool = {
    pure val k = caseAt(c % CASES)
    pure val idx = range(0, 2^k.d).select(i => (k.set / 2^i) % 2 == 1)
    all {
      counter' = c,
      pose(k.d, if (c % 5 == 0) 0 else k.d, (c / 7) % (k.d + 3), (c / 3) % 6, idx, HOWS[k.how], k.a, k.a + (c / CASES) * 64 + k.a * 37)
    }
  }
  action onward = at(counter + 1)
  action sampled = all { step, counter' = 0 }
  action begin = all { init, counter' = 0 }

  val laws = and {
    // what is accepted is exactly what was committed, for exactly the positions opened
    // (an opening of nothing claims nothing)
    claim.idx.length() == 0 or (accept iff and {
      claim.size == 2^lg, claim.root == canon(lg, per, 0, 0),
      sortedSet(claim.idx) == sortedSet(claim.leaves.foldl([], (s, l) => s.append(l.i))),
      claim.leaves.select(l => l.i >= 2^lg or l.t != canon(lg, per, lg, l.i)).length() == 0,
      claim.hashes == openingOf(lg, claim.idx).foldl([], (s, n) => s.append(canon(lg, per, n._1, n._2)))
    }),
    alter != "none" or accept,
    opening.length() <= lg * sortedSet(asked).length()
  }
}
