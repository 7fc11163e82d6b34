// C01, C05, C07: the protocol, bit by bit. A behaviour is one run of the prover
// on a small system, message by message: commit to the trace, draw coefficients,
// commit to the combined constraints, answer at a point out of the domain, fold
// layer by layer, send the last layer, do the work, open what is asked. Then
// the proof is changed in one word, and the verifier, which sees nothing but
// claim and proof, says what it thinks of it.
module Stark {
  import Ints.* from "./Ints"
  import Keccak.* from "./Keccak"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  // ---- words and hashes ----------------------------------------------------
  pure val RINV: int = invmod(R256, P)
  pure def be(v: int, n: int): List[int] = rev(digits(v, 256, n))
  pure def number(l: List[int]): int = l.foldl(0, (s, b) => 256 * s + b)
  pure def flat(l: List[int]): List[int] = l.foldl([], (s, v) => s.concat(be(v, 32)))
  pure def hash(l: List[int]): int = number(keccak256(l))
  pure def short(h: int): int = h - h % 2^96
  // field elements are sent times 2^256
  pure def sent(v: int): int = (v * R256) % P
  pure def sents(l: List[int]): List[int] = l.foldl([], (s, v) => s.append(sent(v)))

  // ---- the transcript ------------------------------------------------------
  type Coin = { digest: int, count: int }
  pure def opened(seed: List[int]): Coin = { digest: hash(seed), count: 0 }
  pure def heard(c: Coin, l: List[int]): Coin = { digest: hash(be(c.digest, 32).concat(l)), count: 0 }
  pure def hearWords(c: Coin, l: List[int]): Coin = l.foldl(c, (s, v) => heard(s, be(v, 32)))
  pure def toss(c: Coin): int = hash(be(c.digest, 32).concat(be(c.count, 32)))
  // k field elements: 252 bits each, those not below P are thrown away
  pure def elements(c: Coin, k: int): (Coin, List[int]) =
    range(0, 8 * k + 60).foldl((c, []), (s, _) =>
      if (s._2.length() == k) s
      else {
        pure val v = toss(s._1) % 2^252
        (s._1.with("count", s._1.count + 1), if (v < P) s._2.append((v * RINV) % P) else s._2)
      })
  pure def ascending(l: List[int]): List[int] =
    l.foldl([], (s, v) => s.select(u => u <= v).append(v).concat(s.select(u => u > v)))
  // four positions from each hash, the first from its highest word
  pure def positions(c: Coin, k: int, dom: int): List[int] =
    ascending(range(0, (k + 3) / 4).foldl((c, []), (s, _) => {
      pure val v = toss(s._1)
      (s._1.with("count", s._1.count + 1),
       s._2.concat([(v / 2^192) % dom, (v / 2^128) % dom, (v / 2^64) % dom, v % dom]))
    })._2.slice(0, k))
  pure def worth(digest: int, difficulty: int, nonce: int): bool = {
    pure val seed = hash(be(0x0123456789abcded, 8).concat(be(digest, 32)).append(difficulty))
    hash(be(seed, 32).concat(be(nonce, 8))) < 2^(256 - difficulty)
  }
  // the smallest nonce that will do (difficulties here are small)
  pure def work(digest: int, difficulty: int): int =
    range(0, 200).foldl(-1, (s, k) => if (s >= 0) s else if (worth(digest, difficulty, k)) k else -1)

  // ---- commitments ---------------------------------------------------------
  pure def node(a: int, b: int): int = short(hash(be(a, 32).concat(be(b, 32))))
  pure def leafOf(row: List[int]): int = if (row.length() == 1) sent(row[0]) else short(hash(flat(sents(row))))
  // layers from the leaves up
  pure def tree(rows: List[List[int]]): List[List[int]] = {
    pure val leaves = rows.foldl([], (s, r) => s.append(leafOf(r)))
    range(0, bitlen(rows.length()) - 1).foldl([leaves], (t, d) => {
      pure val l = t[d]
      t.append(range(0, l.length() / 2).foldl([], (s, i) => s.append(node(l[2 * i], l[2 * i + 1]))))
    })
  }
  pure def rootOf(t: List[List[int]]): int = t[t.length() - 1][0]
  pure def has(l: List[int], v: int): bool = l.select(u => u == v).length() > 0
  pure def distinct(l: List[int]): List[int] = l.foldl([], (s, v) => if (has(s, v)) s else s.append(v))
  pure def upward(l: List[int], k: int): List[int] = distinct(l.foldl([], (s, v) => s.append(v / k)))
  pure def twin(i: int): int = if (i % 2 == 0) i + 1 else i - 1
  // (depth, position) of the nodes that complete the paths of the leaves at `at`
  pure def missing(depth: int, at: List[int]): List[(int, int)] =
    range(0, depth).foldl(([], distinct(at)), (s, d) =>
      (s._2.foldl(s._1, (l, i) => if (has(s._2, twin(i))) l else l.append((d, twin(i)))), upward(s._2, 2)))._1
  pure def opening(t: List[List[int]], at: List[int]): List[int] =
    missing(t.length() - 1, at).foldl([], (s, m) => s.append(t[m._1][m._2]))
  // the root that follows from leaves (position, hash), ascending, and hashes
  pure def implied(depth: int, leaves: List[(int, int)], hashes: List[int]): int =
    range(0, depth).foldl((leaves, 0), (s, _) =>
      s._1.foldl(([], s._2), (u, l) => {
        pure val i = l._1
        pure val other = s._1.select(m => m._1 == twin(i))
        if (other.length() > 0) {
          if (i % 2 == 0) (u._1.append((i / 2, node(l._2, other[0]._2))), u._2) else u
        } else {
          pure val o = hashes[u._2]
          (u._1.append((i / 2, if (i % 2 == 0) node(l._2, o) else node(o, l._2))), u._2 + 1)
        }
      }))._1[0]._2

  // ---- polynomials ---------------------------------------------------------
  pure def lgOf(n: int): int = bitlen(n) - 1
  pure def root(dom: int): int = powmod(3, (P - 1) / dom, P)
  // point number i of the domain of the given dom, times the offset
  pure def point(dom: int, i: int, off: int): int = (off * powmod64(root(dom), bitrev(i, lgOf(dom)), P)) % P
  pure def spread(p: List[int], dom: int, off: int): List[int] = {
    pure val w = root(dom)
    pure val nat = range(0, dom).foldl(([], off), (s, _) => (s._1.append(horner(p, s._2)), (s._2 * w) % P))._1
    range(0, dom).foldl([], (s, i) => s.append(nat[bitrev(i, lgOf(dom))]))
  }
  // the polynomial with value v[i] at off w^i
  pure def through(v: List[int], off: int): List[int] = {
    pure val n = v.length()
    pure val wi = invmod(root(n), P)
    pure val oi = invmod(off, P)
    range(0, n).foldl([], (s, j) => {
      pure val k = (invmod(n, P) * powmod64(oi, j, P)) % P
      s.append((k * horner(v, powmod64(wi, j, P))) % P)
    })
  }
  // (p - p(z)) / (X - z)
  pure def without(p: List[int], z: int): List[int] =
    range(0, p.length()).foldl(([], 0), (s, k) =>
      ([s._2].concat(s._1), (s._2 * z + p[p.length() - 1 - k]) % P))._1
  pure def plus(p: List[int], m: int, q: List[int]): List[int] =
    range(0, p.length()).foldl([], (s, i) => s.append((p[i] + m * q[i]) % P))
  pure def rowsOf(cols: List[List[int]], n: int): List[List[int]] =
    range(0, n).foldl([], (s, i) => s.append(cols.foldl([], (r, c) => r.append(c[i]))))

  // ---- combining the constraints -------------------------------------------
  pure def weight(coef: List[int], k: int, x: int, adj: int): int = (coef[2 * k] + coef[2 * k + 1] * powmod64(x, adj, P)) % P
  pure def combined(e: List[Expr], claims: List[List[int]], adj: List[int], coef: List[int], x: int, cell: (int, int) => int): int =
    range(0, e.length()).foldl(0, (s, k) => (s + weight(coef, k, x, adj[k]) * eval(e[k], claims, x, cell)) % P)
  // the combination as coefficients, cut into parts
  pure def constraintPolys(s: Sys, e: List[Expr], d: { system: int, parts: int, adjust: List[int] }, polys: List[List[int]], coef: List[int]): List[List[int]] = {
    pure val dom = 2^s.lg * d.parts
    pure val w = root(dom)
    pure val g = root(2^s.lg)
    pure val vals = range(0, dom).foldl([], (l, i) => {
      pure val x = (3 * powmod64(w, i, P)) % P
      l.append(combined(e, s.claims, d.adjust, coef, x, (c, o) => horner(polys[c], (x * powmod64(g, md(o, 2^s.lg), P)) % P)))
    })
    pure val whole = through(vals, 3)
    range(0, d.parts).foldl([], (l, k) =>
      l.append(range(0, 2^s.lg).foldl([], (m, i) => m.append(whole[d.parts * i + k]))))
  }
  pure def cellsOf(e: List[Expr]): List[(int, int)] = e.foldl([], (l, q) => cellsInto(l, q))
  pure def moved(lg: int, z: int, o: int): int = (z * powmod64(root(2^lg), md(o, 2^lg), P)) % P

  // ---- folding -------------------------------------------------------------
  // halves the values v, which stand at positions `at`, at + 1, ... of a layer of the given dom
  pure def halved(v: List[int], at: int, dom: int, a: int): List[int] =
    range(0, v.length() / 2).foldl([], (s, i) => {
      pure val x = invmod(powmod64(root(dom), bitrev(at / 2 + i, lgOf(dom) - 1), P), P)
      s.append(md(v[2 * i] + v[2 * i + 1] + a * x * (v[2 * i] - v[2 * i + 1]), P))
    })
  pure def folded(v: List[int], at: int, dom: int, a: int, k: int): List[int] =
    range(0, k).foldl((v, at, dom, a), (s, _) =>
      (halved(s._1, s._2, s._3, s._4), s._2 / 2, s._3 / 2, (s._4 * s._4) % P))._1

  // ---- the prover ----------------------------------------------------------
  type Side = { polys: List[List[int]], rows: List[List[int]], nodes: List[List[int]] }
  type Layer = { values: List[int], nodes: List[List[int]], k: int }
  type Proof = { head: List[int], nonce: int, rest: List[int] }

  var phase: str
  var coin: Coin
  var msgs: Proof
  var coef: List[int]
  var first: Side
  var second: Side
  var layer: List[int]
  var layers: List[Layer]
  var asked: List[int]
  var verdict: bool
  var changed: Proof                 // the proof judged in phase "judged"

  val dom = 2^sys.lg * sys.blowup
  pure val none: Side = { polys: [], rows: [], nodes: [] }
  pure def side(polys: List[List[int]], n: int): Side = {
    pure val rows = rowsOf(polys.foldl([], (s, p) => s.append(spread(p, n, 3))), n)
    { polys: polys, rows: rows, nodes: tree(rows) }
  }
  action quiet = all { sys' = sys, es' = es, table' = table, change' = change, broken1' = broken1, sound' = sound, deg1' = deg1 }
  action blank = all {
    coin' = { digest: 0, count: 0 }, msgs' = { head: [], nonce: 0, rest: [] }, coef' = [], first' = none, second' = none,
    layer' = [], layers' = [], asked' = [], verdict' = false, changed' = { head: [], nonce: 0, rest: [] }
  }
  action posed = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(2).oneOf()
    nondet nc = 1.to(2).oneOf()
    nondet nb = 0.to(2).oneOf()
    pure val g = generate(r, lg, nc, nb, 2)
    pure val t = fill(g)
    pure val g2 = bound(g, t, r, if (g.cons.length() == 0) 1 + nb else nb)
    pure val d = partsOf(exprs(g2))
    all {
      pose(g2.with("blowup", if (2^lg * d > 8) d else d * 2^(r2 % 2)).with("pow", (r2 / 4) % 4).with("queries", 1 + (r2 / 16) % 5)
             .with("layout", layoutOf(r2 / 2^30, if (lg == 0) 0 else (r2 / 256) % (lg + 1)))
             .with("seed", range(0, (r2 / 2^40) % 30).foldl([], (l, i) => l.append(mix(r2, i) % 256))),
           t, (-1, 0, 0)),
      phase' = "posed", blank
    }
  }
  action commitTrace = {
    val s = side(table.foldl([], (l, c) => l.append(through(c, 1))), dom)
    val e = elements(heard(opened(sys.seed), be(rootOf(s.nodes), 32)), 2 * es.length())
    all {
      phase == "posed", phase' = "trace", quiet, first' = s, coin' = e._1, coef' = e._2,
      msgs' = msgs.with("head", [rootOf(s.nodes)]),
      second' = second, layer' = layer, layers' = layers, asked' = asked, verdict' = verdict, changed' = changed
    }
  }
  action commitConstraints = {
    val s = side(constraintPolys(sys, es, deg1, first.polys, coef), dom)
    all {
      phase == "trace", phase' = "constraints", quiet, second' = s,
      coin' = heard(coin, be(rootOf(s.nodes), 32)), msgs' = msgs.with("head", msgs.head.append(rootOf(s.nodes))),
      first' = first, coef' = coef, layer' = layer, layers' = layers, asked' = asked, verdict' = verdict, changed' = changed
    }
  }
  action answer = {
    val d = elements(coin, 1)
    val z = d._2[0]
    val zd = powmod64(z, deg1.parts, P)
    val cs = cellsOf(es)
    val tv = cs.foldl([], (s, c) => s.append(horner(first.polys[c._1], moved(sys.lg, z, c._2))))
    val av = second.polys.foldl([], (s, p) => s.append(horner(p, zd)))
    val e = elements(hearWords(d._1, sents(tv.concat(av))), tv.length() + av.length())
    val zero = range(0, 2^sys.lg).foldl([], (s, _) => s.append(0))
    val p1 = range(0, cs.length()).foldl(zero, (s, k) => plus(s, e._2[k], without(first.polys[cs[k]._1], moved(sys.lg, z, cs[k]._2))))
    val p2 = range(0, av.length()).foldl(p1, (s, k) => plus(s, e._2[tv.length() + k], without(second.polys[k], zd)))
    all {
      phase == "constraints", phase' = "folding", quiet, coin' = e._1, msgs' = msgs.with("head", msgs.head.concat(sents(tv.concat(av)))),
      layer' = spread(p2, dom, 3),
      first' = first, second' = second, coef' = coef, layers' = layers, asked' = asked, verdict' = verdict, changed' = changed
    }
  }
  action fold1 = {
    val i = layers.length()
    val k = sys.layout[i]
    val groups = range(0, layer.length() / 2^k).foldl([], (s, j) => s.append(layer.slice(2^k * j, 2^k * j + 2^k)))
    val t = tree(groups)
    val e = elements(heard(coin, be(rootOf(t), 32)), 1)
    all {
      phase == "folding", i < sys.layout.length(), phase' = "folding", quiet, coin' = e._1,
      msgs' = msgs.with("head", msgs.head.append(rootOf(t))),
      layers' = layers.append({ values: layer, nodes: t, k: k }), layer' = folded(layer, 0, layer.length(), e._2[0], k),
      first' = first, second' = second, coef' = coef, asked' = asked, verdict' = verdict, changed' = changed
    }
  }
  action finish = {
    val n = layer.length() / sys.blowup
    val last = through(range(0, n).foldl([], (s, i) => s.append(layer[bitrev(i, lgOf(n))])), 1)
    val c = heard(coin, flat(sents(last)))
    val w = work(c.digest, sys.pow)
    val q = positions(heard(c, be(w, 8)), sys.queries, dom)
    all {
      phase == "folding", layers.length() == sys.layout.length(), phase' = "asked", quiet,
      coin' = heard(c, be(w, 8)), msgs' = msgs.with("head", msgs.head.concat(sents(last))).with("nonce", w), asked' = q,
      first' = first, second' = second, coef' = coef, layer' = layer, layers' = layers, verdict' = verdict, changed' = changed
    }
  }
  pure def shown(s: Side, at: List[int]): List[int] =
    at.foldl([], (l, i) => l.concat(sents(s.rows[i]))).concat(opening(s.nodes, at))
  action open = {
    val fri = layers.foldl(([], asked), (s, l) => {
      val at = upward(s._2, 2^l.k)
      val vals = at.foldl([], (m, i) => range(0, 2^l.k).foldl(m, (u, j) =>
        if (has(s._2, 2^l.k * i + j)) u else u.append(sent(l.values[2^l.k * i + j]))))
      (s._1.concat(vals).concat(opening(l.nodes, at)), at)
    })._1
    all {
      phase == "asked", phase' = "done", quiet,
      msgs' = msgs.with("rest", shown(first, asked).concat(shown(second, asked)).concat(fri)),
      coin' = coin, first' = first, second' = second, coef' = coef, layer' = layer, layers' = layers, asked' = asked, verdict' = true, changed' = changed
    }
  }

  // ---- the verifier --------------------------------------------------------
  pure def canonical(l: List[int]): bool = l.select(v => v >= P).length() == 0
  pure def values(l: List[int]): List[int] = l.foldl([], (s, v) => s.append((v * RINV) % P))
  type Read = { ok: bool, at: int, known: List[(int, int)], rows: List[List[int]] }
  // rows of a committed side at the positions asked: (rows, hashes fit)
  pure def readSide(w: List[int], from: int, width: int, lgs: int, at: List[int], want: int): Read = {
    pure val words = w.slice(from, from + width * at.length())
    pure val rows = range(0, at.length()).foldl([], (s, i) => s.append(values(words.slice(width * i, width * i + width))))
    pure val need = missing(lgs, at).length()
    pure val hs = from + width * at.length()
    pure val leaves = range(0, at.length()).foldl([], (s, i) =>
      if (i > 0 and at[i] == at[max2(i - 1, 0)]) s else s.append((at[i], leafOf(rows[i]))))
    pure val twice = range(1, max2(1, at.length())).filter2(i => at[i] == at[i - 1] and rows[i] != rows[i - 1])
    { ok: canonical(words) and twice == 0 and implied(lgs, leaves, w.slice(hs, hs + need)) == want,
      at: hs + need, known: [], rows: rows }
  }
  pure def filter2(l: List[int], f: int => bool): int = l.select(f).length()
  pure def lookup(l: List[(int, int)], i: int): List[(int, int)] = l.select(u => u._1 == i)

  pure def readLayer(w: List[int], from: int, k: int, n: int, known: List[(int, int)], a: int, want: int): Read = {
    pure val idx = distinct(known.foldl([], (s, u) => s.append(u._1 / 2^k)))
    // the values of each coset, read where they do not follow
    pure val got = idx.foldl(([], from, true), (s, i) => {
      pure val v = range(0, 2^k).foldl(([], s._2, s._3), (u, j) => {
        pure val have = lookup(known, 2^k * i + j)
        if (have.length() > 0) (u._1.append(have[0]._2), u._2, u._3)
        else (u._1.append((w[u._2] * RINV) % P), u._2 + 1, u._3 and w[u._2] < P)
      })
      (s._1.append((i, v._1)), v._2, v._3)
    })
    pure val depth = lgOf(n / 2^k)
    pure val need = missing(depth, idx).length()
    pure val leaves = got._1.foldl([], (s, g) => s.append((g._1, leafOf(g._2))))
    { ok: got._3 and implied(depth, leaves, w.slice(got._2, got._2 + need)) == want, at: got._2 + need, rows: [],
      known: got._1.foldl([], (s, g) => s.append((g._1, folded(g._2, 2^k * g._1, n, a, k)[0]))) }
  }

  // how many words come after the nonce
  pure def restLength(s: Sys, parts: int, q: List[int]): int = {
    pure val lgs = lgOf(2^s.lg * s.blowup)
    pure val both = q.length() * (s.cols.length() + parts) + 2 * missing(lgs, q).length()
    s.layout.foldl((both, distinct(q), lgs), (u, k) => {
      pure val idx = upward(u._2, 2^k)
      (u._1 + 2^k * idx.length() - u._2.length() + missing(u._3 - k, idx).length(), idx, u._3 - k)
    })._1
  }

  pure def accepts(s: Sys, e: List[Expr], d: { system: int, parts: int, adjust: List[int] }, p: Proof): bool = {
    pure val n = 2^s.lg * s.blowup
    pure val lgs = lgOf(n)
    pure val cs = cellsOf(e)
    pure val nv = cs.length() + d.parts
    pure val nl = 2^(s.lg - sum(s.layout))
    pure val m = s.layout.length()
    if (p.head.length() != 2 + nv + m + nl) false
    else {
      pure val c1 = elements(heard(opened(s.seed), be(p.head[0], 32)), 2 * e.length())
      pure val c2 = elements(heard(c1._1, be(p.head[1], 32)), 1)
      pure val z = c2._2[0]
      pure val zd = powmod64(z, d.parts, P)
      pure val said = p.head.slice(2, 2 + nv)
      pure val tv = values(said)
      pure val c3 = elements(hearWords(c2._1, said), nv)
      pure val cf = range(0, m).foldl((c3._1, []), (u, i) => {
        pure val x = elements(heard(u._1, be(p.head[2 + nv + i], 32)), 1)
        (x._1, u._2.append(x._2[0])) })
      pure val lastW = p.head.slice(2 + nv + m, 2 + nv + m + nl)
      pure val c4 = heard(cf._1, flat(lastW))
      pure val q = positions(heard(c4, be(p.nonce, 8)), s.queries, n)
      if (not(canonical(said)) or not(canonical(lastW)) or not(worth(c4.digest, s.pow, p.nonce)) or p.rest.length() != restLength(s, d.parts, q)) false
      else {
        pure val t = readSide(p.rest, 0, s.cols.length(), lgs, q, p.head[0])
        pure val a = readSide(p.rest, t.at, d.parts, lgs, q, p.head[1])
        pure val start = distinct(q).foldl([], (u, i) => {
          pure val x = point(n, i, 3)
          pure val j = range(0, q.length()).foldl(0, (b, l) => if (q[l] == i) l else b)
          pure val v1 = range(0, cs.length()).foldl(0, (v, k) =>
            md(v + c3._2[k] * (t.rows[j][cs[k]._1] - tv[k]) * invmod(x - moved(s.lg, z, cs[k]._2), P), P))
          pure val v2 = range(0, d.parts).foldl(v1, (v, k) =>
            md(v + c3._2[cs.length() + k] * (a.rows[j][k] - tv[cs.length() + k]) * invmod(x - zd, P), P))
          u.append((i, v2))
        })
        pure val f = range(0, m).foldl(({ ok: true, at: a.at, known: start, rows: [] }, n), (u, i) => {
          pure val r = readLayer(p.rest, u._1.at, s.layout[i], u._2, u._1.known, cf._2[i], p.head[2 + nv + i])
          (r.with("ok", r.ok and u._1.ok), u._2 / 2^s.layout[i]) })
        pure val last = values(lastW)
        and {
          t.ok, a.ok, f._1.ok,
          f._1.known.select(u => horner(last, point(f._2, u._1, 1)) != u._2).length() == 0,
          combined(e, s.claims, d.adjust, c1._2, z, (c, o) =>
            range(0, cs.length()).foldl(0, (v, k) => if (cs[k] == (c, o)) tv[k] else v)) == horner(tv.slice(cs.length(), nv), z)
        }
      }
    }
  }

  // one word of the proof is changed: by one, by a bit, exchanged with the next
  pure def touch(l: List[int], i: int, how: int): List[int] =
    if (how == 0) l.replaceAt(i, (l[i] + 1) % R256)
    else if (how == 1) l.replaceAt(i, if ((l[i] / 2^255) % 2 == 1) l[i] - 2^255 else l[i] + 2^255)
    else if (how == 2) (if (l[i] < R256 - P) l.replaceAt(i, l[i] + P) else l)
    else if (how == 3 and i + 1 < l.length()) l.replaceAt(i, l[i + 1]).replaceAt(i + 1, l[i])
    else l.replaceAt(i, 0)
  action judge = {
    nondet r = 0.to(2^30 - 1).oneOf()
    nondet how = 0.to(6).oneOf()
    val p = if (how == 5) msgs
      else if (how == 6) msgs.with("nonce", msgs.nonce + 1 + r % 3)
      else if (r % 2 == 0 or msgs.rest.length() == 0) msgs.with("head", touch(msgs.head, (r / 2) % msgs.head.length(), how))
      else msgs.with("rest", touch(msgs.rest, (r / 2) % max2(1, msgs.rest.length()), how))
    all {
      phase == "done" or phase == "judged", phase' = "judged", quiet, changed' = p, verdict' = accepts(sys, es, deg1, p), msgs' = msgs,
      coin' = coin, first' = first, second' = second, coef' = coef, layer' = layer, layers' = layers, asked' = asked
    }
  }
  action onward =
    if (phase == "posed") commitTrace else if (phase == "trace") commitConstraints else if (phase == "constraints") answer
    else if (phase == "folding") (if (layers.length() < sys.layout.length()) fold1 else finish)
    else if (phase == "asked") open else judge
  action init = posed
  action step = onward

  val laws = and {
    airLaws,
    // what the prover makes is accepted; what is not the proof is not, but for
    // changes that say the same
    phase == "judged" implies (changed == msgs implies verdict),
    phase == "judged" implies (changed.head != msgs.head implies not(verdict)),
    phase == "judged" implies (changed.nonce == msgs.nonce and changed.rest != msgs.rest implies not(verdict)),
    // the last folded layer is of low degree
    (phase == "asked" or phase == "done") implies {
      val n = layer.length()
      val last = values(msgs.head.slice(msgs.head.length() - n / sys.blowup, msgs.head.length()))
      spread(last, n, 1) == layer
    }
  }
}
