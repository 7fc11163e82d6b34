// C25: the signature scheme. A signer with key d signs digest h by choosing k,
// r = x(k G) mod n, w = k / (r d + h). Acceptance is the curve equation
// x(h w G + r w Q) mod n = r with r, w non zero and Q on the curve. Every
// behaviour signs, then presents the signature unchanged or altered.
module Ecdsa {
  import Ints.* from "./Ints"
  import CurveLaw.* from "./CurveLaw"

  var d: int
  var h: int
  var k: int
  var pub: (int, int)
  var sig: (int, int)           // as signed; (0, 0) when this k gives none
  var alteration: int
  var shown: { key: (int, int), digest: int, r: int, w: int }
  var accept: bool
  var genuine: bool             // the signature as signed verifies

  // points at the ends of the two ranges: abscissas from n up to p (which leave
  // the remainder 0, 1, 4 ...), the smallest ones, and those just below n
  pure val EDGES: List[(int, int)] = [
    (3618502788666131213697322783095070105526743751716087489154079457884512865583,
     558586329202597889702238829806448283699882935101447713625544062484518604415),
    (3618502788666131213697322783095070105526743751716087489154079457884512865584,
     2009859515743848295529499519988831715841316755851681665905802143411563912098),
    (3618502788666131213697322783095070105526743751716087489154079457884512865587,
     409329830144126031289948194728700156978828817954102536330533714969369449098),
    (3618502788666131213697322783095070105526743751716087489154079457884512865588,
     75012360065948259730019275092006383663580348309238386657142746648303906599),
    (3618502788666131213697322783095070105623107215331596699973092056135872020480,
     3603517484806252937172670264798061946793239093327097344745119383433632500962),
    (3618502788666131213697322783095070105623107215331596699973092056135872020479,
     1590569733678152067628305274404341723250154275858581544347103282501056959027),
    (3618502788666131213697322783095070105623107215331596699973092056135872020476,
     3517578375010140964885282769715685420232309804280076368145420974723754419231),
    (1,
     1130673244253924969006665885121925533155264548256591442770131812330730973800),
    (2,
     1320175131483908534185514677945484737964934090662504296952428365641949792961),
    (3,
     1443006695192081171206652122712103360759589637241162958234285120626266148066),
    (3618502788666131213697322783095070105526743751716087489154079457884512865581,
     1121652548091663442677001623619364971505887890861409756875695928276324975241),
    (3618502788666131213697322783095070105526743751716087489154079457884512865578,
     676085246934544126069110099571786539167003280808424867358861096246612760125)]
  pure def edge(i: int): (int, int) = EDGES[i % EDGES.length()]

  pure def equation(q: (int, int), dg: int, r: int, w: int): bool =
    if (r == 0 or w == 0 or not(onCurve(q))) false
    else {
      pure val s = both(G, (dg * w) % n, q, (r * w) % n)
      if (s == O) false else s._1 % n == r
    }
  pure def sign(key: int, dg: int, nonce: int): (int, int) = {
    pure val t = times(G, nonce)
    pure val r = if (t == O) 0 else t._1 % n
    pure val s = (r * key + dg) % n
    if (r == 0 or s == 0) (0, 0) else (r, (nonce * invmod(s, n)) % n)
  }

  action present(key: int, dg: int, nonce: int, al: int, x: int): bool = {
    pure val q = times(G, key)
    pure val s = sign(key, dg, nonce)
    pure val v =
      if (al == 1) { key: q, digest: (dg + 1 + x % (n - 1)) % n, r: s._1, w: s._2 }
      else if (al == 2) { key: sum(q, G), digest: dg, r: s._1, w: s._2 }
      else if (al == 3) { key: q, digest: dg, r: (s._1 + 1 + x % (n - 1)) % n, w: s._2 }
      else if (al == 4) { key: q, digest: dg, r: s._1, w: (s._2 + 1 + x % (n - 1)) % n }
      else if (al == 5) { key: q, digest: dg, r: s._2, w: s._1 }
      else if (al == 6) { key: q, digest: dg, r: 0, w: s._2 }
      else if (al == 7) { key: q, digest: dg, r: s._1, w: 0 }
      else if (al == 8) { key: neg(q), digest: dg, r: s._1, w: s._2 }
      else if (al == 9) { key: if (q == O) (1, 1) else (q._1, md(q._2 + 1, p)), digest: dg, r: s._1, w: s._2 }
      else if (al == 10) { key: O, digest: dg, r: s._1, w: s._2 }
      // the negated w is the same point up to sign: accepted by the equation
      else if (al == 11) { key: q, digest: dg, r: s._1, w: md(-s._2, n) }
      else if (al == 12) { key: q, digest: md(-dg, n), r: s._1, w: s._2 }
      // r off by one
      else if (al == 13) { key: q, digest: dg, r: md(s._1 + 1, n), w: s._2 }
      // a forgery for the neutral key, and for a digest of zero
      else if (al == 14) { key: O, digest: dg, r: s._1, w: if (dg == 0) 1 else (nonce * invmod(dg, n)) % n }
      else if (al == 15) { key: q, digest: 0, r: s._1, w: s._2 }
      // the two multiples cancel, or are the same point
      else if (al == 16 or al == 17) {
        pure val m = if (s._1 == 0) 1 else md((if (al == 16) -dg else dg) * invmod(s._1, n), n)
        { key: times(G, m), digest: dg, r: s._1, w: s._2 } }
      // the key for which this point is the nonce point: w (dg G + r Q) = R
      else if (al == 18 or al == 19) {
        pure val e = edge(x / 16)
        pure val r = e._1 % n
        pure val w = 1 + (if (al == 18) x else x / 2^128) % (n - 1)
        pure val iw = invmod(w, n)
        pure val ir = if (r == 0) 1 else invmod(r, n)
        { key: times(sum(times(e, iw), neg(times(G, dg))), ir), digest: dg, r: r, w: w } }
      // keys off the curve for which the equation would hold: one of order two
      // whose multiple vanishes, and one that gives the nonce point by itself
      else if (al == 20) {
        pure val w = if (dg == 0) 1 else (nonce * invmod(dg, n)) % n
        { key: (x % p, 0), digest: dg, r: s._1, w: if (((s._1 * w) % n) % 2 == 0) w else md(-w, n) } }
      else if (al == 21) {
        pure val e = (md(x, p), md(x / 2^128 + 1, p))
        pure val t = times(e, nonce)
        pure val r = if (t == O) 1 else t._1 % n
        { key: e, digest: 0, r: r, w: if (r == 0) 1 else (nonce * invmod(r, n)) % n } }
      else { key: q, digest: dg, r: s._1, w: s._2 }
    all {
      d' = key, h' = dg, k' = nonce, pub' = q, sig' = s, alteration' = al, shown' = v,
      accept' = equation(v.key, v.digest, v.r, v.w),
      genuine' = (s == (0, 0) or equation(q, dg, s._1, s._2))
    }
  }
  action init = present(1, 1, 1, 0, 0)
  action step = {
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet r3 = 0.to(R256 - 1).oneOf()
    nondet hd = 0.to(7).oneOf()
    nondet hh = 0.to(7).oneOf()
    nondet hk = 0.to(7).oneOf()
    nondet al = 0.to(24).oneOf()
    present(if (hd == 0) r1 % 4 else if (hd == 1) n - 1 - r1 % 3 else r1 % n,
            if (hh == 0) r2 % 3 else if (hh == 1) n - 1 - r2 % 3 else r2 % n,
            if (hk == 0) 1 + r3 % 5 else if (hk == 1) n - 1 - r3 % 5 else 1 + r3 % (n - 1), al, r3)
  }
  val laws = and {
    onCurve(pub), genuine,
    (alteration == 0 and sig != (0, 0)) implies accept,
    (1 <= alteration and alteration <= 4 and sig != (0, 0) and shown.key != O and shown.w != md(-sig._2, n)) implies not(accept),
    (alteration == 11 and sig != (0, 0)) implies accept,
    (shown.r == 0 or shown.w == 0) implies not(accept),
    ((alteration == 18 or alteration == 19) and shown.r != 0) implies accept,
    alteration == 16 implies not(accept),
    onCurve(shown.key) or Set(9, 20, 21).contains(alteration)
  }
}
