// Constraint systems over execution traces: what a system is, when a trace
// satisfies it, and a generator of systems together with satisfying traces.
module Air {
  import Ints.* from "./Ints"
  import Expr.* from "./Expr" 
  export Expr.*

  // the numerator vanishes on the rows i with i = r mod 2^s, except those of exc
  type Con = { num: Expr, s: int, r: int, exc: List[int], form: int }
  // how a column is filled. free: pseudo random.  flat: start at every row (s =
  // 0), start in row r and zero elsewhere (s = 1), start in every row but r (s =
  // 2), two values in turn (s = 3).  next: row 0 is start, row
  // i + 1 is f at row i.  prev: row 0 is start, row i is f at row i.  point: f
  // at every row.  sparse: f at rows r mod 2^s, pseudo random elsewhere.
  type Col = { kind: str, start: int, f: Expr, s: int, r: int }
  type Sys = { lg: int, cols: List[Col], cons: List[Con], claims: List[List[int]], seed: List[int],
               blowup: int, pow: int, queries: int, layout: List[int] }

  pure val FORMS: int = 73728 * 8
  pure def gen(lg: int): int = powmod(3, (P - 1) / 2^lg, P)

  // the same function, written differently
  pure def away(form: int): Expr = {
    pure val c = C(mix(form, 17))
    if (form % 5 == 0) sub(X, c) else if (form % 5 == 1) add(pow(X, 2), c) else if (form % 5 == 2) sub(c, pow(X, 8))
    else if (form % 5 == 3) poly([mix(form, 1), 1, mix(form, 2), 3], pow(X, 4)) else add(poly([7, mix(form, 3)], neg(X)), pow(c, 3))
  }
  pure def restyle(e: Expr, form: int): Expr =
    if (form % 8 == 6) mul(mul(e, away(form / 8)), inv(away(form / 8)))
    else if (form % 8 == 7) mul(mul(inv(away(form / 8)), e), inv(inv(away(form / 8)))) else
    if (form % 8 == 1) neg(neg(e)) else if (form % 8 == 2) mul(C(1), add(e, C(0)))
    else if (form % 8 == 3) mul(mul(e, C(2)), inv(C(2))) else if (form % 8 == 4) pow(e, 1)
    else if (form % 8 == 5) add(mul(C(5), e), neg(mul(e, C(4)))) else e
  // X - g^row
  pure def onRow(lg: int, row: int, form: int): Expr = {
    pure val g = gen(lg)
    if (form % 3 == 1) sub(X, pow(C(g), row)) else if (form % 3 == 2) sub(X, inv(pow(C(g), 2^lg - row)))
    else sub(X, C(powmod64(g, row, P)))
  }
  // zero exactly on the rows r mod 2^s
  pure def onRows(lg: int, s: int, r: int, form: int): Expr =
    if (s == lg) onRow(lg, r, form)
    else {
      pure val v = powmod64(gen(lg), r * 2^(lg - s), P)
      pure val up = if (form % 2 == 1 and lg - s > 1) pow(pow(X, 2), 2^(lg - s - 1)) else pow(X, 2^(lg - s))
      if (v == 1) sub(up, C(1)) else add(up, C(P - v))
    }
  pure def exempt(lg: int, c: Con): Expr =
    c.exc.foldl([], (s, i) => if (s.length() == 0) onRow(lg, i, c.form) else mul(s, onRow(lg, i, c.form)))
  // the rational function that is a polynomial exactly when the constraint holds
  pure def quotient(lg: int, c: Con): Expr = squared(restyle(plain(lg, c), c.form / 1152), c.form / 73728)
  // a square has the same poles
  pure def squared(e: Expr, form: int): Expr =
    if (degree(e, 0, 1)._1 > 2 or form % 8 < 6) e else if (form % 8 == 6) mul(e, e) else pow(e, 2)
  pure def plain(lg: int, c: Con): Expr = {
    pure val n = restyle(c.num, c.form / 6)
    pure val d = inv(onRows(lg, c.s, c.r, c.form / 48))
    pure val k = (c.form / 96) % 4
    if (c.exc.length() == 0) (if (k % 2 == 0) mul(n, d) else mul(d, n))
    else if (k == 0) mul(n, mul(exempt(lg, c), d)) else if (k == 1) mul(mul(n, d), exempt(lg, c))
    else if (k == 2) mul(mul(n, exempt(lg, c)), d) else mul(exempt(lg, c), mul(d, n))
  }
  pure def exprs(s: Sys): List[Expr] = s.cons.foldl([], (l, c) => l.append(quotient(s.lg, c)))

  // ---- traces: columns of values ------------------------------------------
  type Table = List[List[int]]
  pure def cellAt(t: Table, lg: int, row: int, c: int, o: int): int = t[c][md(row + o, 2^lg)]
  pure def at(e: Expr, claims: List[List[int]], t: Table, lg: int, row: int): int =
    eval(e, claims, powmod64(gen(lg), row, P), (c, o) => cellAt(t, lg, row, c, o))
  pure def flatAt(c: Col, i: int): int =
    if (c.s == 3) mix(c.start, i % 2) else if (c.s == 0 or (c.s == 1) == (i == c.r)) c.start else 0
  pure def fill(s: Sys): Table =
    range(0, s.cols.length()).foldl([], (t, j) => {
      pure val c = s.cols[j]
      t.append(range(0, 2^s.lg).foldl([], (v, i) => v.append(
        if (c.kind == "free") mix(c.start, i)
        else if (c.kind == "flat") flatAt(c, i)
        else if (c.kind == "next") (if (i == 0) c.start else at(c.f, s.claims, t.append(v), s.lg, i - 1))
        else if (c.kind == "prev") (if (i == 0) c.start else at(c.f, s.claims, t.append(v.append(0)), s.lg, i))
        else if (c.kind == "point") at(c.f, s.claims, t, s.lg, i)
        else if (i % 2^c.s == c.r) at(c.f, s.claims, t, s.lg, i) else mix(c.start, i))))
    })
  // ---- satisfaction --------------------------------------------------------
  pure def applies(c: Con, row: int): bool = row % 2^c.s == c.r and c.exc.select(i => i == row).length() == 0
  pure def broken(s: Sys, t: Table): List[(int, int)] =
    range(0, 2^s.lg).foldl([], (l, i) => range(0, s.cons.length()).foldl(l, (m, k) =>
      if (applies(s.cons[k], i) and at(s.cons[k].num, s.claims, t, s.lg, i) != 0) m.append((i, k)) else m))

  // ---- degrees -------------------------------------------------------------
  pure def degreeOf(es: List[Expr]): int =
    es.foldl(0, (m, q) => { pure val d = degree(q, 0, 1)  max2(m, d._1 - d._2) })
  // what is missing to the degree of the whole
  pure def adjust(lg: int, top: int, q: Expr): int = { pure val d = degree(q, 1, 2^lg - 1)  top * 2^lg - 1 + d._2 - d._1 }
  pure def partsOf(es: List[Expr]): int = 2^bitlen(max2(degreeOf(es) - 1, 0))
  pure def sysDegree(s: Sys): int = degreeOf(exprs(s))
  pure def parts(s: Sys): int = partsOf(exprs(s))
  pure def sum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def wellFormed(s: Sys, es: List[Expr]): bool = {
    pure val top = degreeOf(es)
    and {
      top > 0, partsOf(es) <= s.blowup,
      es.select(q => adjust(s.lg, top, q) < 0).length() == 0,
      sum(s.layout) <= s.lg
    }
  }

  // ---- generation ----------------------------------------------------------
  // periodic column with 2^k values, at a rotation of the rows
  pure def periodic(lg: int, k: int, p: List[int], rot: int): Expr = {
    pure val v = if (rot == 0) X else mul(X, C(powmod64(gen(lg), md(rot, 2^lg), P)))
    poly(p, if (k == lg) v else if (rot == 0 and p[0] % 3 == 0) pow(pow(v, 2^((lg - k) / 2)), 2^(lg - k - (lg - k) / 2)) else pow(v, 2^(lg - k)))
  }
  pure def coefs(r: int, n: int): List[int] = range(0, n).foldl([], (s, i) => s.append(mix(r, i)))
  // a cell of the first m columns, raised to a power
  pure def cellE(r: int, m: int, off: int): Expr = {
    pure val t = T(r % m, off)
    [t, t, t, pow(t, 2), pow(t, 3)][(r / 8) % 5]
  }
  // a constant, computed from others in some way
  pure def konstE(r: int): Expr = {
    pure val a = C(mix(r, 51))
    pure val b = C(1 + mix(r, 52) % (P - 1))
    pure val n = (r / 2^9) % 20
    [a, mul(a, b), add(a, b), sub(a, b), mul(a, inv(b)), pow(a, 2 + n), poly([mix(r, 53), 3, mix(r, 54), 0], a),
     mul(neg(a), pow(b, 3)), add(mul(a, b), inv(b)), mul(mul(a, b), poly([0, 1, 5, 2], neg(b)))][(r / 2^4) % 10]
  }
  // a monomial in X as a product of powers, of degree below twice the rows
  pure def powersE(r: int, lg: int): Expr = {
    pure val i = r % (lg + 1)
    pure val j = (r / 2^6) % (lg + 1)
    pure val u = pow(X, 2^i)
    pure val v = pow(X, 2^j)
    if (2^i + 2^j + 1 >= 2 * 2^lg) X
    else if ((r / 2^12) % 4 == 0) mul(mul(konstE(r / 2^20), u), v) else if ((r / 2^12) % 4 == 1) mul(u, mul(v, konstE(r / 2^20)))
    else if ((r / 2^12) % 4 == 2) add(mul(u, v), mul(konstE(r / 2^20), u)) else mul(u, v)
  }
  // value at most one row away from the columns below m: sums of products
  pure def body(r: int, lg: int, m: int, off: int, per: bool): Expr = {
    pure val w = mix(r, 77)
    pure val t1 = mul(if (w % 3 == 0) C(1) else if (w % 3 == 1) konstE(w / 4) else C(w), cellE(r / 2, m, off))
    pure val t2 = mul(cellE(r / 64, m, off), cellE(r / 512, m, off))
    pure val k = min2((r / 4096) % 4, lg)
    pure val p = periodic(lg, k, coefs(r, 2^k), off)
    pure val a = if ((r / 8192) % 3 == 0) t1 else if ((r / 8192) % 3 == 1) add(t1, t2) else sub(t2, mul(t1, C(7)))
    pure val b0 = if (per and (r / 32768) % 2 == 0) (if ((r / 65536) % 2 == 0) add(p, a) else mul(a, p)) else a
    pure val b = if (per and lg > 1 and (w / 2^30) % 4 == 0) add(powersE(w / 2^40, lg), b0) else b0
    if ((r / 131072) % 4 == 0) add(b, konstE(mix(r, 9))) else if ((r / 131072) % 4 == 1) mul(b, inv(C(3))) else b
  }
  pure def colGen(r: int, lg: int, j: int, far: int): Col = {
    pure val k = (r / 2^60) % 8
    pure val s = (r / 2^64) % (lg + 1)
    pure val st = if ((r / 2^70) % 5 == 0) r % 3 else mix(r, 1)
    pure val o = ((r / 2^80) % (2 * far + 1)) - far
    if (k < 3) { kind: "next", start: st, f: body(r, lg, j + 1, 0, true), s: 0, r: 0 }
    else if (k == 3) { kind: "prev", start: st, f: body(r, lg, j + 1, -1, true), s: 0, r: 0 }
    else if (k < 6 and j > 0) { kind: "point", start: 0, f: body(r, lg, j, o, true), s: 0, r: 0 }
    else if (k == 6 and j > 0) { kind: "sparse", start: st, f: body(r, lg, j, o, false), s: s, r: (r / 2^90) % 2^s }
    else if ((r / 2^100) % 3 == 0)
      { kind: "flat", start: [0, 1, P - 1, st][(r / 2^104) % 4], f: C(0), s: (r / 2^110) % 4, r: [0, (r / 2^120) % 2^lg][(r / 2^114) % 2] }
    else { kind: "free", start: st, f: C(0), s: 0, r: 0 }
  }
  pure def conOf(c: Col, j: int, lg: int, form: int): List[Con] =
    if (c.kind == "free" or c.kind == "flat") []
    else if (c.kind == "next") [{ num: sub(T(j, 1), c.f), s: 0, r: 0, exc: [2^lg - 1], form: form }]
    else if (c.kind == "prev") [{ num: sub(T(j, 0), c.f), s: 0, r: 0, exc: [0], form: form }]
    else [{ num: sub(c.f, T(j, 0)), s: c.s, r: c.r, exc: [], form: form }]

  // cut 'left' reductions into parts of at most 4, which is what the prover folds at once
  pure def layoutOf(r: int, left: int): List[int] =
    range(0, left).foldl(([], left, r), (s, _) =>
      if (s._2 == 0) s else {
        pure val k = min2(s._2, 1 + s._3 % 4)
        (s._1.append(k), s._2 - k, s._3 / 4) })._1

  // a system with nc columns over 2^lg rows; boundary values are read off the trace
  pure def generate(r: int, lg: int, nc: int, nb: int, far: int): Sys = {
    pure val cs = range(0, nc).foldl([], (l, j) => l.append(colGen(mix(r, 100 + j) * 2^4 + r % 16, lg, j, far)))
    pure val rules = range(0, nc).foldl([], (l, j) => l.concat(conOf(cs[j], j, lg, mix(r, 200 + j) % FORMS)))
    pure val base = { lg: lg, cols: cs, cons: rules, claims: [], seed: [], blowup: 2, pow: 0, queries: 1, layout: [] }
    base
  }
  // boundary constraints on cells (column, row): to the trace's own values, as
  // a constant or as a claim polynomial through the value
  pure def bound(s: Sys, t: Table, r: int, nb: int): Sys =
    range(0, nb).foldl(s, (u, i) => {
      pure val w = mix(r, 300 + i)
      pure val c = w % s.cols.length()
      pure val row = [0, 2^s.lg - 1, (w / 64) % 2^s.lg, (w / 1024) % 2^s.lg][(w / 8) % 4]
      pure val v = t[c][row]
      pure val g = powmod64(gen(s.lg), row, P)
      if ((w / 2^40) % 3 > 0 or s.lg < 2)
        u.with("cons", u.cons.append({ num: sub(T(c, 0), C(v)), s: s.lg, r: row, exc: [], form: (w / 2^50) % FORMS }))
      else {
        // q = v - slope y^k + slope Y^k, for Y = X^e
        pure val k = 1 + (w / 2^44) % 3
        pure val e = if (s.lg < 3) 1 else if (s.lg == 3) [1, 1, 2][(w / 2^46) % 3] else [1, 2, 3, 4][(w / 2^46) % 4]
        pure val arg = if (e == 1) X else if (e == 4 and (w / 2^48) % 2 == 0) pow(pow(X, 2), 2) else pow(X, e)
        pure val slope = mix(w, 1)
        pure val q = [md(v - slope * powmod64(g, e * k, P), P)].concat(range(1, 4).foldl([], (l, j) => l.append(if (j == k) slope else 0)))
        // a value at a row that has nothing to do with the trace
        pure val row2 = (w / 2^70) % 2^s.lg
        pure val known = { num: sub(claim(u.claims.length(), 3, arg), C(horner(q, powmod64(gen(s.lg), row2 * e, P)))),
                           s: s.lg, r: row2, exc: [], form: (w / 2^90) % 73728 }
        pure val met = { num: sub(T(c, 0), claim(u.claims.length(), 3, arg)), s: s.lg, r: row, exc: [], form: (w / 2^50) % FORMS }
        pure val which = (w / 2^60) % 8
        u.with("claims", u.claims.append(q))
         .with("cons", if (which < 5) u.cons.append(met) else if (which < 7) u.cons.append(known).append(met)
                       else if (u.cons.length() > 0) u.cons.append(known) else u.cons.append(met))
      }
    })
}
