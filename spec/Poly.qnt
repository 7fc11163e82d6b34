// C11: polynomials by their coefficients, and tables of cells.
module Poly {
  import Ints.* from "./Ints"
  import Expr.* from "./Expr"

  var p: List[int]               // the polynomial
  var target: List[int]          // accumulates quotients
  var table: List[List[int]]     // columns
  // what was done; for "look": at x the value is v, extended by factor i
  var op: { kind: str, i: int, j: int, x: int, v: int, row: List[int] }
  var values: List[int]          // the polynomial on the extended domain, in order of the code's positions
  var polys: List[List[int]]     // interpolants of the columns, when asked for

  pure def gen2(k: int): int = powmod(3, (P - 1) / 2^k, P)
  pure def log2(n: int): int = bitlen(n) - 1
  pure def degOf(c: List[int]): int = deg(c)
  // (a - a(z)) / (X - z)
  pure def quotientOf(a: List[int], z: int): List[int] =
    range(0, a.length()).foldl(([], 0), (s, i) => {
      pure val k = a.length() - 1 - i
      ([s._2].concat(s._1), (s._2 * z + a[k]) % P)
    })._1
  pure def plus(a: List[int], b: List[int], c: int): List[int] =
    range(0, a.length()).foldl([], (s, i) => s.append(if (i < b.length()) (a[i] + c * b[i]) % P else a[i]))
  pure def extended(a: List[int], b: int): List[int] = {
    pure val k = log2(a.length()) + b
    pure val g = gen2(k)
    range(0, 2^k).foldl([], (s, i) => s.append(horner(a, 3 * powmod64(g, bitrev(i, k), P) % P)))
  }
  // the polynomial of least degree through the values at the powers of the root
  pure def through(c: List[int]): List[int] = {
    pure val k = log2(c.length())
    pure val w = invmod(gen2(k), P)
    pure val n1 = invmod(2^k, P)
    range(0, 2^k).foldl([], (s, j) => s.append(horner(c, powmod64(w, j, P)) * n1 % P))
  }
  pure def someCoeffs(r: int, n: int): List[int] =
    range(0, n).foldl([], (s, i) => s.append(
      if (i >= n - (r / 7) % (n + 1) and r % 3 == 0) 0 else if ((r / 64 + i) % 5 == 0) [0, 1, P - 1][(r / 512 + i) % 3] else mix(r, i)))
  pure def point(r: int, k: int): int =
    if (r % 5 == 0) [0, 1, P - 1][(r / 8) % 3] else if (r % 5 == 1) powmod64(gen2(k), r / 64, P) else mix(r, 2)

  pure def noop(kind: str): { kind: str, i: int, j: int, x: int, v: int, row: List[int] } =
    { kind: kind, i: 0, j: 0, x: 0, v: 0, row: [] }

  action another(top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet k = 0.to(top).oneOf()
    nondet more = 0.to(2).oneOf()
    all {
      p' = someCoeffs(r, 2^k),
      // the target has room for the quotients, and often for more
      target' = someCoeffs(r / 2^100, 2^(k + if (r % 4 == 0) more else 0)),
      op' = noop("poly"), values' = [], polys' = [], table' = table
    }
  }
  action look(top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet b = 0.to(3).oneOf()
    val x = point(r, log2(p.length()))
    val e = if (log2(p.length()) + b > top) 0 else b
    all {
      op' = noop("look").with("x", x).with("v", horner(p, x)).with("i", e).with("j", degOf(p)),
      values' = extended(p, e), p' = p, target' = target, table' = table, polys' = []
    }
  }
  action divide = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    val z = point(r, log2(p.length()))
    val c = if (r2 % 4 == 0) [0, 1, P - 1][(r2 / 8) % 3] else mix(r2, 0)
    all {
      target' = plus(target, quotientOf(p, z), c),
      op' = noop("divide").with("x", z).with("v", c), values' = [], polys' = [], p' = p, table' = table
    }
  }
  action fresh(top: int): bool = {
    nondet k = 0.to(top).oneOf()
    nondet nc = 1.to(6).oneOf()
    all {
      table' = range(0, nc).foldl([], (t, _) => t.append(range(0, 2^k).foldl([], (s, _) => s.append(0)))),
      op' = noop("table").with("i", 2^k).with("j", nc), values' = [], polys' = [], p' = p, target' = target
    }
  }
  // a cell by position, through its row, or a whole row
  action write = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet how = Set("cell", "slot", "row").oneOf()
    val nc = table.length()
    val n = table[0].length()
    val i = [0, n - 1, (r / 8) % n][r % 3]
    val j = (r / 2^60) % nc
    val v = mix(r, 1)
    val row = range(0, nc).foldl([], (s, c) => s.append(mix(r, 10 + c)))
    all {
      table' = range(0, nc).foldl([], (t, c) => t.append(
        if (how == "row") table[c].replaceAt(i, row[c]) else if (c == j) table[c].replaceAt(i, v) else table[c])),
      op' = { kind: how, i: i, j: j, x: 0, v: v, row: if (how == "row") row else [] },
      values' = [], polys' = [], p' = p, target' = target
    }
  }
  action interpolate = all {
    polys' = table.foldl([], (l, c) => l.append(through(c))),
    op' = noop("interpolate"), values' = [], p' = p, target' = target, table' = table
  }
  action init = all {
    p' = [1], target' = [0], table' = [[0]], op' = noop("start"), values' = [], polys' = []
  }
  action step = any { another(4), look(6), look(6), divide, divide, fresh(4), write, write, write, write, write, interpolate }

  val laws = and {
    // the interpolants take the values
    range(0, polys.length()).foldl(true, (ok, c) => ok and {
      val k = log2(table[c].length())
      val g = gen2(k)
      range(0, 2^k).select(i => horner(polys[c], powmod64(g, i, P)) != table[c][i]).length() == 0
    }),
    // quotient times divisor plus remainder is the polynomial
    op.kind != "divide" or {
      val q = quotientOf(p, op.x)
      val at = mix(op.v, 3)
      (horner(q, at) * (at + P - op.x) + horner(p, op.x)) % P == horner(p, at)
    },
    op.kind != "look" or values.length() == p.length() * 2^op.i
  }
}
