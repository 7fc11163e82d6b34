// Constraint expressions: rational functions of the variable X and of trace
// cells, written in postfix form so that building them is concatenation.
module Expr {
  import Ints.* from "./Ints"

  pure val P: int = 2^251 + 17 * 2^192 + 1
  // o: x | c | t | p | q | + | - | * | i | ^
  // c: constant a.  t: cell of column a, b rows below.  p: polynomial with
  // coefficients p of the operand.  q: claim polynomial number a of degree at
  // most b.  -: negation.  i: inverse.  ^: power a.
  type Tok = { o: str, a: int, b: int, p: List[int] }
  type Expr = List[Tok]

  pure def tok(o: str, a: int, b: int, p: List[int]): Tok = { o: o, a: a, b: b, p: p }
  pure val X: Expr = [tok("x", 0, 0, [])]
  pure def C(v: int): Expr = [tok("c", md(v, P), 0, [])]
  pure def T(col: int, off: int): Expr = [tok("t", col, off, [])]
  pure def poly(p: List[int], e: Expr): Expr = e.append(tok("p", 0, 0, p))
  pure def claim(n: int, bound: int, e: Expr): Expr = e.append(tok("q", n, bound, []))
  pure def add(a: Expr, b: Expr): Expr = a.concat(b).append(tok("+", 0, 0, []))
  pure def neg(a: Expr): Expr = a.append(tok("-", 0, 0, []))
  pure def sub(a: Expr, b: Expr): Expr = add(a, neg(b))
  pure def mul(a: Expr, b: Expr): Expr = a.concat(b).append(tok("*", 0, 0, []))
  pure def inv(a: Expr): Expr = a.append(tok("i", 0, 0, []))
  pure def pow(a: Expr, k: int): Expr = a.append(tok("^", k, 0, []))

  pure def horner(c: List[int], x: int): int =
    range(0, c.length()).foldl(0, (s, i) => (s * x + c[c.length() - 1 - i]) % P)

  // the value where it is defined, -1 where something is divided by zero
  pure def eval(e: Expr, claims: List[List[int]], x: int, cell: (int, int) => int): int =
    e.foldl([], (s, t) => {
      pure val n = s.length()
      if (t.o == "x") s.append(x)
      else if (t.o == "c") s.append(t.a)
      else if (t.o == "t") s.append(cell(t.a, t.b))
      else if (t.o == "+" or t.o == "*") {
        pure val u = s[n - 2]
        pure val v = s[n - 1]
        s.slice(0, n - 2).append(if (u < 0 or v < 0) -1 else if (t.o == "+") (u + v) % P else (u * v) % P)
      } else {
        pure val u = s[n - 1]
        s.replaceAt(n - 1,
          if (u < 0) -1
          else if (t.o == "-") (P - u) % P
          else if (t.o == "i") (if (u == 0) -1 else invmod(u, P))
          else if (t.o == "^") powmod64(u, t.a, P)
          else horner(if (t.o == "p") t.p else claims[t.a], u))
      }
    })[0]

  // degree of a coefficient sequence (0 for zero)
  pure def deg(c: List[int]): int =
    range(0, c.length()).foldl(0, (s, i) => if (c[i] != 0) i else s)

  // (numerator, denominator) degree when X has degree xd and cells td
  pure def degree(e: Expr, xd: int, td: int): (int, int) =
    e.foldl([], (s, t) => {
      pure val n = s.length()
      if (t.o == "x") s.append((xd, 0))
      else if (t.o == "c") s.append((0, 0))
      else if (t.o == "t") s.append((td, 0))
      else if (t.o == "+") {
        pure val u = s[n - 2]
        pure val v = s[n - 1]
        s.slice(0, n - 2).append((max2(u._1 + v._2, v._1 + u._2), u._2 + v._2))
      } else if (t.o == "*") {
        pure val u = s[n - 2]
        pure val v = s[n - 1]
        s.slice(0, n - 2).append((u._1 + v._1, u._2 + v._2))
      } else {
        pure val u = s[n - 1]
        pure val k = if (t.o == "p") deg(t.p) else if (t.o == "q") t.b else t.a
        s.replaceAt(n - 1, if (t.o == "-") u else if (t.o == "i") (u._2, u._1) else (k * u._1, k * u._2))
      }
    })[0]

  // the cells read, in order of (column, offset)
  pure def before(u: (int, int), v: (int, int)): bool = u._1 < v._1 or (u._1 == v._1 and u._2 < v._2)
  pure def insertCell(l: List[(int, int)], c: (int, int)): List[(int, int)] =
    l.select(u => before(u, c)).append(c).concat(l.select(u => before(c, u)))
  pure def cellsInto(l: List[(int, int)], e: Expr): List[(int, int)] =
    e.foldl(l, (s, t) => if (t.o == "t") insertCell(s, (t.a, t.b)) else s)
  pure def cells(e: Expr): List[(int, int)] = cellsInto([], e)

  // X replaced by another expression
  pure def compose(e: Expr, by: Expr): Expr =
    e.foldl([], (s, t) => if (t.o == "x") s.concat(by) else s.append(t))
  pure def substitute(e: Expr, claims: List[List[int]]): Expr =
    e.foldl([], (s, t) => s.append(if (t.o == "q") tok("p", 0, 0, claims[t.a]) else t))

  // pseudo random field element number i of a seed
  pure def mix(seed: int, i: int): int = {
    pure val u = (seed + (i + 1) * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95) % R256
    pure val v = (u * u + u / 2^128 + seed * (2 * i + 1)) % R256
    (v * 0xd1342543de82ef95c0ac29b7c97c50dd3f84d5b5b5470917 + v / 2^120) % P
  }
}
