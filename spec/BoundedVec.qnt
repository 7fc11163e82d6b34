// C26: the memory-mapped vector is a vector with a fixed capacity. Two vectors
// a and b; each step applies one operation to one of them (`w`), records
// whether it is refused, and the contents afterwards.
module BoundedVec {
  import Ints.* from "./Ints"
  type Op = { name: str, w: int, n: int, v: int, vs: List[int] }
  var cap: List[int]           // capacities of a and b
  var vec: List[List[int]]     // contents of a and b
  var op: Op
  var refused: bool            // the call does not return
  var loose: bool              // refused part way: contents may have grown by a prefix of vs
  var equal: bool              // a == b
  var seq: int                 // position in an enumerated sequence
  var num: int                 // its number

  pure def fill(n: int, v: int): List[int] = range(0, n).foldl([], (s, _) => s.append(v))

  // <<contents, capacity, refused, loose>> of the vector after the operation
  pure def apply(o: Op, c: int, l: List[int], other: List[int], oc: int): (List[int], int, bool, bool) = {
    pure val len = l.length()
    if (o.name == "new") ([], o.n, false, false)
    else if (o.name == "zero") (fill(o.n, 0), o.n, false, false)
    else if (o.name == "push") (if (len < c) l.append(o.v) else l, c, len >= c, false)
    else if (o.name == "extend_slice") (if (len + o.vs.length() <= c) l.concat(o.vs) else l, c, len + o.vs.length() > c, false)
    else if (o.name == "extend" or o.name == "extend_ref")
      (if (len + o.vs.length() <= c) l.concat(o.vs) else l, c, len + o.vs.length() > c, len + o.vs.length() > c)
    else if (o.name == "resize") (if (o.n > c) l else if (o.n <= len) l.slice(0, o.n) else l.concat(fill(o.n - len, o.v)), c, o.n > c, false)
    else if (o.name == "truncate") (if (o.n < len) l.slice(0, o.n) else l, c, false, false)
    else if (o.name == "clear") ([], c, false, false)
    else if (o.name == "write") (if (o.n < len) l.replaceAt(o.n, o.v) else l, c, o.n >= len, false)
    else if (o.name == "swap") (if (len > 1) l.replaceAt(o.n % len, l[o.v % len]).replaceAt(o.v % len, l[o.n % len]) else l, c, false, false)
    else if (o.name == "reverse") (rev(l), c, false, false)
    else if (o.name == "clone") (other, oc, false, false)
    else if (o.name == "bomb_slice" or o.name == "bomb_extend")
      // cloning the n-th of the values fails: what was there before stays
      (l, c, true, true)
    // the iterator fails after n values; cloning the value that fills fails
    else if (o.name == "bomb_iter" or o.name == "bomb_resize") (l, c, true, true)
    // cloning an element of the other vector fails: nothing is assigned
    else if (o.name == "bomb_clone") (if (other.length() > 0) (l, c, true, false) else (other, oc, false, false))
    // dropping one of the elements removed fails: they are all gone nevertheless
    else if (o.name == "mine_truncate" or o.name == "mine_resize") (if (o.n < len) l.slice(0, o.n) else l, c, o.n < len, false)
    else if (o.name == "mine_clear") ([], c, len > 0, false)
    else (l, c, false, false)
  }
  action perform(o: Op): bool = {
    val r = apply(o, cap[o.w], vec[o.w], vec[1 - o.w], cap[1 - o.w])
    val nv = vec.replaceAt(o.w, r._1)
    all { vec' = nv, cap' = cap.replaceAt(o.w, r._2), op' = o, refused' = r._3, loose' = r._4, equal' = (nv[0] == nv[1]) }
  }
  pure val NAMES: List[str] = ["new", "zero", "push", "push", "push", "push", "extend_slice", "extend", "extend_ref", "resize", "resize",
    "truncate", "clear", "write", "write", "swap", "reverse", "clone", "bomb_slice", "bomb_extend", "bomb_iter",
    "bomb_clone", "bomb_resize", "mine_truncate", "mine_resize", "mine_clear", "nothing"]
  action step = {
    nondet k = 0.to(26).oneOf()
    nondet w = 0.to(1).oneOf()
    nondet big = 0.to(3).oneOf()
    nondet n0 = 0.to(45).oneOf()
    nondet m = 0.to(9).oneOf()
    nondet v = 0.to(9).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    val c = cap[w]
    val len = vec[w].length()
    // near the length and the capacity more often than anywhere
    val n = if (NAMES[k] == "new" or NAMES[k] == "zero") (if (big == 0) n0 else n0 % 5)
            else [len, c, len + 1, c + 1, max2(len - 1, 0), max2(c - 1, 0), n0, n0, 0, c][m]
    val room = max2(c - len, 0)
    val many = [room, room + 1, max2(room - 1, 0), v % 4][big]
    val vs = range(0, many).foldl([], (s, i) => s.append((r / 2^(3 * (i % 20)) + i) % 10))
    val name = NAMES[k]
    val bomb = Set("bomb_slice", "bomb_extend", "bomb_iter").contains(name)
    all {
      // filling fails at the first clone, so there have to be two to fill in
      if (name == "bomb_resize" and room < 2) perform({ name: "nothing", w: w, n: 0, v: 0, vs: [] })
      else if (name == "bomb_resize") {
        val goal = len + 2 + n0 % (room - 1)
        perform({ name: name, w: w, n: goal, v: v, vs: fill(goal - len, v) })
      } else if (Set("mine_truncate", "mine_resize").contains(name) and len > 0 and v < 8)
        perform({ name: name, w: w, n: n0 % len, v: v, vs: [] })
      else perform({ name: name, w: w, n: if (bomb) (if (many == 0) 0 else n0 % many) else if (name == "mine_resize") min2(n, len) else n, v: v,
                vs: if (bomb) (if (room == 0 or vs.length() == 0) [1] else vs.slice(0, min2(room, vs.length()))) else vs }),
      seq' = 0, num' = 0
    }
  }
  action init = all {
    cap' = [3, 0], vec' = [[], []], op' = { name: "nothing", w: 0, n: 0, v: 0, vs: [] },
    refused' = false, loose' = false, equal' = true, seq' = 0, num' = 0
  }

  // every sequence of LEN operations from a small alphabet, from a fresh pair
  pure val ALPHABET: List[Op] = [
    { name: "push", w: 0, n: 0, v: 1, vs: [] }, { name: "push", w: 1, n: 0, v: 2, vs: [] },
    { name: "extend_slice", w: 0, n: 0, v: 0, vs: [3, 4] }, { name: "extend_ref", w: 0, n: 0, v: 0, vs: [5, 6] },
    { name: "extend", w: 0, n: 0, v: 0, vs: [7] },
    { name: "resize", w: 0, n: 1, v: 8, vs: [] }, { name: "resize", w: 0, n: 3, v: 9, vs: [] }, { name: "resize", w: 0, n: 4, v: 9, vs: [] },
    { name: "truncate", w: 0, n: 1, v: 0, vs: [] }, { name: "clear", w: 0, n: 0, v: 0, vs: [] },
    { name: "write", w: 0, n: 1, v: 10, vs: [] }, { name: "clone", w: 1, n: 0, v: 0, vs: [] },
    { name: "clone", w: 0, n: 0, v: 0, vs: [] }, { name: "bomb_slice", w: 0, n: 1, v: 0, vs: [3, 4] },
    { name: "mine_truncate", w: 0, n: 1, v: 0, vs: [] }, { name: "bomb_clone", w: 1, n: 1, v: 0, vs: [] } ]
  pure val K: int = 16
  // state number c: sequence c / (len + 1), position c % (len + 1); position 0 is the fresh pair
  action fresh(c: int): bool = all {
    cap' = [3, 2], vec' = [[], []], op' = { name: "start", w: 0, n: 0, v: 0, vs: [] },
    refused' = false, loose' = false, equal' = true, seq' = 0, num' = c
  }
  action onward(len: int): bool =
    if (seq == len) fresh(num + 1)
    else {
      val o = ALPHABET[(num / K^seq) % K]
      // bombs only where the values would fit
      val p = if (o.name == "bomb_slice" and vec[0].length() + 2 > cap[0]) o.with("name", "nothing") else o
      all { perform(p), seq' = seq + 1, num' = num }
    }
  val laws = and {
    vec[0].length() <= cap[0], vec[1].length() <= cap[1], loose implies refused
  }
}
