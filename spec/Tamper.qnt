// C03, C04: proofs that are changed after they were made, and proofs shown for
// another claim. A tamper names what is done to which part of the proof, in
// terms of the protocol's messages; what the verifier must say is stated for
// the changes that always matter, and follows from the protocol for the rest.
module Tamper {
  import Ints.* from "./Ints"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  // kind, on part number `part` (modulo the number of parts), entries i and j
  // (modulo their number), with a value v
  type Change = { kind: str, part: int, i: int, j: int, v: int }
  type Trial = { what: Change, says: str }      // says: reject | same | protocol

  var trials: List[Trial]

  // on the bytes of the proof
  pure val ONBYTES: List[str] = ["flip", "plusP", "zero", "put", "swap", "again", "drop", "cut", "append", "part",
    "other", "shift", "garbage", "tail", "reverse", "long"]
  // on the claim: the proof stays
  pure val ONCLAIM: List[str] = ["seed", "claim", "constant", "blowup", "queries", "pow", "layout", "order", "fewer",
    "cell", "rows", "columns", "degree", "double"]

  // What the verifier says whatever the values: nothing may follow the last
  // opening, and every claim polynomial enters the value at the random point.
  // The other changes alter the challenges, so a proof survives them only where
  // the system is so small that every challenge has the same answer.
  pure def verdict(s: Sys, c: Change): str =
    if (c.kind == "append" or c.kind == "long") "reject"
    else if (c.kind == "claim") (if (s.claims.length() == 0) "same" else "reject")
    else "protocol"

  pure def changeOf(kind: str, r: int): Change =
    { kind: kind, part: r % 64, i: (r / 2^8) % 4096, j: (r / 2^24) % 4096, v: mix(r, 4) }
  pure def trialsOf(s: Sys, r: int, n: int): List[Trial] = {
    pure val all1 = ONBYTES.concat(ONCLAIM)
    range(0, n).foldl([], (l, k) => {
      pure val c = changeOf(all1[k % all1.length()], mix(r, k) / 2^10)
      l.append({ what: c, says: verdict(s, c) })
    })
  }
  action tampered(top: int, n: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet r3 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(3).oneOf()
    nondet nb = 0.to(3).oneOf()
    pure val g = generate(r, lg, nc, nb, 2)
    pure val t = fill(g)
    pure val s = tune(bound(g, t, r, if (g.cons.length() == 0) 1 + nb else nb), r2)
    all { pose(s, t, (-1, 0, 0)), trials' = trialsOf(s, r3, n) }
  }
  action init = tampered(1, 30)
  action step = tampered(3, 90)
  action step4 = tampered(3, 300)

  val laws = and {
    airLaws,
    trials.select(t => t.says == "same" and t.what.kind != "claim").length() == 0
  }
}
