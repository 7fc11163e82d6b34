// C06: proofs of work of every difficulty on searches of any width. The search
// itself is specified in tla/PowSearch.tla; here it is posed: a system so small
// that the work dominates, a transcript decided by the seed, a difficulty, the
// number of searching threads and how often the search is repeated.
module PowGen {
  import Ints.* from "./Ints"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  var threads: int
  var repeats: int
  // Work that no search could do: the proof shows `shown` zero bits of the `pow`
  // that are asked for, and is refused. -1: an honest search.
  var shown: int

  action posed(top: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(2).oneOf()
    nondet p = 0.to(top).oneOf()
    nondet th = 1.to(9).oneOf()
    nondet far = 0.to(2).oneOf()
    nondet much = 13.to(255).oneOf()
    nondet some = 0.to(top).oneOf()
    pure val g = generate(r, lg, 1, 1, 1)
    pure val t = fill(g)
    pure val s = tune(bound(g, t, r, 1), r)
    all {
      pose(s.with("pow", if (far == 0) much else p).with("queries", 1 + r % 3), t, (-1, 0, 0)),
      threads' = th, repeats' = if (far == 0) 0 else if (p < 8) 24 else if (p < 14) 6 else 1,
      shown' = if (far == 0) (if (some < much) some else much - 1) else -1
    }
  }
  action init = posed(4)
  action step = posed(16)
  action deep = posed(20)
  val laws = airLaws and shown < sys.pow
}
