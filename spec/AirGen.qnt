// C01, C02, C05, C07, C08, C09: systems with traces, satisfying and spoiled in one cell.
module AirGen {
  import Ints.* from "./Ints"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  action step = small(4, 3, 4)
  action init = small(3, 2, 2)
  // more rows and columns, neighbours further off
  action middle = small(6, 9, 6)
  // many constraints, on many cells
  action many(lo: int, hi: int): bool = crowded(3, lo, hi)
  // traces too long to be spelled out: the rules stand for them
  action large(lo: int, hi: int): bool = {
    nondet lg = lo.to(hi).oneOf()
    big(lg)
  }
  // beyond the prover's unit of parallel work, least blow-up
  action huge(lg: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet q = 1.to(20).oneOf()
    pure val w = ruled(generate(r, lg, 2, 0, 3))
    pose(w.with("blowup", max2(2, 2^bitlen(max2(sysDegree(w) - 1, 0)))).with("queries", q).with("pow", 3).with("layout", layoutOf(r, lg - r % 9)),
         [], (-1, 0, 0))
  }
  val laws = airLaws
}
