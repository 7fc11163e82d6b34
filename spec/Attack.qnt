// C02, C05, C06: dishonest provers. A proof is made in protocol order, each
// step honestly or not; the verifier's checks are stated on what was done.
module Attack {
  import Ints.* from "./Ints"
  import Air.* from "./Air"
  import AirState.* from "./AirState"

  type Dev = { kind: str, k: int }
  // what a proof is made of, symbolically
  type Proof = {
    satisfied: bool,       // the trace used meets the constraints
    complete: bool,        // every message went into the prover's transcript
    opensT: bool, opensC: bool,   // roots and answers of trace and constraint oracle belong together
    linkedT: bool, linkedC: bool, // and are of the functions used from there on
    combined: bool,        // the constraint polynomials are the combination of all constraints
    values: bool,          // the values out of domain are those of the functions
    low: bool,             // the first FRI layer is of low degree
    opensL: List[bool],    // layer roots and answers belong together
    folds: List[bool],     // layer k (last: the coefficients) is the fold of the one before
    work: int, asked: bool // zero bits of the nonce; positions answered are those drawn
  }
  type Attack = { devs: List[Dev], fails: List[str] }

  var attacks: List[Attack]
  var spoiled: bool
  var lied: bool                     // the claim was changed after the trace was made

  pure def honest(layers: int, satisfied: bool, need: int): Proof = {
    satisfied: satisfied, complete: true, opensT: true, opensC: true, linkedT: true, linkedC: true, combined: true,
    values: true, low: true, opensL: range(0, layers).foldl([], (l, _) => l.append(true)),
    folds: range(0, layers + 1).foldl([], (l, _) => l.append(true)), work: need, asked: true }
  pure def unset(l: List[bool], k: int): List[bool] = if (k < l.length()) l.replaceAt(k, false) else l
  pure def deviate(p: Proof, d: Dev): Proof =
    if (d.kind == "omit") p.with("complete", false)
    else if (d.kind == "zeros") p.with("work", d.k)
    else if (d.kind == "traceRoot" or d.kind == "traceRow" or d.kind == "traceTwice") p.with("opensT", false)
    else if (d.kind == "consRoot" or d.kind == "consRow" or d.kind == "consTwice") p.with("opensC", false)
    else if (d.kind == "traceLeaf") p.with("linkedT", false)
    else if (d.kind == "consLeaf") p.with("linkedC", false)
    else if (d.kind == "free" or d.kind == "skip") p.with("combined", false)
    else if (d.kind == "traceValue" or d.kind == "consValue") p.with("values", false)
    else if (d.kind == "degree" or d.kind == "highFri") p.with("low", false)
    else if (d.kind == "layerRoot") p.with("opensL", unset(p.opensL, d.k))
    else if (d.kind == "layer" or d.kind == "last" or d.kind == "vanish")
      p.with("folds", unset(p.folds, if (d.kind == "layer") d.k else p.folds.length() - 1))
    // one value committed to is wrong: of the trace, the constraints or a layer
    else if (d.kind == "spot")
      (if (d.k % 16 == 0) p.with("linkedT", false) else if (d.k % 16 == 1) p.with("linkedC", false)
       else p.with("folds", unset(p.folds, d.k % 16 - 2)))
    else if (d.kind == "own") p.with("asked", false)
    else p  // another valid nonce
  pure def every(l: List[bool]): bool = l.select(b => not(b)).length() == 0
  // the checks of the verifier that a proof can not pass (but by chance)
  pure def fails(p: Proof, need: int): List[str] =
    [("challenges", p.complete and p.asked), ("work", p.work >= need), ("trace opening", p.opensT),
     ("constraint opening", p.opensC), ("first layer", p.linkedT and p.linkedC), ("layer opening", every(p.opensL)),
     ("folding", every(p.folds)), ("last layer", p.low and p.values), ("out of domain", p.satisfied and p.combined and p.values)]
    .select(c => not(c._2)).foldl([], (l, c) => l.append(c._1))

  pure val KINDS: List[str] = ["omit", "zeros", "traceRoot", "consRoot", "traceLeaf", "consLeaf", "free", "skip",
    "traceValue", "consValue", "degree", "highFri", "layerRoot", "layer", "last", "vanish", "own", "second",
    "traceRow", "consRow", "traceTwice", "consTwice", "spot"]
  // messages before the queries: two roots, the values, layer roots, last layer, nonce
  pure def messages(s: Sys): int =
    2 + exprs(s).foldl([], (l, e) => cellsInto(l, e)).length() + parts(s) + s.layout.length() + 2
  pure def devOf(s: Sys, kind: str, r: int): Dev = {
    kind: kind,
    k: if (kind == "omit") r % messages(s)
       else if (kind == "zeros") (if (s.pow == 0) 0 else if (r % 3 == 0) s.pow + 1 else if (r % 3 == 1) s.pow - 1 else r % s.pow)
       else if (kind == "layerRoot") (if (s.layout.length() == 0) 0 else r % s.layout.length())
       else if (kind == "layer") r % (s.layout.length() + 1)
       // where; which of the queries runs into it; which value
       else if (kind == "spot") r % (s.layout.length() + 2) + 16 * ((r / 16) % 64)
       else r % 1000
  }
  // n attacks; each with one deviation, some with two, some on a spoiled trace alone
  pure def plan(s: Sys, ok: bool, r: int, wide: bool): List[Attack] = {
    pure val ones = if (wide)
        range(0, KINDS.length()).foldl([], (l, i) => l.append([devOf(s, KINDS[i], mix(r, i) / 2^20)]))
          .concat(range(0, messages(s)).foldl([], (l, i) => l.append([{ kind: "omit", k: i }])))
          .concat(range(0, s.layout.length()).foldl([], (l, i) =>
            l.append([{ kind: "layerRoot", k: i }]).append([{ kind: "layer", k: i }])))
          .concat(range(0, 2 * s.layout.length() + 4).foldl([], (l, i) =>
            l.append([{ kind: "spot", k: i / 2 + 16 * (mix(r, 70 + i) % 64) }])))
          .concat(range(0, s.cons.length()).foldl([], (l, i) => l.append([{ kind: "skip", k: i }])))
      else []
    pure val more = range(0, if (ok) 6 else 3).foldl([], (l, i) => {
      pure val w = mix(r, 50 + i)
      l.append([devOf(s, KINDS[w % KINDS.length()], w / 2^30), devOf(s, KINDS[(w / 2^10) % KINDS.length()], w / 2^50)])
    })
    pure val sets = [[]].concat(ones).concat(more)
    sets.foldl([], (l, ds) => l.append({ devs: ds,
      fails: fails(ds.foldl(honest(s.layout.length(), ok, s.pow), (p, d) => deviate(p, d)), s.pow) }))
  }
  // some claim polynomial in another place
  pure def lie(s: Sys, r: int): Sys = if (s.claims.length() == 0) s else {
    pure val k = r % s.claims.length()
    pure val i = (r / 16) % 4
    s.with("claims", s.claims.replaceAt(k, s.claims[k].replaceAt(i, (s.claims[k][i] + 1 + mix(r, 3) % (P - 1)) % P)))
  }
  action attacked(top: int, wide: bool, lo: int, hi: int): bool = {
    nondet r = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet r3 = 0.to(R256 - 1).oneOf()
    nondet lg = 0.to(top).oneOf()
    nondet nc = 1.to(3).oneOf()
    nondet nb = lo.to(hi).oneOf()
    nondet h = 0.to(4).oneOf()
    pure val g = generate(r, lg, nc, nb, 2)
    pure val t = fill(g)
    pure val s = tune(bound(g, t, r, if (g.cons.length() == 0) 1 + nb else nb), r2)
    // enough queries that an error shows
    pure val s1 = s.with("queries", s.queries + 4).with("blowup", max2(s.blowup, 2))
    // another claim than the trace's own
    pure val s2 = if (h == 4) lie(s1, r2 / 2^120) else s1
    pure val c = (r2 / 2^100) % nc
    pure val row = (r2 / 2^110) % 2^lg
    pure val ch = if (h > 1) (-1, 0, 0) else (c, row, mix(r2, 8))
    pure val br = broken(s2, spoil(t, ch))
    all {
      pose(s2, t, ch),
      spoiled' = br.length() > 0, lied' = h == 4,
      attacks' = plan(s2, br.length() == 0, r3, wide)
    }
  }
  action init = attacked(2, true, 0, 2)
  action step = attacked(3, true, 0, 2)
  // many constraints
  action crowd = attacked(2, false, 60, 140)

  val laws = and {
    lied or airLaws,
    // a proof that no check rejects is of a satisfied claim
    attacks.select(a => a.fails.length() == 0 and spoiled).length() == 0,
    // and was made as prescribed, up to the choice of a valid nonce
    attacks.select(a => a.fails.length() == 0 and
      a.devs.select(d => not(d.kind == "second" or d.kind == "zeros" or
                             (d.kind == "layerRoot" and sys.layout.length() == 0))).length() > 0).length() == 0
  }
}
