// C27: allocation statistics as a function of the history of calls.
module Alloc {
  import Ints.* from "./Ints"
  pure val LIMIT: int = 10^12
  var blocks: List[int]        // sizes of the live blocks
  var op: { name: str, size: int, i: int, align: int, t: int }
  var refused: bool
  var live: int
  var total: int
  var count: int
  var largest: int
  var peak: int
  // what is reported of the call: "" nothing; the request and what is held before it
  var said: { level: str, size: int, held: int }

  pure val NOTHING: { level: str, size: int, held: int } = { level: "", size: 0, held: 0 }
  pure def levelOf(sz: int): str = if (sz < 10^6) "" else if (sz < 10^7) "INFO" else if (sz < 10^8) "WARN" else "ERROR"
  pure def sum(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def drop(l: List[int], i: int): List[int] = l.slice(0, i).concat(l.slice(i + 1, l.length()))

  // around the logging thresholds and the rounding of displayed sizes
  pure def sizeOf(c: int, r: int): int =
    if (c == 20) 1 + (10^(5 + r % 5) / 4) * (1 + r % 7) % 10^9 else [1, 2, 7, 8, 16, 100, 999, 1000, 4096, 65536, 999999, 1000000, 9999999, 10000000, 99999999, 100000000,
     999999936, 999999999, 1000000000, 1 + r % 1000, 1 + r % 100000, 1 + r % 10^9][c % 22]

  action grant(name: str, sz: int, i: int, align: int, t: int): bool = {
    // reallocation obtains the new block before it releases the old one
    val rest = if (name == "realloc") drop(blocks, i) else blocks
    all {
      op' = { name: name, size: sz, i: i, align: align, t: t },
      said' = if (levelOf(sz) == "") NOTHING else { level: levelOf(sz), size: sz, held: live },
      if (sz >= LIMIT) all {
        refused' = true, blocks' = blocks, live' = live, total' = total, count' = count, largest' = largest, peak' = peak
      } else all {
        refused' = false, blocks' = rest.append(sz), live' = sum(rest) + sz, total' = total + sz,
        count' = count + 1, largest' = max2(largest, sz), peak' = max2(peak, live + sz)
      }
    }
  }
  action free(i: int, t: int): bool = all {
    op' = { name: "dealloc", size: blocks[i], i: i, align: 0, t: t }, refused' = false, said' = NOTHING,
    blocks' = drop(blocks, i), live' = live - blocks[i],
    total' = total, count' = count, largest' = largest, peak' = peak
  }
  action reset = all {
    op' = { name: "reset", size: 0, i: 0, align: 0, t: 0 }, refused' = false, said' = NOTHING,
    blocks' = [], live' = 0, total' = 0, count' = 0, largest' = 0, peak' = 0
  }
  action step = {
    nondet k = 0.to(19).oneOf()
    nondet c = 0.to(21).oneOf()
    nondet r = 0.to(2^40).oneOf()
    nondet i = 0.to(11).oneOf()
    nondet al = 0.to(7).oneOf()
    nondet t = 0.to(3).oneOf()
    nondet over = oneOf(Set(LIMIT, LIMIT + 1, 2 * LIMIT, 2^50, 2^62))
    val n = blocks.length()
    val align = 2^al
    if (k == 0) reset
    else if (n >= 8 or (n > 0 and k < 8)) free(i % n, t)
    else if (n > 0 and k < 11) grant("realloc", if (k == 8 and c < 4) over else if (sizeOf(c, r) > 10^6) 4096 else sizeOf(c, r), i % n, align, t)
    else if (k < 13) grant("alloc_zeroed", if (c == 0) over else if (sizeOf(c, r) > 10^6) 4096 else sizeOf(c, r), 0, align, t)
    else grant("alloc", if (k == 13) over else sizeOf(c, r), 0, align, t)
  }
  action init = reset
  val laws = and { live == sum(blocks), peak >= live, peak <= total, largest <= total, largest <= peak or total == 0, count >= blocks.length(),
    refused implies said.level == "ERROR", said.level == "" or said.size >= 10^6 }
}
