// The prime fields of the library (and three a user could define).
module Fields {
  import Ints.* from "./Ints"

  pure val P251: int = 2^251 + 17 * 2^192 + 1
  pure val NORD: int = 0x0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f
  pure val P25519: int = 2^255 - 19
  pure val PROTH63: int = 0x7fffffffffffff0f * 2^192 + 1
  // 0: the STARK field, 1: the curve's scalar field, 2..4: user defined
  pure val PRIMES: List[int] = [P251, NORD, P25519, 257, PROTH63]
  pure val GENS: List[int] = [3, (3 * invmod(R256, NORD)) % NORD, 2, 3, 3]
  pure val RINV: List[int] = [invmod(R256, P251), invmod(R256, NORD), invmod(R256, P25519),
                              invmod(R256, 257), invmod(R256, PROTH63)]
  pure def mont(f: int, v: int): int = (v * R256) % PRIMES[f]
  pure def unmont(f: int, x: int): int = (x * RINV[f]) % PRIMES[f]

  // a representation from a class word and random bits, in [0, p)
  pure def rep(f: int, how: int, cls: int, r: int): int = {
    pure val p = PRIMES[f]
    if (how < 6) shape(cls, r) % p
    else if (how == 6) r % p
    else if (how == 7) r % min2(p, 40)
    else if (how == 8) p - 1 - r % min2(p, 40)
    else if (how == 9) (p / 2 + r % 5) % p
    else if (how == 10) mont(f, r % 100)
    else if (how == 11) md(-mont(f, r % 100), p)
    else if (how == 12) (R256 % p)
    else if (how == 13) 2^(r % 256) % p
    else if (how == 14) md(2^(r % 256) - 1, p)
    else md(p - 2^(r % 250), p)
  }
}
