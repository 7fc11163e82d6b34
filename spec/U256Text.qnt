// C20: encodings and conversions. Text is a list of Unicode code points; the
// specification says which texts denote which number (or none).
module U256Text {
  import Ints.* from "./Ints"

  var x: int                 // a number to be written out and converted
  var dec: List[int]         // its decimal text
  var hexa: List[int]        // its 64 hexadecimal digits
  var bytes: List[int]       // its 32 bytes, most significant first
  var nat: str -> int        // its conversions to and from native integers
  var text: List[int]        // a text to be parsed
  var asDec: int             // its value as decimal text, -1: none
  var asHex: int             // its value as hexadecimal text, -1: none, -2: either refused or `loose`
  var asLit: int             // its value as a compile-time literal, -1: none
  var asField: int           // Montgomery form of the field literal, -1: none
  var loose: int

  pure val P251 = 2^251 + 17 * 2^192 + 1
  pure val NONE = -1

  pure def signed(v: int, n: int): int = { pure val t = v % 2^n  if (t >= 2^(n - 1)) t - 2^n else t }
  pure def fits(v: int, n: int): int = if (v < 2^n) 1 else 0

  pure def natives(v: int): str -> int = Map(
    "u8" -> v % 2^8, "u16" -> v % 2^16, "u32" -> v % 2^32, "u64" -> v % 2^64, "u128" -> v % 2^128,
    "i8" -> signed(v, 8), "i16" -> signed(v, 16), "i32" -> signed(v, 32), "i64" -> signed(v, 64), "i128" -> signed(v, 128),
    "fit_u8" -> fits(v, 8), "fit_u16" -> fits(v, 16), "fit_u32" -> fits(v, 32), "fit_u64" -> fits(v, 64), "fit_u128" -> fits(v, 128),
    "fit_i8" -> fits(v, 7), "fit_i16" -> fits(v, 15), "fit_i32" -> fits(v, 31), "fit_i64" -> fits(v, 63), "fit_i128" -> fits(v, 127),
    "from_i8" -> md(signed(v, 8), R256), "from_i16" -> md(signed(v, 16), R256), "from_i32" -> md(signed(v, 32), R256),
    "from_i64" -> md(signed(v, 64), R256), "from_i128" -> md(signed(v, 128), R256)
  )

  // decimal digits of v, most significant first, no leading zeros
  pure def decDigits(v: int): List[int] =
    if (v == 0) [48]
    else range(0, 160).foldl(([], v), (s, _) =>
      if (s._2 == 0) s else ([48 + s._2 % 10].concat(s._1), s._2 / 10))._1

  pure def hexChar(d: int, upper: bool): int = if (d < 10) 48 + d else if (upper) 55 + d else 87 + d
  pure def hexText(v: int, n: int, upper: bool): List[int] =
    range(0, n).foldl(([], v), (s, _) => ([hexChar(s._2 % 16, upper)].concat(s._1), s._2 / 16))._1

  pure def decVal(c: int): int = if (c >= 48 and c <= 57) c - 48 else NONE
  pure def hexVal(c: int): int =
    if (c >= 48 and c <= 57) c - 48 else if (c >= 97 and c <= 102) c - 87
    else if (c >= 65 and c <= 70) c - 55 else NONE

  pure def valueDec(t: List[int]): int = t.foldl(0, (s, c) =>
    if (s == NONE or decVal(c) == NONE) NONE else 10 * s + decVal(c))
  pure def valueHex(t: List[int]): int = t.foldl(0, (s, c) =>
    if (s == NONE or hexVal(c) == NONE) NONE else 16 * s + hexVal(c))

  pure def parseDec(t: List[int]): int =
    if (t.length() == 0) NONE else { pure val v = valueDec(t)  if (v >= R256) NONE else v }

  pure def stripPrefix(t: List[int]): List[int] =
    if (t.length() >= 2 and t[0] == 48 and t[1] == 120) t.slice(2, t.length()) else t

  // An over-long text of small value and a text without digits may be refused
  // or read as the number it denotes.
  pure def parseHex(t: List[int]): int = {
    pure val d = stripPrefix(t)
    pure val v = valueHex(d)
    if (v == NONE or v >= R256) NONE
    else if (d.length() > 64 or d.length() == 0) -2
    else v
  }

  // a literal is a whole number of bytes, at most 32, without prefix
  pure def parseLit(t: List[int]): int =
    if (t.length() % 2 == 1 or t.length() > 64) NONE else valueHex(t)

  action load(v: int, t: List[int]): bool = all {
    x' = v,
    dec' = decDigits(v),
    hexa' = hexText(v, 64, false),
    bytes' = rev(digits(v, 256, 32)),
    nat' = natives(v),
    text' = t,
    asDec' = parseDec(t),
    asHex' = parseHex(t),
    loose' = max2(0, valueHex(stripPrefix(t))),
    asLit' = parseLit(t),
    asField' = if (parseLit(t) == NONE) NONE else (parseLit(t) * R256) % P251
  }

  action init = load(0, [])

  pure val ODD = [43, 45, 32, 95, 120, 97, 103, 47, 58, 233, 1635, 65296, 128512, 10, 0, 46, 64, 71, 96, 34, 92, 8239]

  pure def zeros(n: int): List[int] = range(0, n).foldl([], (s, _) => s.append(48))

  action step = {
    nondet cls = 0.to(2^20 - 1).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet how = 0.to(31).oneOf()
    nondet d = 0.to(40).oneOf()
    nondet lead = 0.to(3).oneOf()
    nondet pos = 0.to(79).oneOf()
    nondet sz = 0.to(256).oneOf()
    pure val v = if (how < 4) 2^sz % R256 else if (how < 8) md(2^sz - 1 - d % 2, R256) else if (how < 14) r1 % 2^sz
                 else if (how < 18) md(-(r1 % 2^(sz / 2)), R256) else if (how < 20) 10^(sz % 78) - d % 2 else shape(cls % 2^16, r1)
    pure val big = if (d < 8) R256 - 1 - d else if (d < 16) R256 + d - 8 else if (d < 20) 10 * R256 + d
                   else if (d < 24) (R256 / 10) * 10 + d - 20 else if (d < 28) R256 / 10 + d - 26 else if (d < 30) 2 * R256 - d
                   else if (d < 33) R256 * (1 + r2 % 20) + r1 % 2^sz else r2 % 2^sz
    // decimal / hexadecimal texts, possibly padded, possibly with one odd character
    pure val base = if (how % 2 == 0) decDigits(big)
                    else { pure val nn = if (big < R256) 1 + (bitlen(big) + 3) / 4 else (bitlen(big) + 3) / 4
                           hexText(big, if (nn > 64 and big < R256) 64 else nn, d % 2 == 0) }
    pure val padded = if (lead == 1) zeros(1 + d % 5).concat(base) else if (lead == 2) [48, 120].concat(base) else base
    // anywhere, or where a parser that works in groups of digits would cut
    pure val odd = if (how % 8 >= 6 and padded.length() > 0) {
        pure val at = (if (d % 3 == 0) [18, 19, 16, 9, 8][cls % 5] * (pos % 5) else pos) % padded.length()
        padded.slice(0, at).concat([if ((cls / 8) % 4 == 0) 43 else ODD[(cls / 64) % 22]]).concat(padded.slice(if (d % 2 == 0) at + 1 else at, padded.length()))
      } else padded
    pure val even = if (how == 3 or how == 11 or how == 19) hexText(r2, 2 * (sz % 34), d % 2 == 0) else odd
    load(v, if (how == 31) [] else even)
  }

  val laws = and {
    valueDec(dec) == x, valueHex(hexa) == x,
    parseDec(dec) == x, parseHex(hexa) == x, parseLit(hexa) == x,
    bytes.foldl(0, (s, c) => 256 * s + c) == x
  }
}
