// C04: what a reader of outside data gets to see. A document is a field
// element, a scalar, a point, a signature or a key, written as text (JSON), as
// bytes (bincode) or as bytes for a chain (SCALE), and then damaged. The
// specification says for each document whether it denotes a value; the reader
// has to return exactly that value, or refuse.
module Decode {
  import Ints.* from "./Ints"

  type Doc = { kind: str, words: List[int], json: List[int], bin: List[int], scale: List[int],
               wantJson: int, wantBin: int, wantScale: int, damage: str }
  var doc: Doc
  // wants: 1 the value, 0 refused, 2 the value or refused, 3 anything but a crash

  pure val P251 = 2^251 + 17 * 2^192 + 1
  pure val N = 0x800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f
  pure val KINDS = ["number", "field", "scalar", "zero", "point", "signature", "public", "publicZero", "private"]

  pure def modulus(kind: str): int = if (kind == "number") R256 else if (Set("field", "point", "public").contains(kind)) P251 else N
  pure def count(kind: str): int =
    if (Set("zero", "publicZero").contains(kind)) 0 else if (Set("number", "field", "scalar", "private").contains(kind)) 1 else 2
  pure def valid(kind: str, words: List[int]): bool = words.foldl(true, (s, w) => s and w < modulus(kind))

  // ---- text -----------------------------------------------------------------
  pure def hexChar(d: int): int = if (d < 10) 48 + d else 87 + d
  pure def hexText(v: int, n: int): List[int] =
    range(0, n).foldl(([], v), (s, _) => ([hexChar(s._2 % 16)].concat(s._1), s._2 / 16))._1
  // "0x…" with the given number of digits
  pure def number(v: int, n: int): List[int] = [34, 48, 120].concat(hexText(v, n)).append(34)
  pure def name(c: List[int]): List[int] = [34].concat(c).append(34)
  pure val COMMA = [44]
  pure val POINT = name([80, 111, 105, 110, 116])
  pure val ZERO = name([90, 101, 114, 111])
  pure def entry(k: List[int], v: List[int]): List[int] = name(k).append(58).concat(v)
  pure def braces(es: List[List[int]]): List[int] =
    [123].concat(range(0, es.length()).foldl([], (s, i) => (if (i == 0) s else s.concat(COMMA)).concat(es[i]))).append(125)
  pure def names(kind: str): List[List[int]] = if (kind == "signature") [[114], [119]] else [[120], [121]]
  pure def within(kind: str, inner: List[int]): List[int] =
    if (kind == "signature") inner else [123].concat(POINT).append(58).concat(inner).append(125)
  pure def textOf(kind: str, ws: List[List[int]]): List[int] =
    if (count(kind) == 0) ZERO
    else if (count(kind) == 1) ws[0]
    else within(kind, braces([entry(names(kind)[0], ws[0]), entry(names(kind)[1], ws[1])]))

  // ---- bytes ----------------------------------------------------------------
  pure def big(v: int): List[int] = rev(digits(v, 256, 32))
  pure def little(v: int): List[int] = digits(v, 256, 32)
  pure def tag(kind: str): int =
    if (Set("zero", "publicZero").contains(kind)) 0 else if (Set("point", "public").contains(kind)) 1 else -1
  pure def cat(ws: List[List[int]]): List[int] = ws.foldl([], (s, w) => s.concat(w))
  pure def binOf(kind: str, t: int, words: List[int]): List[int] =
    (if (tag(kind) < 0) [] else digits(t, 256, 4)).concat(words.foldl([], (s, w) => s.concat(big(w))))
  pure def scaleOf(kind: str, t: int, words: List[int]): List[int] =
    (if (tag(kind) < 0) [] else [t % 256]).concat(words.foldl([], (s, w) => s.concat(little(w))))

  pure def cutAt(l: List[int], at: int): List[int] = if (l.length() == 0) l else l.slice(0, at % l.length())

  pure val ODD = [43, 45, 32, 95, 88, 103, 47, 58, 233, 1635, 65296, 128512, 46, 64, 71, 96, 8239]

  action load(kind: str, words: List[int], damage: str, at: int, junk: int, len: int): bool = {
    pure val n = count(kind)
    pure val ok = if (valid(kind, words)) 1 else 0
    pure val texts = words.foldl([], (s, w) => s.append(number(w, if (len > 64) 64 else if (len < (bitlen(w) + 3) / 4) 64 else len)))
    pure val plain = {
      kind: kind, words: words, damage: damage,
      json: textOf(kind, texts), bin: binOf(kind, tag(kind), words), scale: scaleOf(kind, tag(kind), words),
      wantJson: ok, wantBin: ok, wantScale: ok
    }
    // one number of the document replaced by another text
    pure def other(t: List[int]): List[int] = if (n == 0) t else textOf(kind, texts.replaceAt(at % n, t))
    pure val odd = if (n == 0) [] else {
      pure val t = texts[at % n]
      pure val p = 3 + (at / 2) % (t.length() - 3)
      t.slice(0, p).append(ODD[junk % ODD.length()]).concat(t.slice(p, t.length()))
    }
    pure val noise = range(0, junk % 70).foldl([], (s, i) => s.append((junk / (i + 3) + 77 * i + at) % 256))
    doc' = if (damage == "cut")
        plain.with("json", cutAt(plain.json, at)).with("bin", cutAt(plain.bin, at)).with("scale", cutAt(plain.scale, at))
             .with("wantJson", 0).with("wantBin", 0).with("wantScale", 0)
      else if (damage == "longer")
        plain.with("json", plain.json.append(32 + junk % 95)).with("bin", plain.bin.append(junk % 256)).with("scale", plain.scale.append(junk % 256))
             .with("wantJson", if (junk % 95 == 0) ok else 0).with("wantBin", 2 * ok).with("wantScale", 2 * ok)
      else if (damage == "odd digit" and n > 0) plain.with("json", other(odd)).with("wantJson", 0)
      else if (damage == "number" and n > 0) plain.with("json", other([49 + junk % 9])).with("wantJson", 0)
      else if (damage == "null" and n > 0) plain.with("json", other([110, 117, 108, 108])).with("wantJson", 0)
      else if (damage == "long" and n > 0)
        plain.with("json", other(number(1 + junk, 65 + at % 40))).with("wantJson", 3)
      else if (damage == "too large" and n > 0)
        plain.with("json", other(number(R256 + junk, 65))).with("wantJson", 0)
      else if (damage == "empty" and n > 0) plain.with("json", other(if (at % 4 < 2) [34, 34] else [34, 48, 120, 34])).with("wantJson", 3)
      else if (damage == "list" and n > 0) plain.with("json", other([91].concat(texts[0]).append(93))).with("wantJson", 0)
      else if (damage == "missing" and n == 2)
        plain.with("json", within(kind, braces([entry(names(kind)[at % 2], texts[0])]))).with("wantJson", 0)
      else if (damage == "twice" and n == 2)
        plain.with("json", within(kind, braces([entry(names(kind)[0], texts[0]), entry(names(kind)[1], texts[1]), entry(names(kind)[at % 2], texts[at % 2])])))
             .with("wantJson", 0)
      else if (damage == "swapped" and n == 2)
        plain.with("json", within(kind, braces([entry(names(kind)[1], texts[1]), entry(names(kind)[0], texts[0])])))
      else if (damage == "tag" and tag(kind) >= 0)
        plain.with("bin", binOf(kind, 2 + junk, words)).with("scale", scaleOf(kind, 2 + junk % 254, words)).with("wantBin", 0).with("wantScale", 0)
             .with("json", if (n == 0) name([122, 101, 114, 111]) else [123].concat(ZERO).append(58).concat(textOf("signature", texts)).append(125))
             .with("wantJson", 0)
      else if (damage == "noise")
        { kind: kind, words: words, damage: damage, json: noise, bin: noise, scale: noise, wantJson: 3, wantBin: 3, wantScale: 3 }
      else plain
  }

  pure val DAMAGES = ["none", "none", "none", "none", "none", "none", "cut", "cut", "longer", "odd digit", "number", "null", "long",
                      "too large", "empty", "list", "missing", "twice", "swapped", "tag", "tag", "noise"]

  action init = load("field", [1], "none", 0, 0, 64)

  // numbers around the moduli, the limbs and the ends
  pure def draw(m: int, how: int, d: int, r: int, cls: int): int =
    if (how < 3) md(m - 2 + d % 5, R256)
    else if (how == 3) R256 - 1 - d
    else if (how == 4) md(2 * m - 2 + d % 5, R256)
    else if (how == 5) md(m - m % 2^(64 * (1 + d % 3)), R256) + r % 2^(64 * (1 + d % 3))
    else if (how == 6) (if (m == R256) r else m + r % (R256 - m))
    else if (how < 9) r % m
    else if (how == 9) r % 2^(d * 6)
    else if (how == 10) d
    else shape(cls % 2^16, r)

  action step = {
    nondet k = 0.to(8).oneOf()
    nondet dm = 0.to(21).oneOf()
    nondet h1 = 0.to(11).oneOf()
    nondet h2 = 0.to(11).oneOf()
    nondet d1 = 0.to(40).oneOf()
    nondet d2 = 0.to(40).oneOf()
    nondet r1 = 0.to(R256 - 1).oneOf()
    nondet r2 = 0.to(R256 - 1).oneOf()
    nondet cls = 0.to(2^20 - 1).oneOf()
    nondet at = 0.to(400).oneOf()
    nondet junk = 0.to(2^24).oneOf()
    nondet len = 1.to(90).oneOf()
    pure val m = modulus(KINDS[k])
    pure val a = draw(m, h1, d1, r1, cls)
    // mostly, at most one of two numbers is out of range
    pure val b = if (h2 < 8) r2 % m else draw(m, h1, d2, r2, cls)
    pure val both = if (d2 % 2 == 0) [a, b] else [b, a]
    load(KINDS[k], both.slice(0, count(KINDS[k])), DAMAGES[dm], at, junk, len)
  }

  val laws = and {
    doc.words.length() == count(doc.kind),
    doc.damage == "none" implies doc.bin.length() == 32 * count(doc.kind) + (if (tag(doc.kind) < 0) 0 else 4),
    doc.damage == "none" implies doc.scale.length() == 32 * count(doc.kind) + (if (tag(doc.kind) < 0) 0 else 1)
  }
}
