----------------------------- MODULE HushCodecs -----------------------------
(* std.hex, std.base64 and std.json.  Encoding and decoding are inverse to    *)
(* each other, which HushLaws checks over all short sequences.                *)
EXTENDS HushValues

\* What decoding yields: [e |-> FALSE, b |-> bytes], or [e |-> TRUE, b |-> the description of the error].
Decoded(b) == [e |-> FALSE, b |-> b]
Undecodable(d) == [e |-> TRUE, b |-> d]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
FirstNot(s, T) == LET bad == {i \in 1..Len(s) : s[i] \notin T}
                  IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

-----------------------------------------------------------------------------
(* Hexadecimal: two digits, of either case, per byte.                         *)
Digits == 48..57
HexDigits == Digits \cup (65..70) \cup (97..102)
HexVal(c) == CASE c <= 57 -> c - 48 [] c <= 70 -> c - 55 [] OTHER -> c - 87
HexEncode(s) == [i \in 1..(2 * Len(s)) |-> Hex(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16)]
\* A character as Rust shows it, in quotes.
CharDebug(b) == <<39>> \o (CASE b = 34 -> <<34>>
                             [] b < 128 -> EscByte(b)
                             [] b < 161 \/ b = 173 -> Txt("\\u{") \o HexText(b) \o <<125>>
                             [] OTHER -> ByteText(b)) \o <<39>>
HexDecode(s) ==
  LET bad == FirstNot(s, HexDigits)
  IN IF Len(s) % 2 # 0 THEN Undecodable(Txt("Odd number of digits"))
     ELSE IF bad # 0 THEN Undecodable(Txt("Invalid character ") \o CharDebug(s[bad]) \o Txt(" at position ") \o BText(BI(bad - 1)))
     ELSE Decoded([i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])])

-----------------------------------------------------------------------------
(* Base 64, with the standard alphabet, and padding that may be left out.     *)
Sym(n) == CASE n < 26 -> 65 + n [] n < 52 -> 71 + n [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47
SymOf == [c \in {Sym(n) : n \in 0..63} |-> CHOOSE n \in 0..63 : Sym(n) = c]
Pad == 61
\* One group of three bytes, or fewer at the end.
Group(s, i) ==
  LET b(j) == IF i + j <= Len(s) THEN s[i + j] ELSE 0
      n == Len(s) - i + 1
  IN << Sym(b(0) \div 4), Sym(16 * (b(0) % 4) + b(1) \div 16),
        IF n < 2 THEN Pad ELSE Sym(4 * (b(1) % 16) + b(2) \div 64),
        IF n < 3 THEN Pad ELSE Sym(b(2) % 64) >>
B64Encode(s) == Concat([g \in 1..((Len(s) + 2) \div 3) |-> Group(s, 3 * g - 2)])
B64Decode(s) ==
  LET n == Len(s)
      bad == FirstNot(s, DOMAIN SymOf)                   \* The first that's no symbol
      d == IF bad = 0 THEN n ELSE bad - 1                \* The number of symbols before it
      padded == bad # 0 /\ d % 4 >= 2 /\ n <= 4 * (d \div 4 + 1) /\ \A i \in bad..n : s[i] = Pad
      v(i) == SymOf[s[i]]
      rest == d % 4                                      \* Symbols in the last group
      spare == CASE rest = 2 -> v(d) % 16 [] rest = 3 -> v(d) % 4 [] OTHER -> 0
      len == 3 * (d \div 4) + (IF rest = 0 THEN 0 ELSE rest - 1)
      byte(k) ==                                         \* k: from zero
        LET i == 4 * (k \div 3) + 1
        IN CASE k % 3 = 0 -> 4 * v(i) + v(i + 1) \div 16
             [] k % 3 = 1 -> 16 * (v(i + 1) % 16) + v(i + 2) \div 4
             [] OTHER -> 64 * (v(i + 2) % 4) + v(i + 3)
      At(i, c) == Txt("Invalid byte ") \o BText(BI(c)) \o Txt(", offset ") \o BText(BI(i - 1)) \o <<46>>
  IN IF n % 4 = 1
     THEN Undecodable(IF s[n] \notin DOMAIN SymOf /\ s[n] # Pad THEN At(n, s[n])
                      ELSE Txt("Encoded text cannot have a 6-bit remainder."))
     ELSE IF bad # 0 /\ ~padded THEN Undecodable(At(bad, s[bad]))
     ELSE IF spare # 0 THEN Undecodable(Txt("Invalid last symbol ") \o BText(BI(s[d])) \o Txt(", offset ") \o BText(BI(d - 1)) \o <<46>>)
     ELSE Decoded([k \in 1..len |-> byte(k - 1)])

-----------------------------------------------------------------------------
(* JSON, encoding: indented by two spaces, and the entries of a dict in any   *)
(* order.  Bytes that aren't UTF-8 are replaced.                              *)
Replaced == <<239, 191, 189>>
RECURSIVE JText(_), Indent(_)
JEsc(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 8 -> <<92, 98>> [] b = 9 -> <<92, 116>>
             [] b = 10 -> <<92, 110>> [] b = 12 -> <<92, 102>> [] b = 13 -> <<92, 114>>
             [] b < 32 -> Txt("\\u00") \o <<Hex(b \div 16), Hex(b % 16)>>
             [] OTHER -> <<b>>
JText(s) == IF s = <<>> THEN <<>>
            ELSE LET n == CharLen(s)
                 IN IF s[1] < 128 THEN JEsc(s[1]) \o JText(Tail(s))
                    ELSE IF n > 0 THEN SubSeq(s, 1, n) \o JText(SubSeq(s, n + 1, Len(s)))
                    ELSE Replaced \o JText(SubSeq(s, 1 - n, Len(s)))
JString(s) == <<34>> \o JText(s) \o <<34>>
Indent(d) == IF d = 0 THEN <<>> ELSE <<32, 32>> \o Indent(d - 1)
RECURSIVE JOk(_, _), JTexts(_, _, _), JItems(_, _, _, _), JPairs(_, _, _, _)
JOk(v, heap) == CASE v.t \in {"error", "function"} -> FALSE
                  [] v.t = "array" -> \A i \in 1..Len(Items(v, heap)) : JOk(Items(v, heap)[i], heap)
                  [] v.t = "dict" -> \A i \in 1..Len(Items(v, heap)) :
                                       Items(v, heap)[i][1].t = "string" /\ JOk(Items(v, heap)[i][2], heap)
                  [] OTHER -> TRUE
JItems(vs, heap, d, first) ==
  IF vs = <<>> THEN {<<>>}
  ELSE { (IF first THEN <<10>> ELSE <<44, 10>>) \o Indent(d) \o x \o y :
         x \in JTexts(vs[1], heap, d), y \in JItems(Tail(vs), heap, d, FALSE) }
JPairs(ps, heap, d, first) ==
  IF ps = {} THEN {<<>>}
  ELSE UNION { { (IF first THEN <<10>> ELSE <<44, 10>>) \o Indent(d) \o JString(p[1].v) \o <<58, 32>> \o x \o y :
                 x \in JTexts(p[2], heap, d), y \in JPairs(ps \ {p}, heap, d, FALSE) } : p \in ps }
JTexts(v, heap, d) ==
  CASE v.t = "nil" -> {Txt("null")}
    [] v.t = "bool" -> {IF IsTrue(v) THEN Txt("true") ELSE Txt("false")}
    [] v.t = "int" -> {BText(v.v)}
    [] v.t = "float" -> {IF v.v[1] \in {2, 3} THEN Txt("null") ELSE IF v.v[1] = 1 THEN FText(v.v) ELSE FTextIn(v.v, -4, 16, "even")}
    [] v.t \in {"char", "string"} -> {JString(v.v)}
    [] v.t = "array" -> IF Items(v, heap) = <<>> THEN {<<91, 93>>}
                        ELSE {<<91>> \o x \o <<10>> \o Indent(d) \o <<93>> : x \in JItems(Items(v, heap), heap, d + 1, TRUE)}
    [] v.t = "dict" -> IF Items(v, heap) = <<>> THEN {<<123, 125>>}
                       ELSE {<<123>> \o x \o <<10>> \o Indent(d) \o <<125>> :
                             x \in JPairs({Items(v, heap)[i] : i \in 1..Len(Items(v, heap))}, heap, d + 1, TRUE)}

-----------------------------------------------------------------------------
(* JSON, decoding.  A parser at position i of s yields [ok, v, i, heap, u];   *)
(* u: the value has a number that the specification doesn't represent.        *)
JFail == [ok |-> FALSE, v |-> Nil, i |-> 0, heap |-> <<>>, u |-> FALSE]
JGot(v, i, heap, u) == [ok |-> TRUE, v |-> v, i |-> i, heap |-> heap, u |-> u]
JAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE JSpace(_, _), JDigits(_, _)
JSpace(s, i) == IF JAt(s, i) \in {9, 10, 13, 32} THEN JSpace(s, i + 1) ELSE i
JDigits(s, i) == IF JAt(s, i) \in Digits THEN JDigits(s, i + 1) ELSE i
JDepth == 127
MaxU64 == BAdd(BMul(MaxI64, BI(2)), BI(1))
\* The digits of ds that fit in an unsigned 64 bit integer: their value, and how many they are.
RECURSIVE JTaken(_, _, _)
JTaken(ds, n, acc) ==
  IF n = Len(ds) THEN <<acc, n>>
  ELSE LET x == BAdd(BMul(acc, BI(10)), BI(ds[n + 1] - 48))
       IN IF BCmp(x, MaxU64) > 0 THEN <<acc, n>> ELSE JTaken(ds, n + 1, x)
\* f * 10^e, computed in floats; the empty sequence is out of range.
RECURSIVE JScaled(_, _)
JScaled(f, e) ==
  IF f[1] = 1 THEN <<f>>
  ELSE IF e > 308 THEN <<>>
  ELSE IF e >= 0 THEN (LET x == FMul(f, FDecimal(1, <<49>>, e)) IN IF x[1] = 2 THEN <<>> ELSE <<x>>)
  ELSE IF e >= -308 THEN <<FDiv(f, FDecimal(1, <<49>>, -e))>>
  ELSE JScaled(FDiv(f, FDecimal(1, <<49>>, 308)), e + 308)
JNumber(s, i, heap) ==
  LET neg == JAt(s, i) = 45
      sg == IF neg THEN -1 ELSE 1
      a == IF neg THEN i + 1 ELSE i                  \* The digits before the point: a..b-1
      b == JDigits(s, a)
      dot == JAt(s, b) = 46
      c == IF dot THEN JDigits(s, b + 1) ELSE b      \* Those after it: b+1..c-1
      ex == JAt(s, c) \in {69, 101}
      xs == JAt(s, c + 1)
      x == IF xs \in {43, 45} THEN c + 2 ELSE c + 1   \* Those of the exponent: x..z-1
      z == IF ex THEN JDigits(s, x) ELSE c
      ip == SubSeq(s, a, b - 1)
      fp == IF dot THEN SubSeq(s, b + 1, c - 1) ELSE <<>>
      xv == IF ex THEN (IF xs = 45 THEN -1 ELSE 1) * ParseExp(SubSeq(s, x, z - 1)) ELSE 0
      m == FromDigits(ip, <<0>>)
      int == IF neg THEN BNeg(m) ELSE m
      t == JTaken(ip \o fp, 0, <<0>>)
      long == t[2] < Len(ip)               \* Digits of the integer part are lost.
      f == JScaled(FOfInt(t[1]), Len(ip) - t[2] + xv)
      real == dot \/ ex \/ long \/ (neg /\ (Sgn(m) = 0 \/ ~FitsI64(int)))
      v == IF ~real THEN IntV(int) ELSE IF sg < 0 THEN Flt(FNeg(f[1])) ELSE Flt(f[1])
  IN IF b = a \/ (b > a + 1 /\ s[a] = 48) THEN JFail           \* No digits, or a leading zero.
     ELSE IF (dot /\ c = b + 1) \/ (ex /\ z = x) THEN JFail
     ELSE IF ~real /\ ~FitsI64(int) THEN JFail
     ELSE IF real /\ f = <<>> THEN JFail
     ELSE JGot(v, z, heap, long /\ dot)

\* The value of four hexadecimal digits, or -1.
Hex4(s, i) == IF i + 3 > Len(s) \/ \E j \in i..(i + 3) : s[j] \notin HexDigits THEN -1
              ELSE 4096 * HexVal(s[i]) + 256 * HexVal(s[i + 1]) + 16 * HexVal(s[i + 2]) + HexVal(s[i + 3])
Utf8(n) == CASE n < 128 -> <<n>>
             [] n < 2048 -> <<192 + n \div 64, 128 + (n % 64)>>
             [] n < 65536 -> <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
             [] OTHER -> <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
SimpleEsc(c) == CASE c \in {34, 92, 47} -> c [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
                  [] OTHER -> -1
\* The string that starts at i, after the quote: v is its bytes.
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==
  LET c == JAt(s, i)
      n == IF i <= Len(s) THEN CharLen(SubSeq(s, i, IF i + 3 > Len(s) THEN Len(s) ELSE i + 3)) ELSE 0
      e == JAt(s, i + 1)
      u == Hex4(s, i + 2)
      w == IF JAt(s, i + 6) = 92 /\ JAt(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1
  IN CASE c = 34 -> JGot(acc, i + 1, <<>>, FALSE)
       [] c < 32 -> JFail                                         \* The end, or a control character.
       [] c = 92 /\ e # 117 -> IF SimpleEsc(e) < 0 THEN JFail ELSE JStr(s, i + 2, Append(acc, SimpleEsc(e)))
       [] c = 92 -> CASE u < 0 \/ (u >= 56320 /\ u <= 57343) -> JFail
                      [] u >= 55296 /\ u <= 56319 ->
                           IF w < 56320 \/ w > 57343 THEN JFail
                           ELSE JStr(s, i + 12, acc \o Utf8(65536 + 1024 * (u - 55296) + w - 56320))
                      [] OTHER -> JStr(s, i + 6, acc \o Utf8(u))
       [] n < 1 -> JFail                                          \* Not UTF-8.
       [] OTHER -> JStr(s, i + n, acc \o SubSeq(s, i, i + n - 1))
\* An array or dict with n distinct keys, as a new object.
JNew(t, vs, i, heap, u) == JGot(Ref(t, Len(heap) + 1), i, Append(heap, [t |-> t, v |-> vs]), u)
RECURSIVE JVal(_, _, _, _), JElems(_, _, _, _, _, _), JEntries(_, _, _, _, _, _)
SetEntry(ps, k, v) ==      \* Of several entries with the same key, the last one wins.
  LET js == {j \in 1..Len(ps) : ps[j][1] = k}
  IN IF js = {} THEN Append(ps, <<k, v>>) ELSE [j \in 1..Len(ps) |-> IF j \in js THEN <<k, v>> ELSE ps[j]]
JElems(s, i, heap, d, vs, u) ==
  LET r == JVal(s, i, heap, d)
      j == JSpace(s, r.i)
  IN IF ~r.ok THEN JFail
     ELSE IF JAt(s, j) = 44 THEN JElems(s, j + 1, r.heap, d, Append(vs, r.v), u \/ r.u)
     ELSE IF JAt(s, j) = 93 THEN JNew("array", Append(vs, r.v), j + 1, r.heap, u \/ r.u)
     ELSE JFail
JEntries(s, i, heap, d, ps, u) ==
  LET a == JSpace(s, i)
      k == IF JAt(s, a) = 34 THEN JStr(s, a + 1, <<>>) ELSE JFail
      c == JSpace(s, k.i)
      r == JVal(s, c + 1, heap, d)
      j == JSpace(s, r.i)
      qs == SetEntry(ps, Str(k.v), r.v)
  IN IF ~k.ok \/ JAt(s, c) # 58 THEN JFail
     ELSE IF ~r.ok THEN JFail
     ELSE IF JAt(s, j) = 44 THEN JEntries(s, j + 1, r.heap, d, qs, u \/ r.u)
     ELSE IF JAt(s, j) = 125 THEN JNew("dict", qs, j + 1, r.heap, u \/ r.u)
     ELSE JFail
JWord(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
JVal(s, i0, heap, d) ==
  LET i == JSpace(s, i0)
      c == JAt(s, i)
      q == JStr(s, i + 1, <<>>)
      j == JSpace(s, i + 1)
  IN CASE JWord(s, i, Txt("null")) -> JGot(Nil, i + 4, heap, FALSE)
       [] JWord(s, i, Txt("true")) -> JGot(TrueV, i + 4, heap, FALSE)
       [] JWord(s, i, Txt("false")) -> JGot(FalseV, i + 5, heap, FALSE)
       [] c = 34 -> IF q.ok THEN JGot(Str(q.v), q.i, heap, FALSE) ELSE JFail
       [] c = 45 \/ c \in Digits -> JNumber(s, i, heap)
       [] c \in {91, 123} /\ d = JDepth -> JFail
       [] c = 91 -> IF JAt(s, j) = 93 THEN JNew("array", <<>>, j + 1, heap, FALSE) ELSE JElems(s, i + 1, heap, d + 1, <<>>, FALSE)
       [] c = 123 -> IF JAt(s, j) = 125 THEN JNew("dict", <<>>, j + 1, heap, FALSE) ELSE JEntries(s, i + 1, heap, d + 1, <<>>, FALSE)
       [] OTHER -> JFail
\* The text as a whole.
JDecode(s, heap) == LET r == JVal(s, 1, heap, 0)
                    IN IF r.ok /\ JSpace(s, r.i) = Len(s) + 1 THEN r ELSE JFail
=============================================================================
