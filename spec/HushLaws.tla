------------------------------ MODULE HushLaws ------------------------------
(* Laws of the functions that the specification is made of, checked on all    *)
(* arguments from small domains: codecs are inverses, the order of values is  *)
(* total, division has its remainder, splitting loses nothing.  A law that    *)
(* fails is an error of the specification.                                    *)
EXTENDS HushStd

CONSTANTS Kinds,   \* The laws to check.
          Less     \* By how much texts are shorter than below.
VARIABLES kind, x
vars == <<kind, x>>

\* The bytes that texts of each kind are made of, and their greatest length.
Alphabet == [codec |-> {0, 10, 34, 65, 92, 127, 128, 195, 169, 255}, hex |-> {48, 57, 97, 70, 71, 195}, base |-> {65, 43, 103, 61, 47},
             json |-> {91, 93, 123, 125, 34, 44, 58, 49, 48, 45, 46, 101, 32}, split |-> {97, 98},
             regex |-> {97, 98, 46, 42, 63, 40, 41, 124, 91, 93, 94, 36}]
Longest == [codec |-> 3, hex |-> 4, base |-> 5, json |-> 4, split |-> 6, regex |-> 4]
\* Values with references into the heap VHeap.
VHeap == << [t |-> "array", v |-> <<>>], [t |-> "array", v |-> <<IntN(1)>>], [t |-> "array", v |-> <<Flt(<<0, 1, 0>>)>>],
            [t |-> "array", v |-> <<IntN(1), Nil>>], [t |-> "dict", v |-> <<>>], [t |-> "dict", v |-> << <<Str(<<97>>), IntN(1)>> >>],
            [t |-> "dict", v |-> << <<Str(<<97>>), IntN(1)>>, <<Str(<<98>>), Nil>> >>],
            [t |-> "dict", v |-> << <<Str(<<98>>), Nil>>, <<Str(<<97>>), IntN(1)>> >>], [t |-> "array", v |-> <<Ref("dict", 7), Str(<<>>)>>],
            [t |-> "array", v |-> <<Ref("dict", 8), Str(<<>>)>>], [t |-> "error", d |-> <<101>>, c |-> Nil], [t |-> "error", d |-> <<101>>, c |-> IntN(2)] >>
Values == <<Nil, Bool(FALSE), TrueV, Char(0), Char(97), IntN(0), IntN(1), IntN(-1), IntV(MaxI64), IntV(MinI64), Flt(FZero(1)), Flt(FZero(-1)),
            Flt(<<0, 1, 0>>), Flt(<<0, -5, 1>>), Flt(FInf(1)), Flt(FInf(-1)), Flt(FNaN), Str(<<>>), Str(<<97>>), Str(<<97, 0>>), Str(<<255>>)>>
          \o [i \in 1..Len(VHeap) |-> Ref(VHeap[i].t, i)]
Numbers == <<0, 1, -1, 2, 3, -3, 7, 9999, 10000, -10000, 12345678>>
Bigs == [i \in 1..Len(Numbers) |-> BI(Numbers[i])] \o <<MaxI64, MinI64, BAdd(MinI64, BI(1)), BQuo(MaxI64, BI(2)), BI(2147483647), BMul(BI(65536), BI(65536))>>

Init == /\ kind \in Kinds
        /\ x = <<>>
Next == /\ kind' = kind
        /\ CASE kind \in DOMAIN Alphabet -> Len(x) < Longest[kind] - Less /\ \E b \in Alphabet[kind] : x' = Append(x, b)
             [] kind = "values" -> Len(x) < 3 /\ \E i \in 1..Len(Values) : x' = Append(x, i)
             [] kind = "numbers" -> Len(x) < 2 /\ \E i \in 1..Len(Bigs) : x' = Append(x, i)
             [] kind = "floats" -> Len(x) < 2 /\ \E n \in -6..6, k \in 0..2 : x' = Append(x, <<n, k>>)

-----------------------------------------------------------------------------
Inverse == kind = "codec" =>
  /\ HexDecode(HexEncode(x)) = Decoded(x)
  /\ B64Decode(B64Encode(x)) = Decoded(x)
  /\ Len(B64Encode(x)) % 4 = 0
  /\ \A t \in JTexts(Str(x), <<>>, 0) : LET d == JDecode(t, <<>>) IN d.ok /\ (IsUtf8(x) => d.v = Str(x))
LowerHex(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..70 THEN s[i] + 32 ELSE s[i]]
NoPadding(s) == SelectSeq(s, LAMBDA c : c # 61)
Canonical ==
  /\ kind = "hex" => LET d == HexDecode(x) IN ~d.e => HexEncode(d.b) = LowerHex(x)
  /\ kind = "hex" => HexDecode(x).e = (Len(x) % 2 = 1 \/ \E i \in 1..Len(x) : x[i] \in {71, 195})
  /\ kind = "base" => LET d == B64Decode(x) IN ~d.e => NoPadding(B64Encode(d.b)) = NoPadding(x)      \* Padding is optional.
\* What JSON decodes is what is encoded again, as far as it shows.
Json == kind = "json" =>
  LET d == JDecode(x, <<>>)
  IN d.ok /\ ~d.u => \A t \in JTexts(d.v, d.heap, 0) :
       LET e == JDecode(t, d.heap) IN e.ok /\ Eq(e.v, d.v, e.heap, <<>>)
Occurs(p, s) == \E i \in 1..Len(s) : i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Splitting == kind = "split" =>
  \A n \in 1..Len(x) :
    LET p == SubSeq(x, 1, n)
        s == SubSeq(x, n + 1, Len(x))
        parts == SplitBy(s, p)
    IN /\ Join(parts, p) = s
       /\ \A i \in 1..Len(parts) : ~Occurs(p, parts[i])
       /\ ReplaceBy(s, p, p) = s
       /\ Len(ReplaceBy(s, p, <<>>)) = Len(s) - n * (Len(parts) - 1)
       /\ RSplit(RParse(p), s) = parts                 \* A literal is an expression that matches just itself.
Subjects == {<<>>, <<97>>, <<97, 98>>, <<98, 97, 97>>, <<46, 97, 91>>, <<97, 98, 97, 98>>}
RECURSIVE Pieces(_, _, _)
Pieces(parts, ms, s) == IF ms = <<>> THEN parts[1] ELSE parts[1] \o SubSeq(s, ms[1][1], ms[1][2] - 1) \o Pieces(Tail(parts), Tail(ms), s)
Regex == kind = "regex" =>
  LET p == RParse(x)
  IN p.r = "ok" => \A s \in Subjects :
       LET ms == RFound(p, s)
           parts == RSplit(p, s)
       IN /\ (ms = <<>>) = (RFind(p, s, 1) = <<>>)
          /\ Len(parts) = Len(ms) + 1
          /\ Pieces(parts, ms, s) = s
          /\ RReplace(p, s, <<36, 48>>) = s
          /\ \A i \in 2..Len(ms) : ms[i][1] >= ms[i - 1][2] /\ (ms[i][1] = ms[i][2] => ms[i][1] > ms[i - 1][2])
Val_(i) == Values[x[i]]
C_(i, j) == Cmp(Val_(i), Val_(j), VHeap)
E_(i, j) == Eq(Val_(i), Val_(j), VHeap, <<>>)
HasNaN(v) == v = Flt(FNaN)
Order == kind = "values" =>
  /\ Len(x) = 1 /\ ~HasNaN(Val_(1)) => C_(1, 1) = 0 /\ E_(1, 1)
  /\ Len(x) = 2 => /\ E_(1, 2) = E_(2, 1)
                   /\ ~HasNaN(Val_(1)) /\ ~HasNaN(Val_(2)) => C_(1, 2) = -C_(2, 1) /\ E_(1, 2) = (C_(1, 2) = 0)
  /\ Len(x) = 3 /\ ~(\E i \in 1..3 : HasNaN(Val_(i))) => (C_(1, 2) <= 0 /\ C_(2, 3) <= 0 => C_(1, 3) <= 0) /\ (E_(1, 2) /\ E_(2, 3) => E_(1, 3))
  /\ Len(x) = 3 => LET s == SortVals(<<Val_(1), Val_(2), Val_(3)>>, VHeap)
                   IN /\ {s[i] : i \in 1..3} = {Val_(i) : i \in 1..3}
                      /\ \A i \in 1..2 : HasNaN(s[i]) \/ Cmp(s[i], s[i + 1], VHeap) <= 0
Abs_(a) == IF Sgn(a) < 0 THEN BNeg(a) ELSE a
Division == kind = "numbers" /\ Len(x) = 2 =>
  LET a == Bigs[x[1]]
      b == Bigs[x[2]]
  IN /\ BSub(BAdd(a, b), b) = a
     /\ BMul(a, b) = BMul(b, a)
     /\ Sgn(b) # 0 => /\ BAdd(BMul(BQuo(a, b), b), BRem(a, b)) = a
                      /\ BCmp(Abs_(BRem(a, b)), Abs_(b)) < 0
                      /\ Sgn(BRem(a, b)) \in {0, Sgn(a)}
     /\ BCmp(a, b) = -BCmp(b, a)
     /\ BCmp(a, b) = Sgn(BSub(a, b))
     /\ FromDigits(BText(Abs_(a)), BI(0)) = Abs_(a)
FAbs(f) == IF FSign(f) < 0 THEN FNeg(f) ELSE f
Floats == kind = "floats" /\ Len(x) = 2 =>
  LET f == FNorm(x[1][1], x[1][2], 1)
      g == FNorm(x[2][1], x[2][2], 1)
      q == FDiv(f, g)
  IN /\ FAdd(f, g) = FAdd(g, f) /\ FMul(f, g) = FMul(g, f)
     /\ FEq(FSub(FAdd(f, g), g), f)
     /\ FCmp(f, g) = -FCmp(g, f)
     /\ \A y \in {f, g, q, FMul(f, q), FAdd(f, q)} : y[1] # 3 => ParseFloat(FText(y)) = <<y>>
     /\ q[1] = 0 => FCmp(FAbs(FSub(FMul(q, g), f)), FMul(FAbs(f), FRound(1, BI(1), 52))) <= 0
     /\ (q[1] = 0 /\ FDen(q) < 50) => FEq(FMul(q, g), f)
     /\ x[2][1] # 0 => FCmp(FAbs(FRem(f, g)), FAbs(g)) < 0
=============================================================================
