----------------------------- MODULE HushFloats -----------------------------
(* Floats: IEEE 754 doubles, exactly.  Every operation computes its result as *)
(* a rational number, and then rounds it, to the nearest of them, ties to even. *)
(*                                                                           *)
(* <<0, k>> \o n, for an odd BigInt n, is the number n / 2^k.  <<1, s>> is     *)
(* zero and <<2, s>> infinity, with sign s; <<3, 0>> is NaN.                   *)
EXTENDS BigInt, HushData

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Max(x, y) == IF x > y THEN x ELSE y
LOCAL Min(x, y) == IF x < y THEN x ELSE y
FNaN == <<3, 0>>
FInf(s) == <<2, s>>
FZero(s) == <<1, s>>
IsNaN(f) == f[1] = 3
IsInf(f) == f[1] = 2
IsZero(f) == f[1] = 1
FDen(f) == f[2]                    \* The exponent of the denominator,
FNum(f) == SubSeq(f, 3, Len(f))    \* and the numerator.
FSign(f) == CASE f[1] = 0 -> f[3] [] f[1] \in {1, 2} -> f[2] [] OTHER -> 1
FNeg(f) == CASE f[1] = 0 -> [f EXCEPT ![3] = -f[3]] [] f[1] \in {1, 2} -> <<f[1], -f[2]>> [] OTHER -> f

\* Powers, of two and of ten, as BigInts.
RECURSIVE Pow2(_), P2(_), P5(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
P2(k) == IF k <= 26 THEN BI(Pow2(k))
         ELSE LET h == P2(k \div 2) IN IF k % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), BI(2))
P5(k) == IF k = 0 THEN BI(1)
         ELSE LET h == P5(k \div 2) IN IF k % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), BI(5))
P10(k) == <<1>> \o [i \in 1..(k \div 4) |-> 0] \o <<CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000>>

\* The number of bits of a positive BigInt: the least b with n < 2^b.
RECURSIVE SmallBits(_)
SmallBits(n) == IF n = 0 THEN 0 ELSE 1 + SmallBits(n \div 2)
RECURSIVE BitsUp(_, _, _)
BitsUp(n, b, p) == IF BCmp(n, p) < 0 THEN b ELSE BitsUp(n, b + 1, BMul(p, BI(2)))
Bits(n) == IF IsSmall(n) THEN SmallBits(Small(n))
           ELSE LET l == Len(n) - 2      \* The limbs below the highest: 13.2877 bits each.
                    b == (l * 132877) \div 10000 + SmallBits(n[Len(n)]) - 1
                IN BitsUp(n, b, P2(b))

\* n / 2^k in lowest terms.
RECURSIVE FOdd(_, _)
FOdd(n, k) ==
  IF IsSmall(n)
  THEN LET m == Small(n) IN IF m % 16 = 0 THEN FOdd(BI(m \div 16), k - 4)
                            ELSE IF m % 2 = 0 THEN FOdd(BI(m \div 2), k - 1) ELSE <<0, k>> \o n
  ELSE IF n[2] % 16 = 0 THEN FOdd(BDivLimb(n, 16), k - 4)
  ELSE IF n[2] % 2 = 0 THEN FOdd(BDivLimb(n, 2), k - 1)
  ELSE <<0, k>> \o n
\* The float nearest to s * (q + something / 2^k), where half: -1, 0, 1, 2 says what of the unit is missing from
\* the integer q: nothing, less than a half, a half, more.
FNear(s, q, half, k) ==
  LET up == half = 2 \/ (half = 1 /\ q[IF Len(q) = 1 THEN 1 ELSE 2] % 2 = 1)
      n == IF up THEN BAdd(q, BI(1)) ELSE q
  IN IF Sgn(n) = 0 THEN FZero(s)
     ELSE LET f == FOdd(n, k)
          IN IF FDen(f) <= 0 /\ Bits(FNum(f)) - FDen(f) > 1024 THEN FInf(s)
             ELSE IF s < 0 THEN FNeg(f) ELSE f
\* Twice the rest, compared to the divisor.
FHalf(r, d) == IF Sgn(r) = 0 THEN -1
               ELSE LET c == BCmp(BAdd(r, r), d) IN IF c < 0 THEN 0 ELSE IF c = 0 THEN 1 ELSE 2
\* n / 2^b, by parts of ten bits: the quotient, and whether bits other than zeros are lost.
RECURSIVE Shifted(_, _, _)
Shifted(n, b, lost) ==
  IF b = 0 THEN [q |-> n, lost |-> lost]
  ELSE LET p == Pow2(Min(b, 10))
           q == BDivLimb(n, p)
       IN Shifted(q, b - Min(b, 10), lost \/ BMul(q, BI(p)) # n)
\* The float nearest to s * n / 2^k, for a BigInt n that isn't negative.
FRound(s, n, k) ==
  IF Sgn(n) = 0 THEN FZero(s)
  ELSE IF IsSmall(n) /\ k <= 1000 /\ k >= -900 THEN (IF s < 0 THEN FNeg(FOdd(n, k)) ELSE FOdd(n, k))
  ELSE LET drop == Max(Bits(n) - 53, k - 1074)
       IN IF drop <= 0 THEN FNear(s, n, -1, k)
          ELSE IF drop > Bits(n) + 2 THEN FZero(s)
          ELSE LET x == Shifted(n, drop - 1, FALSE)
                   q == BDivLimb(x.q, 2)
                   half == BAdd(q, q) # x.q        \* The highest bit that goes.
               IN FNear(s, q, IF half THEN (IF x.lost THEN 2 ELSE 1) ELSE IF x.lost THEN 0 ELSE -1, k - drop)
\* The float nearest to s * n / d, for positive BigInts n and d.
FRatio(s, n, d) ==
  LET at(k) == IF k >= 0 THEN [n |-> BMul(n, P2(k)), d |-> d] ELSE [n |-> n, d |-> BMul(d, P2(-k))]
      k1 == Min(53 - (Bits(n) - Bits(d)), 1074)
      x1 == at(k1)
      q1 == BQuo(x1.n, x1.d)
      over == Bits(q1) - 53           \* As many bits are too many.
      k == IF over > 0 THEN k1 - over ELSE k1
      x == IF over > 0 THEN at(k) ELSE x1
      q == IF over > 0 THEN BQuo(x.n, x.d) ELSE q1
  IN IF Sgn(n) = 0 THEN FZero(s)
     ELSE FNear(s, q, FHalf(BSub(x.n, BMul(q, x.d)), x.d), k)

\* From small integers: n / 2^k, or zero with the sign s.
FNorm(n, k, s) == IF n = 0 THEN FZero(s) ELSE FRound(IF n < 0 THEN -1 ELSE 1, BI(Abs(n)), k)
FOfInt(a) == IF Sgn(a) = 0 THEN FZero(1) ELSE FRound(Sgn(a), BAbs(a), 0)

\* The numerators over a common denominator.
FCom(f, g) == IF IsZero(f) THEN (IF IsZero(g) THEN 0 ELSE FDen(g)) ELSE IF IsZero(g) THEN FDen(f) ELSE Max(FDen(f), FDen(g))
FOver(f, K) == IF IsZero(f) THEN BI(0) ELSE IF K = FDen(f) THEN FNum(f) ELSE BMul(FNum(f), P2(K - FDen(f)))
FAdd(f, g) ==
  IF IsNaN(f) \/ IsNaN(g) THEN FNaN
  ELSE IF IsInf(f) THEN (IF IsInf(g) /\ g # f THEN FNaN ELSE f)
  ELSE IF IsInf(g) THEN g
  ELSE LET K == FCom(f, g)
           n == BAdd(FOver(f, K), FOver(g, K))
       IN IF Sgn(n) = 0 THEN FZero(IF IsZero(f) /\ IsZero(g) /\ FSign(f) = -1 /\ FSign(g) = -1 THEN -1 ELSE 1)
          ELSE FRound(Sgn(n), BAbs(n), K)
FSub(f, g) == FAdd(f, FNeg(g))
FMul(f, g) ==
  LET s == FSign(f) * FSign(g)
  IN IF IsNaN(f) \/ IsNaN(g) THEN FNaN
     ELSE IF IsInf(f) \/ IsInf(g) THEN (IF IsZero(f) \/ IsZero(g) THEN FNaN ELSE FInf(s))
     ELSE IF IsZero(f) \/ IsZero(g) THEN FZero(s)
     ELSE FRound(s, BAbs(BMul(FNum(f), FNum(g))), FDen(f) + FDen(g))
FDiv(f, g) ==
  LET s == FSign(f) * FSign(g)
  IN IF IsNaN(f) \/ IsNaN(g) THEN FNaN
     ELSE IF IsInf(f) THEN (IF IsInf(g) THEN FNaN ELSE FInf(s))
     ELSE IF IsInf(g) THEN FZero(s)
     ELSE IF IsZero(g) THEN (IF IsZero(f) THEN FNaN ELSE FInf(s))
     ELSE IF IsZero(f) THEN FZero(s)
     ELSE LET k == FDen(g) - FDen(f)
              n == BAbs(FNum(f))
              d == BAbs(FNum(g))
          IN IF Len(d) = 2 /\ d[2] = 1 THEN FRound(s, n, -k)
             ELSE IF k >= 0 THEN FRatio(s, BMul(n, P2(k)), d) ELSE FRatio(s, n, BMul(d, P2(-k)))
FRem(f, g) ==
  IF IsNaN(f) \/ IsNaN(g) \/ IsInf(f) \/ IsZero(g) THEN FNaN
  ELSE IF IsInf(g) \/ IsZero(f) THEN f
  ELSE LET K == FCom(f, g)
           r == BRem(FOver(f, K), FOver(g, K))
       IN IF Sgn(r) = 0 THEN FZero(FSign(f)) ELSE FRound(Sgn(r), BAbs(r), K)
\* Total order, where NaN is lower than everything, including itself.
FCmp(f, g) ==
  IF IsNaN(f) THEN (IF IsNaN(g) THEN 0 ELSE -1) ELSE IF IsNaN(g) THEN 1
  ELSE LET w(x) == IF IsZero(x) THEN 0 ELSE FSign(x)
           big(x) == Bits(BAbs(FNum(x))) - FDen(x)
       IN IF w(f) # w(g) THEN (IF w(f) < w(g) THEN -1 ELSE 1)
          ELSE IF w(f) = 0 THEN 0
          ELSE IF IsInf(f) \/ IsInf(g) THEN (IF f = g THEN 0 ELSE IF IsInf(f) THEN w(f) ELSE -w(f))
          ELSE IF big(f) # big(g) THEN (IF big(f) < big(g) THEN -w(f) ELSE w(f))
          ELSE LET K == FCom(f, g) IN BCmp(FOver(f, K), FOver(g, K))
FEq(f, g) == ~IsNaN(f) /\ ~IsNaN(g) /\ FCmp(f, g) = 0
\* Towards zero, and within the bounds.
IntOfF(f) ==
  CASE f[1] \in {1, 3} -> BI(0)
    [] f[1] = 2 -> IF f[2] > 0 THEN MaxI64 ELSE MinI64
    [] f[1] = 0 -> IF Bits(BAbs(FNum(f))) - FDen(f) > 64 THEN (IF FSign(f) > 0 THEN MaxI64 ELSE MinI64)
                   ELSE LET i == IF FDen(f) <= 0 THEN BMul(FNum(f), P2(-FDen(f))) ELSE BQuo(FNum(f), P2(FDen(f)))
                        IN IF FitsI64(i) THEN i ELSE IF Sgn(i) > 0 THEN MaxI64 ELSE MinI64

-----------------------------------------------------------------------------
(* Text.  The digits of a float are the fewest that no other float is closer  *)
(* to, and of those, the closest ones: of two that are as close, the higher,  *)
(* or the even one.                                                           *)
\* As decimals, n / 2^K is n * 5^K / 10^K.  Given the digits of the number and of the ends of its neighbourhood (which
\* belong to it, or not), as many each: n digits will do when, followed by zeros, they are above the lower end, or with
\* the last one raised below the higher one.
LOCAL Common(a, b) == LET d == {i \in 1..Len(a) : a[i] # b[i]} IN IF d = {} THEN Len(a) ELSE (CHOOSE i \in d : \A j \in d : i <= j) - 1
LOCAL ZerosFrom(a, i) == \A j \in i..Len(a) : a[j] = 48
RECURSIVE Fewest(_, _, _, _, _, _, _, _)
Fewest(v, lo, hi, p, q, n, even, ties) ==
  LET down == n > p \/ (even /\ ZerosFrom(lo, n + 1))
      next == n > q /\ hi[q + 1] = v[q + 1] + 1 /\ \A i \in (q + 2)..n : hi[i] = 48 /\ v[i] = 57     \* The end starts with the raised digits.
      up == n > q /\ (~next \/ even \/ ~ZerosFrom(hi, n + 1))
      d == IF n = Len(v) THEN 48 ELSE v[n + 1]
      above == d > 53 \/ (d = 53 /\ (ties = "up" \/ ~ZerosFrom(v, n + 2) \/ v[n] % 2 = 1))
      ds == [i \in 1..n |-> v[i] - 48]
  IN IF ~down /\ ~up THEN Fewest(v, lo, hi, p, q, n + 1, even, ties)
     ELSE IF up /\ (~down \/ above) THEN [ds EXCEPT ![n] = @ + 1] ELSE ds
\* Carries, and zeros at either end: <<digits, the place of the point>>.
RECURSIVE Carried(_, _)
Carried(ds, at) ==
  IF ds[Len(ds)] = 10
  THEN (IF Len(ds) = 1 THEN <<<<1>>, at + 1>> ELSE Carried([SubSeq(ds, 1, Len(ds) - 1) EXCEPT ![Len(ds) - 1] = @ + 1], at))
  ELSE IF Len(ds) > 1 /\ ds[1] = 0 THEN Carried(Tail(ds), at - 1)
  ELSE IF Len(ds) > 1 /\ ds[Len(ds)] = 0 THEN Carried(SubSeq(ds, 1, Len(ds) - 1), at)
  ELSE <<ds, at>>
\* The digits of a finite positive float, and where the point is: 0.d1d2d3... * 10^at
FDigits(f, ties) ==
  LET b == Bits(FNum(f))
      \* The neighbours are at 2^-k of it, or half of that below a power of two.
      k == Min(53 - b + FDen(f), 1074)
      pow == b = 1 /\ k < 1074
      K == Max(Max(k, FDen(f)), 0) + 2
      n == BMul(FNum(f), P2(K - FDen(f)))
      half == P2(K - k - 1)
      text(x) == BText(BMul(x, P5(K)))
      hi == text(BAdd(n, half))
      wide(t) == [i \in 1..(Len(hi) - Len(t)) |-> 48] \o t
      v == wide(text(n))
      lo == wide(text(BSub(n, IF pow THEN P2(K - k - 2) ELSE half)))
  IN Carried(Fewest(v, lo, hi, Common(v, lo), Common(v, hi), 1, k > FDen(f), ties), Len(hi) - K)
LOCAL Ascii(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
LOCAL Zeros(n) == [i \in 1..n |-> 48]
LOCAL IntText(n) == BText(BI(n))
\* As decimals when the point is placed from lo to hi, and else with an exponent.
FTextIn(f, lo, hi, ties) ==
  LET x == FDigits(IF FSign(f) < 0 THEN FNeg(f) ELSE f, ties)
      ds == Ascii(x[1])
      at == x[2]
  IN (IF FSign(f) < 0 THEN <<45>> ELSE <<>>)
     \o (IF at < lo \/ at > hi
         THEN <<ds[1]>> \o (IF Len(ds) = 1 THEN <<>> ELSE <<46>> \o Tail(ds)) \o <<101>> \o IntText(at - 1)
         ELSE IF at <= 0 THEN <<48, 46>> \o Zeros(-at) \o ds
         ELSE IF at >= Len(ds) THEN ds \o Zeros(at - Len(ds)) \o <<46, 48>>
         ELSE SubSeq(ds, 1, at) \o <<46>> \o SubSeq(ds, at + 1, Len(ds)))
LOCAL Signed(s, t) == (IF s < 0 THEN <<45>> ELSE <<>>) \o t
FText(f) ==
  CASE f[1] = 1 -> Signed(f[2], <<48, 46, 48>>)
    [] f[1] = 2 -> Signed(f[2], Txt("inf"))
    [] f[1] = 3 -> Txt("NaN")
    [] f[1] = 0 -> FTextIn(f, -3, 16, "up")

\* The float s * ds * 10^e, for a sequence of decimal digits.
FDecimal(s, ds, e) ==
  LET n == FromDigits(DropZeros(ds), BI(0))
      size == Len(DropZeros(ds)) + e
  IN IF Sgn(n) = 0 \/ size < -330 THEN FZero(s)
     ELSE IF size > 310 THEN FInf(s)
     ELSE IF e >= 0 THEN FRound(s, BMul(n, P10(e)), 0)
     ELSE FRatio(s, n, P10(-e))
\* An exponent, sign and digits, as a (small) integer: those beyond any float's are 99999.
ParseExp(s) ==
  LET sg == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
      z  == DropZeros(IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s)
  IN sg * (IF Len(z) > 5 THEN 99999 ELSE Small(FromDigits(z, BI(0))))
=============================================================================
