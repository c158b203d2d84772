------------------------------- MODULE BigInt -------------------------------
(* Integers of unbounded size, because TLC's own are 32 bits wide and Hush's *)
(* are 64.  A number is <<sign, limb, limb, ...>>, the limbs in base 10^4,   *)
(* least significant first, without leading zeros; zero is <<0>>.            *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt     \* FoldLeft, which takes linear time where recursion doesn't.

LOCAL Base == 10000
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE SmallLimbs(_)
SmallLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o SmallLimbs(n \div Base)

\* From a (32 bit) integer.
BI(n) == IF n = 0 THEN <<0>>
         ELSE <<IF n < 0 THEN -1 ELSE 1>> \o SmallLimbs(Abs(n))

Sgn(a) == a[1]
Mag(a) == Tail(a)
IsSmall(a) == Len(a) <= 3              \* |a| < 10^8
\* To a (32 bit) integer, for small numbers.
Small(a) == CASE Len(a) = 1 -> 0
              [] Len(a) = 2 -> a[1] * a[2]
              [] OTHER      -> a[1] * (a[2] + Base * a[3])

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m
LOCAL Make(s, m) == LET t == Strip(m) IN IF t = <<>> THEN <<0>> ELSE <<s>> \o t

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* Comparison of magnitudes and of numbers: -1, 0 or 1.
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpAt(a, b, Len(a))
BCmp(a, b) == IF Sgn(a) # Sgn(b) THEN (IF Sgn(a) < Sgn(b) THEN -1 ELSE 1)
              ELSE IF Sgn(a) = 0 THEN 0
              ELSE Sgn(a) * MagCmp(Mag(a), Mag(b))

\* Sequences of limbs from low to high, with a carry: <<carry, limbs so far>>.
LOCAL Upto(n) == [i \in 1..n |-> i]
LOCAL WithCarry(x) == IF x[1] = 0 THEN x[2] ELSE Append(x[2], x[1])
MagAdd(a, b) ==
  WithCarry(FoldLeft(LAMBDA x, i : LET t == Limb(a, i) + Limb(b, i) + x[1]
                                   IN IF t >= Base THEN <<1, Append(x[2], t - Base)>> ELSE <<0, Append(x[2], t)>>,
                     <<0, <<>>>>, Upto(Max2(Len(a), Len(b)))))

\* a - b for magnitudes with a >= b.
MagSub(a, b) ==
  Strip(FoldLeft(LAMBDA x, i : LET t == a[i] - Limb(b, i) - x[1]
                               IN IF t < 0 THEN <<1, Append(x[2], t + Base)>> ELSE <<0, Append(x[2], t)>>,
                 <<0, <<>>>>, Upto(Len(a)))[2])

BAbs(a) == IF Sgn(a) < 0 THEN <<1>> \o Mag(a) ELSE a
BNeg(a) == IF Sgn(a) = 0 THEN a ELSE <<-Sgn(a)>> \o Mag(a)

BAdd(a, b) ==
  IF IsSmall(a) /\ IsSmall(b) THEN BI(Small(a) + Small(b))
  ELSE IF Sgn(a) = 0 THEN b ELSE IF Sgn(b) = 0 THEN a
  ELSE IF Sgn(a) = Sgn(b) THEN Make(Sgn(a), MagAdd(Mag(a), Mag(b)))
  ELSE IF MagCmp(Mag(a), Mag(b)) >= 0 THEN Make(Sgn(a), MagSub(Mag(a), Mag(b)))
  ELSE Make(Sgn(b), MagSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))

\* Product of a magnitude and a limb.
MagMulLimb(a, l) ==
  WithCarry(FoldLeft(LAMBDA x, d : LET t == d * l + x[1] IN <<t \div Base, Append(x[2], t % Base)>>, <<0, <<>>>>, a))
\* From the highest limb of b on: what there is so far moves up by a limb.
MagMul(a, b) == FoldLeft(LAMBDA x, l : MagAdd(IF x = <<>> THEN x ELSE <<0>> \o x, IF l = 0 THEN <<>> ELSE MagMulLimb(a, l)), <<>>, Reverse(b))
BMul(a, b) == IF Sgn(a) = 0 \/ Sgn(b) = 0 THEN <<0>>
              ELSE IF Len(a) = 2 /\ Len(b) = 2 THEN BI(Small(a) * Small(b))
              ELSE Make(Sgn(a) * Sgn(b), IF Len(a) > Len(b) THEN MagMul(Mag(a), Mag(b)) ELSE MagMul(Mag(b), Mag(a)))

\* Long division of magnitudes, most significant limb first.
\* The quotient digit is the largest d with b*d <= r: estimates from the highest limbs, which are never too high,
\* add up to it.  Returns the digit and what is left of r.
RECURSIVE Digit(_, _, _)
Digit(r, b, d) ==
  IF MagCmp(r, b) < 0 THEN <<d, r>>
  ELSE LET top == IF Len(r) > Len(b) THEN r[Len(r)] * Base + r[Len(r) - 1] ELSE r[Len(r)]
           \* The divisor is at most its top limb, plus one unless that limb is all of it.
           e == Max2(1, top \div (IF Len(b) = 1 THEN b[1] ELSE b[Len(b)] + 1))
       IN Digit(MagSub(r, IF e = 1 THEN b ELSE MagMulLimb(b, e)), b, d + e)
LongDiv(a, b) ==
  FoldLeft(LAMBDA x, l : LET d == Digit(Strip(<<l>> \o x.r), b, 0) IN [q |-> <<d[1]>> \o x.q, r |-> d[2]],
           [q |-> <<>>, r |-> <<>>], Reverse(a))
\* Truncated division and its remainder (which has the sign of a); b is not zero.
BQuo(a, b) == IF Sgn(a) = 0 THEN a
              ELSE Make(Sgn(a) * Sgn(b), LongDiv(Mag(a), Mag(b)).q)
BRem(a, b) == IF Sgn(a) = 0 THEN a
              ELSE Make(Sgn(a), LongDiv(Mag(a), Mag(b)).r)

\* The same for a divisor below 10^4, given as an integer: linear.
MagDivLimb(m, d) ==
  FoldLeft(LAMBDA x, l : LET t == x[1] * Base + l IN <<t % d, <<t \div d>> \o x[2]>>, <<0, <<>>>>, Reverse(m))[2]
BDivLimb(a, d) == Make(Sgn(a), MagDivLimb(Mag(a), d))

\* The bounds of the 64 bit integers.
MaxI64 == <<1, 5807, 5477, 368, 3372, 922>>
MinI64 == <<-1, 5808, 5477, 368, 3372, 922>>
FitsI64(a) == BCmp(a, MaxI64) <= 0 /\ BCmp(a, MinI64) >= 0

\* Decimal text, as a sequence of ASCII codes.
RECURSIVE DigitsOf(_, _)
DigitsOf(n, w) == IF w = 0 THEN <<>> ELSE DigitsOf(n \div 10, w - 1) \o <<48 + (n % 10)>>
DropZeros(s) == LET d == {i \in 1..Len(s) : s[i] # 48}
                IN IF s = <<>> THEN s ELSE IF d = {} THEN <<48>> ELSE SubSeq(s, CHOOSE i \in d : \A j \in d : i <= j, Len(s))
MagText(m) == FoldLeft(LAMBDA x, l : x \o DigitsOf(l, 4), <<>>, Reverse(m))
BText(a) == IF Sgn(a) = 0 THEN <<48>>
            ELSE (IF Sgn(a) < 0 THEN <<45>> ELSE <<>>) \o DropZeros(MagText(Mag(a)))

\* From a sequence of decimal digits (ASCII codes).
RECURSIVE FromDigits(_, _)
FromDigits(s, acc) == IF Len(s) <= 4 THEN BAdd(BMul(acc, BI(10^Len(s))), BI(FoldLeft(LAMBDA x, d : 10 * x + d - 48, 0, s)))
                      ELSE FromDigits(SubSeq(s, 5, Len(s)), BAdd(BMul(acc, BI(Base)), BI(FoldLeft(LAMBDA x, d : 10 * x + d - 48, 0, SubSeq(s, 1, 4)))))
=============================================================================
