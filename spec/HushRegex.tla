----------------------------- MODULE HushRegex ------------------------------
(* std.regex: a subset of the syntax, and leftmost-first matching.            *)
(* An expression is a tree:                                                   *)
(*   [k |-> "set", cs |-> ASCII codes, neg]   one character in cs, or not in it*)
(*   [k |-> "chr", b |-> bytes]               one character that isn't ASCII   *)
(*   [k |-> "cat", xs], [k |-> "alt", xs]                                      *)
(*   [k |-> "rep", x, lo, hi, lazy]           hi = -1: any number              *)
(*   [k |-> "cap", x, n]                      the n-th group                   *)
(*   [k |-> "bol"], [k |-> "eol"], [k |-> "wb"], [k |-> "nwb"]                 *)
EXTENDS HushCodecs

(* Parsing.  A parser yields [r |-> "ok", x, i, n, names, names of the groups *)
(* so far], [r |-> "bad"] or, if it's beyond the subset, [r |-> "out"].        *)
ROk(x, i, names) == [r |-> "ok", x |-> x, i |-> i, names |-> names]
RBad == [r |-> "bad", x |-> <<>>, i |-> 0, names |-> <<>>]
ROut == [r |-> "out", x |-> <<>>, i |-> 0, names |-> <<>>]
RSet(cs, neg) == [k |-> "set", cs |-> cs, neg |-> neg]
DigitSet == 48..57
WordSet == (48..57) \cup (65..90) \cup (97..122) \cup {95}
SpaceSet == {9, 10, 11, 12, 13, 32}
\* What a backslash and c stand for: a set, or {} if it's nothing (or an assertion).
ClassOf(c) == CASE c \in {100, 68} -> DigitSet [] c \in {119, 87} -> WordSet [] c \in {115, 83} -> SpaceSet [] OTHER -> {}
Meta == {92, 46, 43, 42, 63, 40, 41, 124, 91, 93, 123, 125, 94, 36, 35, 38, 45, 126}
PlainEsc(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 102 -> 12 [] c = 118 -> 11 [] c = 97 -> 7
                 [] c \in Meta -> c [] OTHER -> -1
RAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
\* A bracketed class, from after the opening bracket and ^ on.  first: nothing of it was read yet.
RECURSIVE RClass(_, _, _, _)
RClass(s, i, acc, first) ==
  LET c == RAt(s, i)
      esc == c = 92
      e == RAt(s, i + 1)
      lo == IF esc THEN PlainEsc(e) ELSE c
      j == IF esc THEN i + 2 ELSE i + 1
      range == RAt(s, j) = 45 /\ RAt(s, j + 1) \notin {93, -1}
      h == RAt(s, j + 1)
      hi == IF h = 92 THEN PlainEsc(RAt(s, j + 2)) ELSE h
      j2 == IF h = 92 THEN j + 3 ELSE j + 2
  IN CASE c = -1 -> [r |-> "bad", cs |-> {}, i |-> 0]
       [] c = 93 /\ ~first -> [r |-> "ok", cs |-> acc, i |-> i + 1]
       [] c \in {91} \/ c > 127 \/ (c \in {38, 126, 45} /\ RAt(s, i + 1) = c) -> [r |-> "out", cs |-> {}, i |-> 0]
       [] c = 45 /\ RAt(s, i + 1) # 93 /\ ~first -> [r |-> "out", cs |-> {}, i |-> 0]
       [] esc /\ e \in {100, 119, 115} -> IF RAt(s, i + 2) = 45 THEN [r |-> "out", cs |-> {}, i |-> 0] ELSE RClass(s, i + 2, acc \cup ClassOf(e), FALSE)
       [] esc /\ e \in {68, 87, 83, 120, 117, 85, 112, 80, 98, 66, 65, 122} -> [r |-> "out", cs |-> {}, i |-> 0]
       [] lo < 0 -> [r |-> "bad", cs |-> {}, i |-> 0]
       [] range /\ (hi < 0 \/ hi > 127 \/ h = 91 \/ (h = 92 /\ RAt(s, j + 2) \in {68, 87, 83, 100, 119, 115, 120, 117, 85, 112, 80}))
            -> [r |-> "out", cs |-> {}, i |-> 0]
       [] range /\ hi < lo -> [r |-> "bad", cs |-> {}, i |-> 0]
       [] range -> RClass(s, j2, acc \cup lo..hi, FALSE)
       [] OTHER -> RClass(s, j, acc \cup {lo}, FALSE)

RECURSIVE RDigits(_, _), RAlt(_, _, _, _), RCat(_, _, _, _), RPost(_, _), RName(_, _), RNullable(_)
RDigits(s, i) == IF RAt(s, i) \in DigitSet THEN RDigits(s, i + 1) ELSE i
RName(s, i) == IF RAt(s, i) \in WordSet THEN RName(s, i + 1) ELSE i
\* The names of groups also have . and brackets.
RECURSIVE RGroupName(_, _)
RGroupName(s, i) == IF RAt(s, i) \in WordSet \cup {46, 91, 93} THEN RGroupName(s, i + 1) ELSE i
RNum(s, i, j) == Small(FromDigits(SubSeq(s, i, j - 1), <<0>>))
\* May it match nothing?
RNullable(x) == CASE x.k \in {"set", "chr"} -> FALSE
                  [] x.k = "cat" -> \A i \in 1..Len(x.xs) : RNullable(x.xs[i])
                  [] x.k = "alt" -> \E i \in 1..Len(x.xs) : RNullable(x.xs[i])
                  [] x.k = "rep" -> x.lo = 0 \/ RNullable(x.x)
                  [] x.k = "cap" -> RNullable(x.x)
                  [] OTHER -> TRUE
\* The repetitions that follow the expression p.
RRep(s, p, lo, hi, i) == LET lazy == RAt(s, i) = 63
                         IN IF (hi = -1 \/ hi > 1) /\ RNullable(p.x) THEN ROut      \* Empty iterations aren't specified.
                            ELSE RPost(s, ROk([k |-> "rep", x |-> p.x, lo |-> lo, hi |-> hi, lazy |-> lazy], IF lazy THEN i + 1 ELSE i, p.names))
RPost(s, p) ==
  LET c == RAt(s, p.i)
      a == RDigits(s, p.i + 1)
      comma == RAt(s, a) = 44
      b == IF comma THEN RDigits(s, a + 1) ELSE a
      lo == RNum(s, p.i + 1, a)
      hi == IF ~comma THEN lo ELSE IF b = a + 1 THEN -1 ELSE RNum(s, a + 1, b)
  IN IF p.r # "ok" THEN p
     ELSE CASE c = 42 -> RRep(s, p, 0, -1, p.i + 1)
            [] c = 43 -> RRep(s, p, 1, -1, p.i + 1)
            [] c = 63 -> RRep(s, p, 0, 1, p.i + 1)
            [] c = 123 -> IF RAt(s, p.i + 1) = 32 \/ RAt(s, b) = 32 \/ a - p.i > 3 \/ b - a > 3 THEN ROut
                          ELSE IF a = p.i + 1 \/ RAt(s, b) # 125 \/ (hi # -1 /\ hi < lo) THEN RBad
                          ELSE RRep(s, p, lo, hi, b + 1)
            [] OTHER -> p
\* One atom and its repetitions.
RAtom(s, i, names) ==
  LET c == RAt(s, i)
      e == RAt(s, i + 1)
      neg == e = 94
      cls == RClass(s, IF neg THEN i + 2 ELSE i + 1, {}, TRUE)
      n == CharLen(SubSeq(s, i, IF i + 3 > Len(s) THEN Len(s) ELSE i + 3))
      j == RGroupName(s, i + 4)
      name == SubSeq(s, i + 4, j - 1)
      inner == CASE e # 63 -> RAlt(s, i + 1, Append(names, <<>>), TRUE)
                 [] RAt(s, i + 2) = 58 -> RAlt(s, i + 3, names, TRUE)
                 [] OTHER -> RAlt(s, j + 1, Append(names, name), TRUE)
      num == Len(names) + 1
      closed == IF inner.r # "ok" THEN inner
                ELSE IF RAt(s, inner.i) # 41 THEN RBad
                ELSE ROk(IF e = 63 /\ RAt(s, i + 2) = 58 THEN inner.x ELSE [k |-> "cap", x |-> inner.x, n |-> num], inner.i + 1, inner.names)
  IN CASE c = 40 -> IF e = 63 /\ RAt(s, i + 2) # 58
                    THEN (IF RAt(s, i + 2) # 80 \/ RAt(s, i + 3) # 60 THEN ROut
                          ELSE IF RAt(s, j) > 127 THEN ROut
                          ELSE IF name = <<>> \/ name[1] \in DigitSet \cup {46, 91, 93} \/ RAt(s, j) # 62 THEN RBad
                          ELSE IF \E x \in 1..Len(names) : names[x] = name THEN RBad
                          ELSE RPost(s, closed))
                    ELSE RPost(s, closed)
       [] c = 46 -> RPost(s, ROk(RSet({10}, TRUE), i + 1, names))
       [] c = 91 -> IF cls.r # "ok" THEN (IF cls.r = "bad" THEN RBad ELSE ROut)
                    ELSE RPost(s, ROk(RSet(cls.cs, neg), cls.i, names))
       [] c = 94 -> RPost(s, ROk([k |-> "bol"], i + 1, names))
       [] c = 36 -> RPost(s, ROk([k |-> "eol"], i + 1, names))
       [] c = 92 -> CASE ClassOf(e) # {} -> RPost(s, ROk(RSet(ClassOf(e), e \in {68, 87, 83}), i + 2, names))
                      [] e \in {98, 66} -> RPost(s, ROk([k |-> IF e = 98 THEN "wb" ELSE "nwb"], i + 2, names))
                      [] e \in {65, 122} -> RPost(s, ROk([k |-> IF e = 65 THEN "bol" ELSE "eol"], i + 2, names))
                      [] e \in {120, 117, 85, 112, 80} -> ROut
                      [] PlainEsc(e) >= 0 -> RPost(s, ROk(RSet({PlainEsc(e)}, FALSE), i + 2, names))
                      [] OTHER -> RBad
       [] c \in {42, 43, 63, 123} -> RBad                      \* Nothing to repeat.
       [] c < 128 -> RPost(s, ROk(RSet({c}, FALSE), i + 1, names))
       [] n > 0 -> RPost(s, ROk([k |-> "chr", b |-> SubSeq(s, i, i + n - 1)], i + n, names))
       [] OTHER -> RBad
RCat(s, i, names, xs) ==
  LET p == RAtom(s, i, names)
  IN IF RAt(s, i) \in {-1, 124, 41} THEN ROk([k |-> "cat", xs |-> xs], i, names)
     ELSE IF p.r # "ok" THEN p ELSE RCat(s, p.i, p.names, Append(xs, p.x))
RECURSIVE RAlts(_, _, _, _)
RAlts(s, i, names, xs) ==
  LET p == RCat(s, i, names, <<>>)
  IN IF p.r # "ok" THEN p
     ELSE IF RAt(s, p.i) = 124 THEN RAlts(s, p.i + 1, p.names, Append(xs, p.x))
     ELSE ROk([k |-> "alt", xs |-> Append(xs, p.x)], p.i, p.names)
RAlt(s, i, names, nested) == RAlts(s, i, names, <<>>)
\* The whole expression.  Two errors, of which one is outside of the subset, are outside.
RParse(s) == LET p == RAlts(s, 1, <<>>, <<>>)
             IN IF ~IsUtf8(s) THEN RBad
                ELSE IF p.r # "ok" THEN p
                ELSE IF p.i <= Len(s) THEN RBad ELSE p

-----------------------------------------------------------------------------
(* Matching: all the ways to match x from position i of s on, the preferred   *)
(* ones first, as <<position after it, groups>>.  Groups: pairs of positions.  *)
RECURSIVE RMatch(_, _, _, _), RMatchCat(_, _, _, _, _), RMatchAlt(_, _, _, _, _), RMatchRep(_, _, _, _, _), RThen(_, _, _, _, _), RThenRep(_, _, _, _)
RCharAt(s, i) == IF i > Len(s) THEN 0 ELSE CharLen(SubSeq(s, i, IF i + 3 > Len(s) THEN Len(s) ELSE i + 3))
\* What follows a match depends on where it ends only: of those that end in the same place, the preferred one is enough.
Best(ms) == SelectSeq([j \in 1..Len(ms) |-> IF \E m \in 1..(j - 1) : ms[m][1] = ms[j][1] THEN <<>> ELSE ms[j]], LAMBDA m : m # <<>>)
WordAt(s, i) == i \in 1..Len(s) /\ s[i] \in WordSet
RMatch(x, s, i, g) ==
  LET n == RCharAt(s, i)
  IN CASE x.k = "set" -> IF n <= 0 THEN <<>>
                         ELSE IF (s[i] \in x.cs) # x.neg THEN << <<i + n, g>> >> ELSE <<>>
       [] x.k = "chr" -> IF i + Len(x.b) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x.b) - 1) = x.b THEN << <<i + Len(x.b), g>> >> ELSE <<>>
       [] x.k = "bol" -> IF i = 1 THEN << <<i, g>> >> ELSE <<>>
       [] x.k = "eol" -> IF i = Len(s) + 1 THEN << <<i, g>> >> ELSE <<>>
       [] x.k \in {"wb", "nwb"} -> IF (WordAt(s, i - 1) # WordAt(s, i)) = (x.k = "wb") THEN << <<i, g>> >> ELSE <<>>
       [] x.k = "cap" -> LET ms == RMatch(x.x, s, i, g)
                         IN [j \in 1..Len(ms) |-> <<ms[j][1], [ms[j][2] EXCEPT ![x.n] = <<i, ms[j][1]>>]>>]
       [] x.k = "cat" -> RMatchCat(x.xs, 1, s, i, g)
       [] x.k = "alt" -> RMatchAlt(x.xs, 1, s, i, g)
       [] x.k = "rep" -> RMatchRep(x, 0, s, i, g)
RMatchCat(xs, j, s, i, g) == IF j > Len(xs) THEN << <<i, g>> >>
                             ELSE Best(RThen(RMatch(xs[j], s, i, g), xs, j + 1, s, 1))
RThen(ms, xs, j, s, at) == IF at > Len(ms) THEN <<>>
                           ELSE RMatchCat(xs, j, s, ms[at][1], ms[at][2]) \o RThen(ms, xs, j, s, at + 1)
RMatchAlt(xs, j, s, i, g) == IF j > Len(xs) THEN <<>> ELSE Best(RMatch(xs[j], s, i, g) \o RMatchAlt(xs, j + 1, s, i, g))
\* n: the iterations so far.
RMatchRep(x, n, s, i, g) ==
  LET more == IF x.hi # -1 /\ n >= x.hi THEN <<>> ELSE RThenRep(RMatch(x.x, s, i, g), x, n + 1, s)
      stop == IF n >= x.lo THEN << <<i, g>> >> ELSE <<>>
  IN Best(IF x.lazy THEN stop \o more ELSE more \o stop)
RThenRep(ms, x, n, s) == IF ms = <<>> THEN <<>>
                         ELSE RMatchRep(x, n, s, ms[1][1], ms[1][2]) \o RThenRep(Tail(ms), x, n, s)
\* The first match from i on: <<start, end, groups>>, or <<>>.
RECURSIVE RFind(_, _, _), RFindAll(_, _, _, _)
RFind(p, s, i) ==
  LET ms == RMatch(p.x, s, i, [j \in 1..Len(p.names) |-> <<>>])
  IN IF i > Len(s) + 1 THEN <<>>
     ELSE IF ms # <<>> THEN <<i, ms[1][1], ms[1][2]>>
     ELSE RFind(p, s, i + 1)
\* All matches, which don't overlap; an empty one isn't right after another.  last: the end of the one before.
RFindAll(p, s, i, last) ==
  LET m == RFind(p, s, i)
  IN IF m = <<>> THEN <<>>
     ELSE IF m[1] < m[2] THEN <<m>> \o RFindAll(p, s, m[2], m[2])
     ELSE IF m[2] = last THEN RFindAll(p, s, m[2] + 1, last)
     ELSE <<m>> \o RFindAll(p, s, m[2] + 1, m[2])
RFound(p, s) == RFindAll(p, s, 1, 0)
RSplit(p, s) ==
  LET ms == RFound(p, s)
      n == Len(ms)
  IN [j \in 1..(n + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE ms[j - 1][2], IF j > n THEN Len(s) ELSE ms[j][1] - 1)]
\* The replacement for a match: $name and ${name} are groups, $$ is $.
RGroup(p, s, m, name) ==
  LET num == name # <<>> /\ \A i \in 1..Len(name) : name[i] \in DigitSet
      n == IF num /\ Len(name) < 5 THEN Small(FromDigits(name, <<0>>))
           ELSE IF \E j \in 1..Len(p.names) : p.names[j] = name /\ name # <<>>
                THEN CHOOSE j \in 1..Len(p.names) : p.names[j] = name ELSE 999
  IN IF n = 0 THEN SubSeq(s, m[1], m[2] - 1)
     ELSE IF n > Len(p.names) THEN <<>>
     ELSE IF m[3][n] = <<>> THEN <<>>
     ELSE SubSeq(s, m[3][n][1], m[3][n][2] - 1)
RECURSIVE RExpand(_, _, _, _, _)
RExpand(p, s, m, t, i) ==
  LET j == RName(t, i + 1)
      close == {x \in (i + 2)..Len(t) : t[x] = 125}
      c == CHOOSE x \in close : \A y \in close : x <= y
  IN CASE i > Len(t) -> <<>>
       [] t[i] # 36 -> <<t[i]>> \o RExpand(p, s, m, t, i + 1)
       [] RAt(t, i + 1) = 36 -> <<36>> \o RExpand(p, s, m, t, i + 2)
       [] RAt(t, i + 1) = 123 /\ close # {} -> RGroup(p, s, m, SubSeq(t, i + 2, c - 1)) \o RExpand(p, s, m, t, c + 1)
       [] j > i + 1 -> RGroup(p, s, m, SubSeq(t, i + 1, j - 1)) \o RExpand(p, s, m, t, j)
       [] OTHER -> <<36>> \o RExpand(p, s, m, t, i + 1)
RReplace(p, s, t) ==
  LET ms == RFound(p, s)
      gaps == RSplit(p, s)
  IN Concat([j \in 1..(2 * Len(ms) + 1) |-> IF j % 2 = 1 THEN gaps[(j + 1) \div 2] ELSE RExpand(p, s, ms[j \div 2], t, 1)])
\* A text on which classes of characters beyond ASCII matter isn't specified.
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
=============================================================================
