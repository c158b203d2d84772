----------------------------- MODULE HushValues -----------------------------
(* The values of the language, and the relations on them: equality, order,   *)
(* and text.                                                                 *)
(*                                                                           *)
(* A value is [t |-> type, v |-> sequence of integers]:                      *)
(*   nil <<>>; bool <<0>>, <<1>>; char <<byte>>; int a BigInt; string bytes; *)
(*   float as HushFloats has them;                                                 *)
(*   array, dict, error, function <<reference>>, an index in the heap;       *)
(*   the functions of the standard library are <<-index>> in StdNames.       *)
(* The heap is a sequence of objects: [t |-> "array", v |-> values],         *)
(* [t |-> "dict", v |-> pairs], [t |-> "error", d |-> bytes, c |-> value],   *)
(* [t |-> "fun", n |-> node, fv |-> names, env |-> names to cells], and      *)
(* [t |-> "nat", f |-> name, a |-> values, i |-> BigInt] for the native      *)
(* functions that the library creates.                                       *)
EXTENDS Integers, Sequences, FiniteSets, BigInt, HushFloats, HushData

Nil      == [t |-> "nil", v |-> <<>>]
Bool(b)  == [t |-> "bool", v |-> IF b THEN <<1>> ELSE <<0>>]
TrueV    == Bool(TRUE)
FalseV   == Bool(FALSE)
Char(b)  == [t |-> "char", v |-> <<b>>]
IntV(a)  == [t |-> "int", v |-> a]
IntN(n)  == [t |-> "int", v |-> BI(n)]
Str(s)   == [t |-> "string", v |-> s]
Flt(f)   == [t |-> "float", v |-> f]
Ref(t, r) == [t |-> t, v |-> <<r>>]
IsTrue(v) == v.v = <<1>>

StdNames == << "args", "assert", "bind", "bytes", "catch", "cd", "contains", "cwd", "env",
  "error", "exit", "export", "float", "glob", "has_error", "import", "int", "is_empty",
  "iter", "len", "panic", "pop", "print", "println", "push", "rand", "randint", "randseed",
  "range", "read", "regex", "replace", "sleep", "sort", "split", "substr", "to_string",
  "trim", "try_typecheck", "type", "typecheck", "hex.encode", "hex.decode", "base64.encode", "base64.decode",
  "json.encode", "json.decode" >>
StdIx == [s \in {StdNames[i] : i \in 1..Len(StdNames)} |->
            CHOOSE i \in 1..Len(StdNames) : StdNames[i] = s]
StdFun(s) == [t |-> "function", v |-> <<-StdIx[s]>>]
FunObj(v, heap) == IF v.v[1] < 0 THEN [t |-> "nat", f |-> StdNames[-v.v[1]], a |-> <<>>, i |-> <<0>>]
                   ELSE heap[v.v[1]]

\* Whatever follows must only use references through these.
Items(v, heap) == heap[v.v[1]].v
ErrObj(v, heap) == heap[v.v[1]]

-----------------------------------------------------------------------------
(* Equality is structural, and never across types.                            *)
RECURSIVE Eq(_, _, _, _), EqSeq(_, _, _, _, _), DictFind(_, _, _, _, _), EqFv(_, _, _, _, _)
\* cells: the variables, which the equality of closures looks at.
EqSeq(a, b, i, heap, cells) ==
  IF i > Len(a) THEN TRUE
  ELSE Eq(a[i], b[i], heap, cells) /\ EqSeq(a, b, i + 1, heap, cells)
\* The index of the entry with the given key, or zero.
DictFind(ps, key, i, heap, cells) ==
  IF i > Len(ps) THEN 0
  ELSE IF Eq(ps[i][1], key, heap, cells) THEN i
  ELSE DictFind(ps, key, i + 1, heap, cells)
EqFv(fa, fb, i, heap, cells) ==
  IF i > Len(fa.fv) THEN TRUE
  ELSE /\ Eq(cells[fa.env[fa.fv[i]]], cells[fb.env[fb.fv[i]]], heap, cells)
       /\ EqFv(fa, fb, i + 1, heap, cells)
Eq(a, b, heap, cells) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t \in {"nil", "bool", "char", "int", "string"} -> a.v = b.v
         [] a.t = "float" -> FEq(a.v, b.v)
         [] a.t = "array" ->
              LET x == Items(a, heap)
                  y == Items(b, heap)
              IN Len(x) = Len(y) /\ EqSeq(x, y, 1, heap, cells)
         [] a.t = "dict" ->
              LET x == Items(a, heap)
                  y == Items(b, heap)
              IN /\ Len(x) = Len(y)
                 /\ \A i \in 1..Len(x) :
                      LET j == DictFind(y, x[i][1], 1, heap, cells)
                      IN j # 0 /\ Eq(x[i][2], y[j][2], heap, cells)
         [] a.t = "error" ->
              LET x == ErrObj(a, heap)
                  y == ErrObj(b, heap)
              IN x.d = y.d /\ Eq(x.c, y.c, heap, cells)
         [] a.t = "function" ->
              LET x == FunObj(a, heap)
                  y == FunObj(b, heap)
              IN IF x.t # y.t THEN FALSE
                 ELSE IF x.t = "nat" THEN x.f = y.f
                 ELSE x.n = y.n /\ EqFv(x, y, 1, heap, cells)

(* The total order of std.sort: by type, and then by value.                   *)
Rank(t) == CASE t = "nil" -> 1 [] t = "bool" -> 2 [] t = "char" -> 3 [] t = "int" -> 4
             [] t = "float" -> 5 [] t = "string" -> 6 [] t = "array" -> 7 [] t = "dict" -> 8
             [] t = "function" -> 9 [] t = "error" -> 10
FunText(f) == IF f.t = "fun" THEN Txt("function<>") ELSE IF f.f = "join" THEN Txt("<command>.join") ELSE Txt("std.") \o Txt(f.f)
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==    \* Of byte sequences.
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1
  ELSE LexCmp(a, b, i + 1)
RECURSIVE Cmp(_, _, _), CmpSeq(_, _, _, _), SortPairs(_, _), InsPair(_, _, _), CmpPairs(_, _, _, _)
CmpSeq(a, b, i, heap) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == Cmp(a[i], b[i], heap) IN IF c # 0 THEN c ELSE CmpSeq(a, b, i + 1, heap)
InsPair(p, ps, heap) == IF ps = <<>> THEN <<p>>
                        ELSE IF Cmp(p[1], ps[1][1], heap) <= 0 THEN <<p>> \o ps
                        ELSE <<ps[1]>> \o InsPair(p, Tail(ps), heap)
SortPairs(ps, heap) == IF ps = <<>> THEN <<>> ELSE InsPair(ps[1], SortPairs(Tail(ps), heap), heap)
CmpPairs(a, b, i, heap) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == Cmp(a[i][1], b[i][1], heap)
       IN IF c # 0 THEN c
          ELSE LET d == Cmp(a[i][2], b[i][2], heap)
               IN IF d # 0 THEN d ELSE CmpPairs(a, b, i + 1, heap)
Cmp(a, b, heap) ==
  IF a.t # b.t THEN (IF Rank(a.t) < Rank(b.t) THEN -1 ELSE 1)
  ELSE CASE a.t = "nil" -> 0
         [] a.t \in {"bool", "char"} -> IF a.v[1] < b.v[1] THEN -1 ELSE IF a.v[1] > b.v[1] THEN 1 ELSE 0
         [] a.t = "int" -> BCmp(a.v, b.v)
         [] a.t = "float" -> FCmp(a.v, b.v)
         [] a.t = "string" -> LexCmp(a.v, b.v, 1)
         [] a.t = "array" -> CmpSeq(Items(a, heap), Items(b, heap), 1, heap)
         [] a.t = "dict" -> CmpPairs(SortPairs(Items(a, heap), heap), SortPairs(Items(b, heap), heap), 1, heap)
         [] a.t = "error" ->
              LET x == ErrObj(a, heap)
                  y == ErrObj(b, heap)
                  c == LexCmp(x.d, y.d, 1)
              IN IF c # 0 THEN c ELSE Cmp(x.c, y.c, heap)
         [] a.t = "function" ->        \* Those of the library by name, after all others.
              LET x == FunObj(a, heap)
                  y == FunObj(b, heap)
              IN IF x.t # y.t THEN (IF x.t = "fun" THEN -1 ELSE 1)
                 ELSE IF x.t = "nat" THEN LexCmp(FunText(x), FunText(y), 1)
                 ELSE 0                \* In the order of the source, which programs here don't depend on.
\* Stable insertion sort.
RECURSIVE InsVal(_, _, _), SortVals(_, _)
InsVal(x, s, heap) == IF s = <<>> THEN <<x>>
                      ELSE IF Cmp(x, s[1], heap) <= 0 THEN <<x>> \o s
                      ELSE <<s[1]>> \o InsVal(x, Tail(s), heap)
SortVals(s, heap) == IF s = <<>> THEN <<>> ELSE InsVal(s[1], SortVals(Tail(s), heap), heap)

-----------------------------------------------------------------------------
(* Text.  A dict shows its entries in any order, so that a value has a set of *)
(* texts.                                                                     *)
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(b) == IF b < 16 THEN <<Hex(b)>> ELSE <<Hex(b \div 16), Hex(b % 16)>>
EscByte(b) ==
  CASE b = 0  -> <<92, 48>>  [] b = 9  -> <<92, 116>> [] b = 10 -> <<92, 110>>
    [] b = 13 -> <<92, 114>> [] b = 34 -> <<92, 34>>  [] b = 39 -> <<92, 39>>
    [] b = 92 -> <<92, 92>>
    [] b < 32 \/ b = 127 -> Txt("\\u{") \o HexText(b) \o <<125>>
    [] OTHER -> <<b>>
\* UTF-8: the length of the character that the bytes start with, if it's valid; else, minus the length of
\* what is replaced by one U+FFFD.
Within(s, i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi
CharLen(s) ==
  LET b == s[1]
      lo == CASE b = 224 -> 160 [] b = 240 -> 144 [] OTHER -> 128
      hi == CASE b = 237 -> 159 [] b = 244 -> 143 [] OTHER -> 191
      n == CASE b < 128 -> 1 [] b >= 194 /\ b <= 223 -> 2 [] b >= 224 /\ b <= 239 -> 3 [] b >= 240 /\ b <= 244 -> 4
             [] OTHER -> 0
  IN CASE n <= 1 -> IF n = 1 THEN 1 ELSE -1
       [] ~Within(s, 2, lo, hi) -> -1
       [] n = 2 -> 2
       [] ~Within(s, 3, 128, 191) -> -2
       [] n = 3 -> 3
       [] ~Within(s, 4, 128, 191) -> -3
       [] OTHER -> 4
RECURSIVE Escaped(_), IsUtf8(_)
IsUtf8(s) == s = <<>> \/ (CharLen(s) > 0 /\ IsUtf8(SubSeq(s, CharLen(s) + 1, Len(s))))
Escaped(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET n == CharLen(s)
       IN CASE s[1] < 128 -> EscByte(s[1]) \o Escaped(Tail(s))
            [] n = 2 /\ s[1] = 194 /\ (s[2] <= 160 \/ s[2] = 173) -> Txt("\\u{") \o HexText(s[2]) \o <<125>> \o Escaped(SubSeq(s, 3, Len(s)))
            [] n > 0 -> SubSeq(s, 1, n) \o Escaped(SubSeq(s, n + 1, Len(s)))
            [] OTHER -> <<239, 191, 189>> \o Escaped(SubSeq(s, 1 - n, Len(s)))
ByteText(b) == IF b < 128 THEN <<b>> ELSE <<192 + (b \div 64), 128 + (b % 64)>>
RECURSIVE Shows(_, _), ShowItems(_, _, _), ShowPairs(_, _, _)
\* All the texts of a sequence of values, after a separator.
ShowItems(vs, heap, first) ==
  IF vs = <<>> THEN {<<>>}
  ELSE { (IF first THEN <<32>> ELSE <<44, 32>>) \o x \o y :
         x \in Shows(vs[1], heap), y \in ShowItems(Tail(vs), heap, FALSE) }
ShowPairs(ps, heap, first) ==     \* ps: a set of pairs.
  IF ps = {} THEN {<<>>}
  ELSE UNION { { (IF first THEN <<32>> ELSE <<44, 32>>) \o x \o <<58, 32>> \o y \o z :
                 x \in Shows(p[1], heap), y \in Shows(p[2], heap),
                 z \in ShowPairs(ps \ {p}, heap, FALSE) } : p \in ps }
Shows(v, heap) ==
  CASE v.t = "nil" -> {Txt("nil")}
    [] v.t = "bool" -> {IF IsTrue(v) THEN Txt("true") ELSE Txt("false")}
    [] v.t = "int" -> {BText(v.v)}
    [] v.t = "float" -> {FText(v.v)}
    [] v.t = "char" -> {ByteText(v.v[1])}
    [] v.t = "string" -> {<<34>> \o Escaped(v.v) \o <<34>>}
    [] v.t = "array" -> {<<91>> \o x \o <<32, 93>> : x \in ShowItems(Items(v, heap), heap, TRUE)}
    [] v.t = "dict" -> {<<64, 91>> \o x \o <<32, 93>> :
                        x \in ShowPairs({Items(v, heap)[i] : i \in 1..Len(Items(v, heap))}, heap, TRUE)}
    [] v.t = "error" ->
         LET e == ErrObj(v, heap)
         IN {Txt("error: ") \o <<34>> \o Escaped(e.d) \o <<34, 32, 40>> \o x \o <<41>> : x \in Shows(e.c, heap)}
    [] v.t = "function" ->
         {FunText(FunObj(v, heap))}
\* As printed: strings and chars are raw.
Prints(v, heap) == IF v.t \in {"string", "char"} THEN {v.v} ELSE Shows(v, heap)

\* A float that the specification doesn't represent.
=============================================================================
