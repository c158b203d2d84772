------------------------------ MODULE HushStd ------------------------------
(* The pure part of the standard library: Native(f, args, ...) is what a call *)
(* of the native function f with these arguments does.  The result is         *)
(*   [r |-> "val", v |-> value, heap |-> the heap afterwards],                 *)
(*   [r |-> "pan", p |-> panic], or [r |-> "out"] when the result is outside   *)
(*   of what the specification represents.                                     *)
EXTENDS HushRegex

(* Panics: [k |-> kind, v |-> the offending value, x |-> text].               *)
PanicX(k, v, x) == [k |-> k, v |-> v, x |-> x]
TypeErr(v, x)  == PanicX("type", v, Txt(x))
ValueErr(v, x) == PanicX("value", v, Txt(x))
IndexErr(v)    == PanicX("index", v, <<>>)
ArgsErr(n, m)  == PanicX("args", Nil, BText(BI(n)) \o Txt(", expected ") \o BText(BI(m)))
Simple(x)      == PanicX("simple", Nil, Txt(x))
\* The texts of a panic.
PanicTexts(p, heap) ==
  CASE p.k = "simple" -> {p.x}
    [] p.k = "type"  -> {Txt("value (") \o s \o Txt(") has unexpected type, expected ") \o p.x : s \in Shows(p.v, heap)}
    [] p.k = "value" -> {Txt("invalid value (") \o s \o Txt("), expected ") \o p.x : s \in Shows(p.v, heap)}
    [] p.k = "index" -> {Txt("index (") \o s \o Txt(") out of bounds") : s \in Shows(p.v, heap)}
    [] p.k = "call"  -> {Txt("attempt to call (") \o s \o Txt("), which is not a function") : s \in Shows(p.v, heap)}
    [] p.k = "cond"  -> {Txt("condition (") \o s \o Txt(") is not a boolean") : s \in Shows(p.v, heap)}
    [] p.k = "ro"    -> {Txt("attempt to assign field (") \o s \o Txt("), which is readonly") : s \in Shows(p.v, heap)}
    [] p.k = "user"  -> {Txt("std.panic(") \o s \o <<41>> : s \in Shows(p.v, heap)}
    [] p.k = "args"  -> {Txt("incorrect amount of function parameters -- supplied ") \o p.x}
    [] p.k = "import" -> {Txt("failed to import module (") \o p.x \o <<41>>}

Val(v, heap) == [r |-> "val", v |-> v, heap |-> heap]
Pan(p) == [r |-> "pan", p |-> p]
New(t, obj, heap) == [r |-> "val", v |-> Ref(t, Len(heap) + 1), heap |-> Append(heap, obj)]
NewArray(vs, heap) == New("array", [t |-> "array", v |-> vs], heap)
NewDict(ps, heap) == New("dict", [t |-> "dict", v |-> ps], heap)
NewError(d, c, heap) == New("error", [t |-> "error", d |-> d, c |-> c], heap)
NewNat(f, a, i, heap) == New("function", [t |-> "nat", f |-> f, a |-> a, i |-> i], heap)
SetItems(v, items, heap) == [heap EXCEPT ![v.v[1]].v = items]

FinishedKey == Str(Txt("finished"))
ValueKey == Str(Txt("value"))
KeyKey == Str(Txt("key"))
Finished(heap) == NewDict(<< <<FinishedKey, TrueV>> >>, heap)
Iteration(v, heap) == NewDict(<< <<FinishedKey, FalseV>>, <<ValueKey, v>> >>, heap)

-----------------------------------------------------------------------------
(* Strings.                                                                   *)
IsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
\* The index of the first occurrence of p in s, not before i; zero if there is none.
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF IsAt(s, p, i) THEN i ELSE FindFrom(s, p, i + 1)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, p, i) ==   \* p is not empty.
  LET j == FindFrom(s, p, i)
  IN IF j = 0 THEN <<SubSeq(s, i, Len(s))>>
     ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, p, j + Len(p))
\* An empty pattern is found before, after and between the characters.
SplitBy(s, p) == IF p = <<>> THEN <<<<>>>> \o [i \in 1..Len(s) |-> <<s[i]>>] \o <<<<>>>>
                 ELSE SplitFrom(s, p, 1)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* Replacing is splitting and joining.
ReplaceBy(s, p, r) == Join(SplitBy(s, p), r)
Space(b) == b \in {9, 10, 11, 12, 13, 32}
\* The white space of Unicode, as the bytes of UTF-8 (the rest of a broken
\* sequence is no white space).
WideSpaces == {<<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 129, 159>>, <<227, 128, 128>>}
              \cup {<<226, 128, b>> : b \in (128..138) \cup {168, 169, 175}}
\* The length of the white space s begins with, or ends in: zero when none.
SpaceL(s) == IF s = <<>> THEN 0
             ELSE IF Space(s[1]) THEN 1
             ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) \in WideSpaces THEN 2
             ELSE IF Len(s) >= 3 /\ SubSeq(s, 1, 3) \in WideSpaces THEN 3 ELSE 0
SpaceR(s) == IF s = <<>> THEN 0
             ELSE IF Space(s[Len(s)]) THEN 1
             ELSE IF Len(s) >= 2 /\ SubSeq(s, Len(s) - 1, Len(s)) \in WideSpaces THEN 2
             ELSE IF Len(s) >= 3 /\ SubSeq(s, Len(s) - 2, Len(s)) \in WideSpaces THEN 3 ELSE 0
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF SpaceL(s) > 0 THEN TrimL(SubSeq(s, SpaceL(s) + 1, Len(s))) ELSE s
TrimR(s) == IF SpaceR(s) > 0 THEN TrimR(SubSeq(s, 1, Len(s) - SpaceR(s))) ELSE s
Trimmed(s) == TrimR(TrimL(s))
IsDigit(b) == b >= 48 /\ b <= 57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
\* The int with the given text: a sequence with it, or the empty sequence.
ParseInt(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      d   == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
  IN IF d = <<>> \/ ~AllDigits(d) THEN <<>>
     ELSE LET m == FromDigits(d, <<0>>)
              x == IF neg THEN BNeg(m) ELSE m
          IN IF FitsI64(x) THEN <<x>> ELSE <<>>
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
\* The float with the given text, [sign] digits [. digits] [e [sign] digits], inf or nan.  As for ParseInt.
ParseFloat(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      sg  == IF neg THEN -1 ELSE 1
      d   == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      es  == {i \in 1..Len(d) : d[i] \in {69, 101}}
      e   == IF es = {} THEN Len(d) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
      m   == SubSeq(d, 1, e - 1)
      x   == SubSeq(d, e + 1, Len(d))
      xd  == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
      dot == FindFrom(m, <<46>>, 1)
      ip  == IF dot = 0 THEN m ELSE SubSeq(m, 1, dot - 1)
      fp  == IF dot = 0 THEN <<>> ELSE SubSeq(m, dot + 1, Len(m))
  IN IF Lower(d) \in {Txt("inf"), Txt("infinity")} THEN <<FInf(sg)>>
     ELSE IF Lower(d) = Txt("nan") THEN <<FNaN>>
     ELSE IF ip \o fp = <<>> \/ ~AllDigits(ip) \/ ~AllDigits(fp) THEN <<>>
     ELSE IF es # {} /\ (xd = <<>> \/ ~AllDigits(xd)) THEN <<>>
     ELSE <<FDecimal(sg, ip \o fp, (IF es = {} THEN 0 ELSE ParseExp(x)) - Len(fp))>>

-----------------------------------------------------------------------------
RECURSIVE HasError(_, _)
HasError(v, heap) ==
  CASE v.t = "error" -> TRUE
    [] v.t = "array" -> \E i \in 1..Len(Items(v, heap)) : HasError(Items(v, heap)[i], heap)
    [] v.t = "dict" -> \E i \in 1..Len(Items(v, heap)) :
                         HasError(Items(v, heap)[i][1], heap) \/ HasError(Items(v, heap)[i][2], heap)
    [] OTHER -> FALSE
TypeNames == {"nil", "bool", "char", "int", "float", "string", "array", "dict", "function", "error"}
TypeOfText(s) == {t \in TypeNames : Txt(t) = s}

IsColl(v) == v.t \in {"string", "array", "dict"}
CollLen(v, heap) == IF v.t = "string" THEN Len(v.v) ELSE Len(Items(v, heap))

\* Numbers promoted to the same type: a sequence, or the first that isn't a number.
RECURSIVE FirstNonNum(_)
FirstNonNum(vs) == IF vs = <<>> THEN <<>>
                   ELSE IF vs[1].t \in {"int", "float"} THEN FirstNonNum(Tail(vs))
                   ELSE <<vs[1]>>
Promote(vs) == IF \A i \in 1..Len(vs) : vs[i].t = "int" THEN vs
               ELSE [i \in 1..Len(vs) |-> IF vs[i].t = "int" THEN Flt(FOfInt(vs[i].v)) ELSE vs[i]]

\* One call of the iterators.  r: the reference of the iterator, which has state.
RangeNext(r, heap) ==
  LET o == heap[r]
      from == o.a[1]
      to == o.a[2]
      step == o.a[3]
      up == IF step.t = "int" THEN Sgn(step.v) > 0 ELSE FCmp(step.v, FZero(1)) > 0
      c == Cmp(from, to, heap)
      fin == IF up THEN c >= 0 ELSE c <= 0
      sum == BAdd(from.v, step.v)
      next == IF step.t = "int"
              THEN IntV(IF FitsI64(sum) THEN sum ELSE IF up THEN MaxI64 ELSE MinI64)
              ELSE Flt(FAdd(from.v, step.v))
  IN IF fin THEN Finished(heap)
     ELSE Iteration(from, [heap EXCEPT ![r].a[1] = next])
IterNext(r, heap) ==     \* Over an array (by position, as it is now) or a string.
  LET o == heap[r]
      c == o.a[1]
      i == Small(o.i) + 1
  IN IF i > CollLen(c, heap) THEN Finished(heap)
     ELSE Iteration(IF c.t = "string" THEN Char(c.v[i]) ELSE Items(c, heap)[i],
                    [heap EXCEPT ![r].i = BI(i)])
\* Over a dict (as it was): o.a is the sequence of keys and values left; which
\* of them is next is not determined.  Returns the set of results.
DictNexts(r, heap) ==
  LET o == heap[r]
      n == Len(o.a) \div 2
      Without(j) == SubSeq(o.a, 1, 2 * j - 2) \o SubSeq(o.a, 2 * j + 1, 2 * n)
  IN IF n = 0 THEN {Finished(heap)}
     ELSE { LET h1 == [heap EXCEPT ![r].a = Without(j)]
                e == NewDict(<< <<KeyKey, o.a[2 * j - 1]>>, <<ValueKey, o.a[2 * j]>> >>, h1)
            IN Iteration(e.v, e.heap) : j \in 1..n }
RECURSIVE Flatten(_)
Flatten(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Flatten(Tail(ps))

Arity(f) ==
  CASE f \in {"args", "cwd", "rand", "read"} -> 0
    [] f \in {"bind", "contains", "error", "push", "split", "typecheck", "try_typecheck", "export", "randint", "regex<replace>"} -> 2
    [] f \in {"range", "replace", "substr"} -> 3
    [] f \in {"range<impl>", "iter<impl>"} -> 0
    [] OTHER -> 1

\* f: the name of a native function; a: its arguments; r: its reference, for iterators.
Native(f, a, r, heap, cells) ==
  IF Len(a) # Arity(f) THEN {Pan(ArgsErr(Len(a), Arity(f)))}
  ELSE IF f = "iter<impl>" /\ heap[r].i = <<-1>> THEN DictNexts(r, heap)
  ELSE IF f = "to_string" THEN { Val(Str(s), heap) : s \in IF a[1].t = "string" THEN {a[1].v} ELSE Shows(a[1], heap) }
  ELSE IF f = "randint" /\ a[1].t = "int" /\ a[2].t = "int" /\ BCmp(a[1].v, a[2].v) <= 0
       THEN IF BCmp(BSub(a[2].v, a[1].v), BI(50)) > 0 THEN {[r |-> "out"]}
            ELSE { Val(IntV(BAdd(a[1].v, BI(k))), heap) : k \in 0..Small(BSub(a[2].v, a[1].v)) }
  ELSE IF f = "json.encode" /\ JOk(a[1], heap) THEN { Val(Str(s), heap) : s \in JTexts(a[1], heap, 0) }
  ELSE IF f = "try_typecheck" /\ a[2].t = "string" /\ TypeOfText(a[2].v) \notin {{}, {a[1].t}}
       THEN { NewError(Txt("type error: expected ") \o a[2].v \o Txt(", got ") \o Txt(a[1].t) \o <<32, 40>>
                       \o s \o <<41>>, a[1], heap) : s \in Shows(a[1], heap) }
  ELSE { CASE
     f = "range<impl>" -> RangeNext(r, heap)
  [] f = "iter<impl>" -> IterNext(r, heap)
  [] f = "assert" ->
       IF a[1] = TrueV THEN Val(Nil, heap)
       ELSE IF a[1] = FalseV THEN Pan(Simple("assertion failed"))
       ELSE Pan(TypeErr(a[1], "bool"))
  [] f = "panic" -> Pan(PanicX("user", a[1], <<>>))
  [] f = "bind" -> IF a[2].t # "function" THEN Pan(TypeErr(a[2], "function"))
                   ELSE NewNat("bind<impl>", a, <<0>>, heap)
  [] f = "bytes" -> IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string"))
                    ELSE NewArray([i \in 1..Len(a[1].v) |-> Char(a[1].v[i])], heap)
  [] f = "contains" ->
       CASE a[1].t = "array" -> Val(Bool(\E i \in 1..Len(Items(a[1], heap)) : Eq(Items(a[1], heap)[i], a[2], heap, cells)), heap)
         [] a[1].t = "dict" -> Val(Bool(DictFind(Items(a[1], heap), a[2], 1, heap, cells) # 0), heap)
         [] a[1].t = "string" -> IF a[2].t # "char" THEN Pan(TypeErr(a[2], "char"))
                                 ELSE Val(Bool(\E i \in 1..Len(a[1].v) : a[1].v[i] = a[2].v[1]), heap)
         [] OTHER -> Pan(TypeErr(a[1], "string ,array or dict"))
  [] f = "error" -> IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string"))
                    ELSE NewError(a[1].v, a[2], heap)
  [] f = "float" ->
       CASE a[1].t = "float" -> Val(a[1], heap)
         [] a[1].t = "int" -> Val(Flt(FOfInt(a[1].v)), heap)
         [] a[1].t = "string" -> LET p == ParseFloat(a[1].v)
                                 IN IF p = <<>> THEN Pan(ValueErr(a[1], "valid integer")) ELSE Val(Flt(p[1]), heap)
         [] OTHER -> Pan(TypeErr(a[1], "int, float or string"))
  [] f = "int" ->
       CASE a[1].t = "int" -> Val(a[1], heap)
         [] a[1].t = "float" -> Val(IntV(IntOfF(a[1].v)), heap)
         [] a[1].t = "string" -> LET p == ParseInt(a[1].v)
                                 IN IF p = <<>> THEN Pan(ValueErr(a[1], "valid integer")) ELSE Val(IntV(p[1]), heap)
         [] OTHER -> Pan(TypeErr(a[1], "int, float or string"))
  [] f = "has_error" -> Val(Bool(HasError(a[1], heap)), heap)
  [] f \in {"is_empty", "len"} ->
       IF ~IsColl(a[1]) THEN Pan(TypeErr(a[1], "string, array or dict"))
       ELSE IF f = "len" THEN Val(IntN(CollLen(a[1], heap)), heap)
       ELSE Val(Bool(CollLen(a[1], heap) = 0), heap)
  [] f = "iter" ->
       IF ~IsColl(a[1]) THEN Pan(TypeErr(a[1], "string, array or dict"))
       ELSE IF a[1].t = "dict" THEN NewNat("iter<impl>", Flatten(Items(a[1], heap)), <<-1>>, heap)
       ELSE NewNat("iter<impl>", a, <<0>>, heap)
  [] f = "pop" ->
       IF a[1].t # "array" THEN Pan(TypeErr(a[1], "array"))
       ELSE LET s == Items(a[1], heap)
            IN IF s = <<>> THEN Pan(Simple("collection is empty"))
               ELSE Val(s[Len(s)], SetItems(a[1], SubSeq(s, 1, Len(s) - 1), heap))
  [] f = "push" ->
       IF a[1].t # "array" THEN Pan(TypeErr(a[1], "array"))
       ELSE Val(Nil, SetItems(a[1], Append(Items(a[1], heap), a[2]), heap))
  [] f = "range" ->
       LET bad == FirstNonNum(a)
       IN IF bad # <<>> THEN Pan(TypeErr(bad[1], "int or float"))
          ELSE NewNat("range<impl>", Promote(a), <<0>>, heap)
  [] f = "rand" -> [r |-> "out"]        \* See HushRand.
  [] f = "randint" -> IF a[1].t # "int" THEN Pan(TypeErr(a[1], "int"))
                      ELSE IF a[2].t # "int" THEN Pan(TypeErr(a[2], "int"))
                      ELSE Pan(ValueErr(a[2], "an int not lower than the first"))
  [] f = "randseed" -> IF a[1].t # "int" THEN Pan(TypeErr(a[1], "int")) ELSE Val(Nil, heap)
  [] f = "regex" ->
       IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string"))
       ELSE LET p == RParse(a[1].v)
                fun(i) == Ref("function", Len(heap) + i)
                obj(g) == [t |-> "nat", f |-> g, a |-> <<a[1]>>, i |-> <<0>>]
            IN CASE p.r = "out" -> [r |-> "out"]
                 [] p.r = "bad" -> NewError(Txt("invalid regex"), Str(<<-1>>), heap)      \* The context is a message for people.
                 [] OTHER -> NewDict(<< <<Str(Txt("match")), fun(1)>>, <<Str(Txt("split")), fun(2)>>, <<Str(Txt("replace")), fun(3)>> >>,
                                     heap \o <<obj("regex<match>"), obj("regex<split>"), obj("regex<replace>")>>)
  [] f \in {"regex<match>", "regex<split>", "regex<replace>"} ->
       LET i == IF a[1].t # "string" THEN 1 ELSE IF f = "regex<replace>" /\ a[2].t # "string" THEN 2 ELSE 0
           p == RParse(heap[r].a[1].v)
           s == a[1].v
           parts == RSplit(p, s)
       IN IF i # 0 THEN Pan(TypeErr(a[i], "string"))
          ELSE IF ~Ascii(s) THEN [r |-> "out"]
          ELSE CASE f = "regex<match>" -> Val(Bool(RFind(p, s, 1) # <<>>), heap)
                 [] f = "regex<split>" -> NewArray([j \in 1..Len(parts) |-> Str(parts[j])], heap)
                 [] OTHER -> Val(Str(RReplace(p, s, a[2].v)), heap)
  [] f = "replace" ->
       LET i == IF a[1].t # "string" THEN 1 ELSE IF a[2].t # "string" THEN 2 ELSE IF a[3].t # "string" THEN 3 ELSE 0
       IN IF i # 0 THEN Pan(TypeErr(a[i], "string")) ELSE Val(Str(ReplaceBy(a[1].v, a[2].v, a[3].v)), heap)
  [] f = "sort" -> IF a[1].t # "array" THEN Pan(TypeErr(a[1], "array"))
                   ELSE Val(Nil, SetItems(a[1], SortVals(Items(a[1], heap), heap), heap))
  [] f = "split" ->
       LET i == IF a[1].t # "string" THEN 1 ELSE IF a[2].t # "string" THEN 2 ELSE 0
           ss == SplitBy(a[1].v, a[2].v)
       IN IF i # 0 THEN Pan(TypeErr(a[i], "string")) ELSE NewArray([j \in 1..Len(ss) |-> Str(ss[j])], heap)
  [] f = "substr" ->
       \* Exactly one offending argument is reported as such.
       IF a[1].t # "string" /\ a[2].t = "int" /\ a[3].t = "int" THEN Pan(TypeErr(a[1], "string"))
       ELSE IF a[1].t = "string" /\ a[2].t # "int" /\ a[3].t = "int" THEN Pan(TypeErr(a[2], "int"))
       ELSE IF a[1].t = "string" /\ a[2].t = "int" /\ a[3].t # "int" THEN Pan(TypeErr(a[3], "int"))
       ELSE IF a[1].t # "string" \/ a[2].t # "int" \/ a[3].t # "int" THEN Pan(ArgsErr(3, 3))
       ELSE LET s == a[1].v
                ok == /\ Sgn(a[2].v) >= 0 /\ Sgn(a[3].v) >= 0
                      /\ BCmp(BAdd(a[2].v, a[3].v), BI(Len(s))) <= 0
            IN IF ~ok THEN Val(Nil, heap)
               ELSE Val(Str(SubSeq(s, Small(a[2].v) + 1, Small(a[2].v) + Small(a[3].v))), heap)
  [] f = "trim" -> IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string")) ELSE Val(Str(Trimmed(a[1].v)), heap)
  [] f \in {"hex.encode", "hex.decode", "base64.encode", "base64.decode"} ->
       IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string"))
       ELSE LET d == CASE f = "hex.encode" -> Decoded(HexEncode(a[1].v)) [] f = "hex.decode" -> HexDecode(a[1].v)
                       [] f = "base64.encode" -> Decoded(B64Encode(a[1].v)) [] OTHER -> B64Decode(a[1].v)
            IN IF d.e THEN NewError(d.b, a[1], heap) ELSE Val(Str(d.b), heap)
  [] f = "json.encode" -> Pan(ValueErr(a[1], "nil, bool, byte, int, float, string, array or dict"))
  [] f = "json.decode" ->
       IF a[1].t # "string" THEN Pan(TypeErr(a[1], "string"))
       ELSE LET d == JDecode(a[1].v, heap)
            IN IF ~d.ok THEN NewError(<<-1>>, a[1], heap)      \* The description is not specified.
               ELSE IF d.u THEN [r |-> "out"] ELSE Val(d.v, d.heap)
  [] f = "type" -> Val(Str(Txt(a[1].t)), heap)
  [] f \in {"typecheck", "try_typecheck"} ->
       IF a[2].t # "string" THEN Pan(TypeErr(a[2], "string"))
       ELSE LET ts == TypeOfText(a[2].v)
            IN IF ts = {} THEN Pan(ValueErr(a[2], "valid type"))
               ELSE IF a[1].t \in ts THEN Val(IF f = "typecheck" THEN a[1] ELSE Nil, heap)
               ELSE IF f = "typecheck" THEN Pan(PanicX("type", a[1], a[2].v))
               ELSE [r |-> "out"]
  }
=============================================================================
