------------------------------ MODULE HushCore ------------------------------
(* The dynamic semantics of the language: an abstract machine.  A state holds *)
(*   c      the control: evaluate a node ("ev"), return a value to the        *)
(*          context ("rv"), unwind for return or break ("fl"), unwind for a   *)
(*          panic ("pan"), or the program is over ("end");                    *)
(*   env    the variables in scope: names to cells;                           *)
(*   base   the cells of the current activation start after it;               *)
(*   self   the object of the current method call;                            *)
(*   k      the contexts, a stack of frames;                                  *)
(*   cells  the contents of all the variables that ever existed;              *)
(*   heap   the objects (see HushValues);                                     *)
(*   pos    the position in the program's output;                             *)
(*   fuel   the steps that are left, because programs may not terminate.      *)
(* A program is a table of nodes, nd.k being the kind of a node.  Every       *)
(* declaration has one cell per activation of its function (slot nd.sl), that *)
(* closures share; functions hold the environment of their definition.        *)
(* Output isn't generated, but matched to the output observed: a step that    *)
(* prints something else is not possible.                                     *)
EXTENDS HushStd, TLC

VARIABLE st

Node(S, n) == Cases[S.cid].nodes[n]
Out(S)     == Cases[S.cid].out
\* Is its output a device that is full?
Full(S)    == "full" \in DOMAIN Cases[S.cid] /\ Cases[S.cid].full

-----------------------------------------------------------------------------
(* Matching output.  The positions where a text that starts at p may end.     *)
At(out, txt, p) == IF IsAt(out, txt, p) THEN {p + Len(txt)} ELSE {}
RECURSIVE MShow(_, _, _, _), MItems(_, _, _, _, _), MPairs(_, _, _, _, _)
MSep(out, p, first) == At(out, IF first THEN <<32>> ELSE <<44, 32>>, p)
MItems(vs, heap, out, p, first) ==
  IF vs = <<>> THEN {p}
  ELSE UNION { UNION { MItems(Tail(vs), heap, out, r, FALSE) : r \in MShow(vs[1], heap, out, q) }
               : q \in MSep(out, p, first) }
MPairs(ps, heap, out, p, first) ==
  IF ps = {} THEN {p}
  ELSE UNION { UNION { UNION { UNION { MPairs(ps \ {e}, heap, out, s, FALSE)
                                       : s \in MShow(e[2], heap, out, r2) }
                               : r2 \in At(out, <<58, 32>>, r) }
                       : r \in UNION { MShow(e[1], heap, out, q) : q \in MSep(out, p, first) } }
               : e \in ps }
MShow(v, heap, out, p) ==
  CASE v.t = "array" ->
         UNION { UNION { At(out, <<32, 93>>, r) : r \in MItems(Items(v, heap), heap, out, q, TRUE) }
                 : q \in At(out, <<91>>, p) }
    [] v.t = "dict" ->
         LET ps == {Items(v, heap)[i] : i \in 1..Len(Items(v, heap))}
         IN UNION { UNION { At(out, <<32, 93>>, r) : r \in MPairs(ps, heap, out, q, TRUE) }
                    : q \in At(out, <<64, 91>>, p) }
    [] v.t = "error" ->
         LET e == ErrObj(v, heap)
         IN UNION { UNION { At(out, <<41>>, r) : r \in MShow(e.c, heap, out, q) }
                    : q \in At(out, Txt("error: ") \o <<34>> \o Escaped(e.d) \o <<34, 32, 40>>, p) }
    [] OTHER -> UNION { At(out, s, p) : s \in Shows(v, heap) }
MPrint(v, heap, out, p) == IF v.t \in {"string", "char"} THEN At(out, v.v, p) ELSE MShow(v, heap, out, p)
\* Values separated by tabs.
RECURSIVE MLine(_, _, _, _)
MLine(vs, heap, out, p) ==
  IF vs = <<>> THEN {p}
  ELSE IF Len(vs) = 1 THEN MPrint(vs[1], heap, out, p)
  ELSE UNION { UNION { MLine(Tail(vs), heap, out, r) : r \in At(out, <<9>>, q) }
               : q \in MPrint(vs[1], heap, out, p) }

-----------------------------------------------------------------------------
(* The ways for a step to go on.                                              *)
EV(S, n)    == [S EXCEPT !.c = [m |-> "ev", n |-> n]]
RVO(S, v, o) == [S EXCEPT !.c = [m |-> "rv", v |-> v, o |-> o]]
RV(S, v)    == RVO(S, v, Nil)
FL(S, f, v) == [S EXCEPT !.c = [m |-> "fl", f |-> f, v |-> v]]
PAN(S, p, ln) == [S EXCEPT !.c = [m |-> "pan", p |-> p, ln |-> ln]]
OUTSIDE(S)  == [S EXCEPT !.c = [m |-> "end", how |-> "outside"]]
EXIT(S, n)  == [S EXCEPT !.c = [m |-> "end", how |-> "exit", code |-> n]]
Push(S, f)  == [S EXCEPT !.k = Append(S.k, f)]
Pop(S)      == [S EXCEPT !.k = SubSeq(S.k, 1, Len(S.k) - 1)]
Top(S)      == S.k[Len(S.k)]

IsAtom(nd) == nd.k \in {"lit", "id", "self", "std"}
AtomVal(S, nd) == CASE nd.k = "lit" -> nd.v
                    [] nd.k = "id" -> S.cells[S.env[nd.name]]
                    [] nd.k = "self" -> S.self
                    [] nd.k = "std" -> StdFun(nd.f)

\* The operands of the nodes that evaluate all of them, in order of evaluation.
Subs(nd) ==
  CASE nd.k \in {"arr", "dict"} -> nd.items
    [] nd.k = "un" -> <<nd.a>>
    [] nd.k = "bin" -> <<nd.a, nd.b>>
    [] nd.k = "acc" -> <<nd.o, nd.f>>
    [] nd.k = "call" -> <<nd.f>> \o nd.args
    [] nd.k \in {"let", "ret", "expr"} -> <<nd.e>>
    [] nd.k = "asg" -> IF nd.o = 0 THEN <<nd.e>> ELSE <<nd.e, nd.o, nd.f>>

-----------------------------------------------------------------------------
(* Operators.  The results are [r |-> "val", v |-> value], [r |-> "pan", p |-> panic, *)
(* w |-> which operand (0: the operator itself)].                             *)
OpVal(v) == [r |-> "val", v |-> v]
OpPan(p, w) == [r |-> "pan", p |-> p, w |-> w]
ArithOps == {"+", "-", "*", "/", "%"}
OrdOps == {"<", "<=", ">", ">="}
Arith(op, a, b) ==
  CASE a.t = "int" /\ b.t = "int" ->
         IF op \in {"/", "%"} /\ (Sgn(b.v) = 0 \/ (a.v = MinI64 /\ b.v = BI(-1)))
         THEN OpPan(Simple("division by zero"), 0)
         ELSE LET x == CASE op = "+" -> BAdd(a.v, b.v) [] op = "-" -> BSub(a.v, b.v)
                         [] op = "*" -> BMul(a.v, b.v) [] op = "/" -> BQuo(a.v, b.v)
                         [] op = "%" -> BRem(a.v, b.v)
              IN IF FitsI64(x) THEN OpVal(IntV(x)) ELSE OpPan(Simple("integer overflow"), 0)
    [] a.t = "int" -> OpPan(TypeErr(b, "int"), 2)
    [] a.t = "float" /\ b.t = "float" ->
         OpVal(Flt(CASE op = "+" -> FAdd(a.v, b.v) [] op = "-" -> FSub(a.v, b.v)
                     [] op = "*" -> FMul(a.v, b.v) [] op = "/" -> FDiv(a.v, b.v)
                     [] op = "%" -> FRem(a.v, b.v)))
    [] a.t = "float" -> OpPan(TypeErr(b, "float"), 2)
    [] OTHER -> OpPan(TypeErr(a, "int or float"), 1)
Order(op, a, b, heap) ==
  IF a.t \in {"int", "float", "char", "string"}
  THEN IF a.t = b.t
       THEN LET c == Cmp(a, b, heap)
            IN OpVal(Bool(CASE op = "<" -> c < 0 [] op = "<=" -> c <= 0
                            [] op = ">" -> c > 0 [] op = ">=" -> c >= 0))
       ELSE OpPan(TypeErr(b, a.t), 2)
  ELSE OpPan(TypeErr(a, "int, float, byte or string"), 1)
BinOp(op, a, b, heap, cells) ==
  CASE op \in ArithOps -> Arith(op, a, b)
    [] op \in OrdOps -> Order(op, a, b, heap)
    [] op = "==" -> OpVal(Bool(Eq(a, b, heap, cells)))
    [] op = "!=" -> OpVal(Bool(~Eq(a, b, heap, cells)))
    [] op = "++" -> IF a.t # "string" THEN OpPan(TypeErr(a, "string"), 1)
                    ELSE IF b.t # "string" THEN OpPan(TypeErr(b, "string"), 2)
                    ELSE OpVal(Str(a.v \o b.v))
UnOp(op, a) ==
  CASE op = "-" -> (CASE a.t = "int" -> IF a.v = MinI64 THEN OpPan(Simple("integer overflow"), 1)
                                        ELSE OpVal(IntV(BNeg(a.v)))
                      [] a.t = "float" -> OpVal(Flt(FNeg(a.v)))
                      [] OTHER -> OpPan(TypeErr(a, "int or float"), 1))
    [] op = "not" -> IF a.t = "bool" THEN OpVal(Bool(~IsTrue(a))) ELSE OpPan(TypeErr(a, "bool"), 1)

\* The position of a container, from an int that is in range; or zero.
IndexIn(ix, n) == IF Sgn(ix.v) >= 0 /\ BCmp(ix.v, BI(n)) < 0 THEN Small(ix.v) + 1 ELSE 0
DescKey == Str(Txt("description"))
CtxKey == Str(Txt("context"))
Access(o, f, heap, cells) ==
  CASE o.t = "dict" -> LET j == DictFind(Items(o, heap), f, 1, heap, cells)
                       IN IF j = 0 THEN OpPan(IndexErr(f), 2) ELSE OpVal(Items(o, heap)[j][2])
    [] o.t \in {"array", "string"} ->
         IF f.t # "int" THEN OpPan(TypeErr(f, "int"), 2)
         ELSE LET j == IndexIn(f, CollLen(o, heap))
              IN IF j = 0 THEN OpPan(IndexErr(f), 2)
                 ELSE OpVal(IF o.t = "string" THEN Char(o.v[j]) ELSE Items(o, heap)[j])
    [] o.t = "error" -> IF f = DescKey THEN OpVal(Str(ErrObj(o, heap).d))
                        ELSE IF f = CtxKey THEN OpVal(ErrObj(o, heap).c)
                        ELSE OpPan(IndexErr(f), 2)
    [] OTHER -> OpPan(TypeErr(o, "string, array, dict or error"), 1)

-----------------------------------------------------------------------------
(* Calls.                                                                     *)
Params(args, names, base) ==  \* Parameters have the first slots.
  [x \in {names[i] : i \in 1..Len(names)} |-> base + (CHOOSE i \in 1..Len(names) : names[i] = x)]
\* What is left to the system (see HushShell).
SysFuns == {"args", "cd", "cwd", "env", "export", "glob", "import", "join", "read", "sleep"}
RECURSIVE Call(_, _, _, _, _)
Call(S, f, o, args, ln) ==
  LET fo == FunObj(f, S.heap)
  IN IF fo.t = "fun" THEN
       LET fn == Node(S, fo.n)
       IN IF Len(args) # Len(fn.params) THEN {PAN(S, ArgsErr(Len(args), Len(fn.params)), ln)}
          ELSE {[S EXCEPT !.k = Append(S.k, [k |-> "fn", env |-> S.env, base |-> S.base, self |-> S.self]),
                          !.cells = S.cells \o args \o [i \in 1..(fn.ns - Len(args)) |-> Nil],
                          !.base = Len(S.cells),
                          !.self = o,
                          !.env = Params(args, fn.params, Len(S.cells)) @@ fo.env,
                          !.c = [m |-> "ev", n |-> fn.body]]}
     ELSE CASE fo.f \in {"print", "println"} /\ Full(S) ->       \* Output is never lost silently.
                 IF fo.f = "print" /\ \A i \in 1..Len(args) : Prints(args[i], S.heap) = {<<>>} THEN {OUTSIDE(S)}
                 ELSE {PAN(S, PanicX("simple", Nil, Txt("No space left on device (os error 28)")), ln)}
            [] fo.f \in {"print", "println"} ->
                 { RV([S EXCEPT !.pos = q], Nil) :
                   q \in IF fo.f = "print" THEN MLine(args, S.heap, Out(S), S.pos)
                         ELSE UNION { At(Out(S), <<10>>, r) : r \in MLine(args, S.heap, Out(S), S.pos) } }
            [] fo.f = "catch" ->
                 IF Len(args) # 1 THEN {PAN(S, ArgsErr(Len(args), 1), ln)}
                 ELSE IF args[1].t # "function" THEN {PAN(S, TypeErr(args[1], "function"), ln)}
                 ELSE Call(Push(S, [k |-> "catch", env |-> S.env, base |-> S.base, self |-> S.self]),
                           args[1], Nil, <<>>, ln)
            [] fo.f = "bind<impl>" -> Call(S, fo.a[2], fo.a[1], args, ln)
            [] fo.f = "exit" ->
                 IF Len(args) # 1 THEN {PAN(S, ArgsErr(Len(args), 1), ln)}
                 ELSE IF args[1].t # "int" THEN {PAN(S, TypeErr(args[1], "int"), ln)}
                 ELSE IF Sgn(args[1].v) < 0 \/ BCmp(args[1].v, BI(255)) > 0
                      THEN {PAN(S, ValueErr(args[1], "valid exit code"), ln)}
                 ELSE {EXIT(S, Small(args[1].v))}
            [] fo.f \in SysFuns -> {[S EXCEPT !.c = [m |-> "sys", f |-> fo.f, a |-> args, ln |-> ln, r |-> f]]}
            [] OTHER ->
                 { CASE x.r = "val" -> RV([S EXCEPT !.heap = x.heap], x.v)
                     [] x.r = "pan" -> PAN(S, x.p, ln)
                     [] x.r = "out" -> OUTSIDE(S)
                   : x \in Native(fo.f, args, f.v[1], S.heap, S.cells) }

-----------------------------------------------------------------------------
(* Nodes that evaluate all their operands first.                              *)
SubLine(S, nd, w) == IF w = 0 THEN nd.ln ELSE Node(S, Subs(nd)[w]).ln
Operated(S, nd, x) == IF x.r = "pan" THEN PAN(S, x.p, SubLine(S, nd, x.w))
                      ELSE RV(S, x.v)
Made(S, x) == RV([S EXCEPT !.heap = x.heap], x.v)
Store(S, nd, v, a) ==
  IF nd.o = 0 THEN RV([S EXCEPT !.cells[S.env[nd.name]] = v], Nil)
  ELSE LET o == a[1]
           f == a[2]
       IN CASE o.t = "dict" ->
                 LET j == DictFind(Items(o, S.heap), f, 1, S.heap, S.cells)
                     ps == Items(o, S.heap)
                 IN RV([S EXCEPT !.heap = SetItems(o, IF j = 0 THEN Append(ps, <<f, v>>)
                                                      ELSE [ps EXCEPT ![j] = <<ps[j][1], v>>], S.heap)], Nil)
            [] o.t = "array" ->
                 IF f.t # "int" THEN PAN(S, TypeErr(f, "int"), Node(S, nd.f).ln)
                 ELSE LET j == IndexIn(f, Len(Items(o, S.heap)))
                      IN IF j = 0 THEN PAN(S, IndexErr(f), IF Sgn(f.v) < 0 THEN nd.ln ELSE Node(S, nd.f).ln)
                         ELSE RV([S EXCEPT !.heap[o.v[1]].v[j] = v], Nil)
            [] o.t = "error" -> PAN(S, PanicX("ro", f, <<>>), Node(S, nd.f).ln)
            [] OTHER -> PAN(S, TypeErr(o, "array, dict or error"), Node(S, nd.o).ln)
\* vs: the values of the operands; o: the object that the function was a field of.
Apply(S, n, vs, o) ==
  LET nd == Node(S, n)
  IN CASE nd.k = "arr" -> {Made(S, NewArray(vs, S.heap))}
       [] nd.k = "dict" -> {Made(S, NewDict([i \in 1..Len(vs) |-> <<Str(nd.keys[i]), vs[i]>>], S.heap))}
       [] nd.k = "un" -> IF nd.op = "?" THEN {IF vs[1].t = "error" THEN FL(S, "ret", vs[1]) ELSE RV(S, vs[1])}
                         ELSE {Operated(S, nd, UnOp(nd.op, vs[1]))}
       [] nd.k = "bin" -> {Operated(S, nd, BinOp(nd.op, vs[1], vs[2], S.heap, S.cells))}
       [] nd.k = "acc" -> LET x == Access(vs[1], vs[2], S.heap, S.cells)
                          IN {IF x.r = "val" THEN RVO(S, x.v, vs[1]) ELSE Operated(S, nd, x)}
       [] nd.k = "call" -> Call(S, vs[1], o, Tail(vs), nd.ln)
       [] nd.k = "let" -> {RV([S EXCEPT !.cells[S.base + nd.sl] = vs[1]], Nil)}
       [] nd.k = "asg" -> {Store(S, nd, vs[1], Tail(vs))}
       [] nd.k = "ret" -> {FL(S, "ret", vs[1])}
       [] nd.k = "expr" -> {RV(S, vs[1])}
RECURSIVE Atoms(_, _, _)
Atoms(S, subs, vs) ==
  IF Len(vs) = Len(subs) THEN vs
  ELSE LET nd == Node(S, subs[Len(vs) + 1])
       IN IF IsAtom(nd) THEN Atoms(S, subs, Append(vs, AtomVal(S, nd))) ELSE vs
Operands(S, n, vs, o) ==
  LET nd == Node(S, n)
      subs == Subs(nd)
      ws == Atoms(S, subs, vs)
  IN IF nd.k = "call" /\ ws # <<>> /\ ws[1].t # "function"
     THEN {PAN(S, PanicX("call", ws[1], <<>>), Node(S, nd.f).ln)}
     ELSE IF Len(ws) = Len(subs) THEN Apply(S, n, ws, o)
     ELSE {EV(Push(S, [k |-> "ap", n |-> n, vs |-> ws, o |-> o]), subs[Len(ws) + 1])}

-----------------------------------------------------------------------------
(* Evaluation of a node.                                                      *)
InBlock(S, n, i, e) == EV(Push(S, [k |-> "seq", n |-> n, i |-> i, env |-> e]), Node(S, n).items[i])
StepEv(S) ==
  LET n == S.c.n
      nd == Node(S, n)
  IN CASE IsAtom(nd) -> {RV(S, AtomVal(S, nd))}
       [] nd.k = "fun" ->
            {Made(S, New("function", [t |-> "fun", n |-> n, fv |-> nd.fv,
                                      env |-> TLCEval([x \in {nd.fv[i] : i \in 1..Len(nd.fv)} |-> S.env[x]])], S.heap))}
       [] nd.k = "blk" -> IF nd.items = <<>> THEN {RV(S, Nil)} ELSE {InBlock(S, n, 1, S.env)}
       [] nd.k = "sc" -> {EV(Push(S, [k |-> "sc", n |-> n]), nd.a)}
       [] nd.k = "if" -> {EV(Push(S, [k |-> "if", n |-> n]), nd.c)}
       [] nd.k = "while" -> {EV(Push(S, [k |-> "whc", n |-> n, env |-> S.env]), nd.c)}
       [] nd.k = "for" -> {EV(Push(S, [k |-> "forit", n |-> n]), nd.e)}
       [] nd.k = "brk" -> {FL(S, "brk", Nil)}
       [] nd.k \in {"lib", "unk"} -> {OUTSIDE(S)}
       [] nd.k = "cmd" -> {[S EXCEPT !.c = [m |-> "cmd", n |-> n]]}
       [] nd.k = "let" -> Operands([S EXCEPT !.env = (nd.name :> (S.base + nd.sl)) @@ S.env], n, <<>>, Nil)
       [] OTHER -> Operands(S, n, <<>>, Nil)

(* Return of a value to the context.                                          *)
ForCall(S, n, it, e) ==
  Call([Push(S, [k |-> "forc", n |-> n, it |-> it, env |-> e]) EXCEPT !.env = e], it, Nil, <<>>, Node(S, Node(S, n).e).ln)
StepRv(S) ==
  IF S.k = <<>> THEN {[S EXCEPT !.c = [m |-> "end", how |-> "ok"]]}
  ELSE
  LET f == Top(S)
      P == Pop(S)
      v == S.c.v
      nd == Node(S, f.n)
  IN CASE f.k = "ap" -> Operands(P, f.n, Append(f.vs, v), IF f.vs = <<>> THEN S.c.o ELSE f.o)
       [] f.k = "seq" -> IF f.i = Len(nd.items) THEN {[RV(P, v) EXCEPT !.env = f.env]}
                         ELSE {InBlock(P, f.n, f.i + 1, f.env)}
       [] f.k = "sc" -> IF v.t # "bool" THEN {PAN(P, TypeErr(v, "bool"), Node(S, nd.a).ln)}
                        ELSE IF IsTrue(v) = (nd.op = "or") THEN {RV(P, v)}
                        ELSE {EV(Push(P, [k |-> "sc2", n |-> f.n]), nd.b)}
       [] f.k = "sc2" -> IF v.t # "bool" THEN {PAN(P, TypeErr(v, "bool"), Node(S, nd.b).ln)} ELSE {RV(P, v)}
       [] f.k = "if" -> IF v.t # "bool" THEN {PAN(P, PanicX("cond", v, <<>>), Node(S, nd.c).ln)}
                        ELSE IF IsTrue(v) THEN {EV(P, nd.th)}
                        ELSE IF nd.el = 0 THEN {RV(P, Nil)} ELSE {EV(P, nd.el)}
       [] f.k = "whc" -> IF v.t # "bool" THEN {PAN(P, PanicX("cond", v, <<>>), Node(S, nd.c).ln)}
                         ELSE IF IsTrue(v) THEN {EV(Push(P, [f EXCEPT !.k = "whb"]), nd.b)}
                         ELSE {RV(P, Nil)}
       [] f.k = "whb" -> {EV(Push(P, [f EXCEPT !.k = "whc"]), nd.c)}
       [] f.k = "forit" -> IF v.t # "function" THEN {PAN(P, TypeErr(v, "function"), Node(S, nd.e).ln)}
                           ELSE ForCall(P, f.n, v, S.env)
       [] f.k = "forc" ->
            LET ln == Node(S, nd.e).ln
                fin == DictFind(Items(v, S.heap), FinishedKey, 1, S.heap, S.cells)
                val == DictFind(Items(v, S.heap), ValueKey, 1, S.heap, S.cells)
            IN IF v.t # "dict" THEN {PAN(P, TypeErr(v, "dict"), ln)}
               ELSE IF fin = 0 THEN {PAN(P, IndexErr(FinishedKey), ln)}
               ELSE LET b == Items(v, S.heap)[fin][2]
                    IN IF b = TrueV THEN {RV(P, Nil)}
                       ELSE IF b # FalseV THEN {PAN(P, TypeErr(b, "bool"), ln)}
                       ELSE IF val = 0 THEN {PAN(P, IndexErr(ValueKey), ln)}
                       ELSE {EV([P EXCEPT !.k = Append(P.k, [f EXCEPT !.k = "forb"]),
                                          !.cells[S.base + nd.sl] = Items(v, S.heap)[val][2],
                                          !.env = (nd.name :> (S.base + nd.sl)) @@ S.env], nd.b)}
       [] f.k = "forb" -> ForCall(P, f.n, f.it, f.env)

StepFn(S) ==       \* Return of a value from a call or a std.catch.
  LET f == Top(S)
  IN {[RV(Pop(S), S.c.v) EXCEPT !.env = f.env, !.base = f.base, !.self = f.self]}

(* Unwinding.                                                                 *)
Topmost(S, ks) == LET is == {i \in 1..Len(S.k) : S.k[i].k \in ks}
                  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
StepFl(S) ==
  LET i == Topmost(S, IF S.c.f = "ret" THEN {"fn"} ELSE {"whb", "forb"})
      f == S.k[i]
      P == [S EXCEPT !.k = SubSeq(S.k, 1, i - 1), !.env = f.env]
  IN IF S.c.f = "ret" THEN {[RV(P, S.c.v) EXCEPT !.base = f.base, !.self = f.self]}
     ELSE {RV(P, Nil)}
LineBase == 100000        \* Lines of other modules are counted from a multiple of this.
PanicText(p, ln, heap) == {Txt("Panic@") \o BText(BI(ln % LineBase)) \o Txt(": ") \o s : s \in PanicTexts(p, heap)}
PanicCtx == Str(Txt("panic"))
StepPan(S) ==
  LET i == Topmost(S, {"catch"})
  IN IF i = 0 THEN {[S EXCEPT !.c = [m |-> "end", how |-> "panic", p |-> S.c.p, ln |-> S.c.ln]]}
     ELSE { LET x == NewError(Txt("caught panic: ") \o t, PanicCtx, S.heap)
                f == S.k[i]
            IN [Made(S, x) EXCEPT !.k = SubSeq(S.k, 1, i - 1), !.env = f.env, !.base = f.base, !.self = f.self]
            : t \in PanicText(S.c.p, S.c.ln, S.heap) }

Step(S) == CASE S.c.m = "ev" -> StepEv(S)
             [] S.c.m = "rv" -> IF S.k # <<>> /\ Top(S).k \in {"fn", "catch"} THEN StepFn(S) ELSE StepRv(S)
             [] S.c.m = "fl" -> StepFl(S)
             [] S.c.m = "pan" -> StepPan(S)
             [] OTHER -> {OUTSIDE(S)}       \* Commands and the system: see HushShell.
\* Several steps at once, up to one that may have several outcomes, that prints, or the last.
\* (By halves, because TLC takes time in proportion to the depth of the recursion.)
Burst1(B) == LET T == Step(B.s)
                 U == CHOOSE u \in T : TRUE
             IN IF Cardinality(T) # 1 \/ U.c.m = "end" \/ U.pos # B.s.pos THEN [B EXCEPT !.fin = TRUE, !.t = T]
                ELSE [B EXCEPT !.s = U]
RECURSIVE BurstN(_, _)
BurstN(B, n) == IF B.fin THEN B
                ELSE IF n = 1 THEN Burst1(B)
                ELSE BurstN(BurstN(B, n \div 2), n - (n \div 2))
Steps(S, n) == IF n = 0 THEN Step(S)
               ELSE LET B == BurstN([s |-> S, fin |-> FALSE, t |-> {}], n) IN IF B.fin THEN B.t ELSE {B.s}

Start(i) == [cid |-> i, c |-> [m |-> "ev", n |-> Cases[i].root], env |-> <<>>, base |-> 0, self |-> Nil,
             k |-> <<>>, cells |-> [j \in 1..Cases[i].ns |-> Nil], heap |-> <<>>, pos |-> 1, fuel |-> 0]

-----------------------------------------------------------------------------
(* The end of a program is what was observed: all of the output, the exit     *)
(* status, and the report of the panic that ended it, if any.                 *)
EndOk(S) ==
  LET o == Cases[S.cid]
  IN /\ S.pos = Len(o.out) + 1
     /\ CASE S.c.how = "ok" -> o.code = 0 /\ o.err = <<>>
          [] S.c.how = "exit" -> o.code = S.c.code /\ o.err = <<>>
          [] S.c.how = "panic" -> /\ o.code = 127
                                  /\ \E t \in PanicText(S.c.p, S.c.ln, S.heap) : o.err = t \o <<10>>
=============================================================================
