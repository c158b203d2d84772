------------------------------ MODULE HushParser ------------------------------
(* The grammar and the static rules: tokens to the table of nodes that        *)
(* HushCore evaluates, or a rejection.                                        *)
(*                                                                            *)
(* Parsing is a function from states to states.  A state is a record:         *)
(*   ok     nothing was wrong so far;          t, i   the tokens, the next one; *)
(*   nodes  the nodes made so far;             r      the result of the last  *)
(*                                                    operation;              *)
(*   funs   the functions around, outermost first, each with its scopes       *)
(*          (sets of names, outermost first), the number of its declarations  *)
(*          ns, the names it captures fv, and whether the innermost enclosing *)
(*          construct that counts is a loop.                                  *)
(*   err    the violations of static rules so far, which, other than a        *)
(*          syntax error, does not stop the analysis.                         *)
(* Syntax and static rules are checked in the same pass, since whatever is    *)
(* wrong makes the whole program invalid.                                     *)
EXTENDS HushLexer

StdText == Txt("std")
StdOf == [b \in {Txt(StdNames[i]) : i \in 1..Len(StdNames)} |->
            CHOOSE n \in {StdNames[i] : i \in 1..Len(StdNames)} : Txt(n) = b]

NewFun(names) == [sc |-> <<names>>, ns |-> 0, fv |-> <<>>, loop |-> FALSE]
Parsing(toks, nodes) == [ok |-> TRUE, i |-> 1, t |-> toks, nodes |-> nodes, r |-> 0, err |-> <<>>,
                        funs |-> <<NewFun({StdText})>>]

\* The kind of the next token and of those after it; "bad" when something was wrong already.
KindAt(P, j) == IF ~P.ok THEN "bad" ELSE IF P.i + j > Len(P.t) THEN "eof" ELSE P.t[P.i + j].k
Kind(P) == KindAt(P, 0)
TokAt(P, j) == IF P.i + j > Len(P.t) THEN Tok("eof", <<>>, 0) ELSE P.t[P.i + j]
TokV(P) == TokAt(P, 0).v
Line(P) == TokAt(P, 0).ln
Adv(P, n) == IF P.ok THEN [P EXCEPT !.i = @ + n] ELSE P      \* Stays where something is wrong.
Fail(P) == [P EXCEPT !.ok = FALSE]
\* A static rule: its violations are all reported, each with its line, what it is, and the name it is about.
Breach(ln, what, x) == [ln |-> ln, what |-> what, x |-> x]
Rule(P, b, ln, what, x) == IF b THEN P ELSE [P EXCEPT !.err = Append(@, Breach(ln, what, x))]
Eat(P, k) == IF Kind(P) = k THEN Adv(P, 1) ELSE Fail(P)
Mk(P, nd) == [P EXCEPT !.nodes = Append(@, nd), !.r = Len(P.nodes) + 1]
Res(P, r) == [P EXCEPT !.r = r]

-----------------------------------------------------------------------------
(* Names.                                                                     *)
Last(s) == s[Len(s)]
InFunction(P) == Len(P.funs) > 1
\* Declares a name in the innermost scope, which may not have it yet; the result is its slot.
Declare(P, x, ln) ==
  LET n == Len(P.funs)
      f == P.funs[n]
      m == Len(f.sc)
  IN IF ~P.ok THEN P
     ELSE IF x \in f.sc[m] THEN Res(Rule(P, FALSE, ln, "duplicate variable", x), 1)
     ELSE [P EXCEPT !.funs[n].sc[m] = @ \cup {x}, !.funs[n].ns = @ + 1, !.r = f.ns + 1]
Has(f, x) == \E j \in 1..Len(f.sc) : x \in f.sc[j]
InSeq(x, s) == \E j \in 1..Len(s) : s[j] = x
\* The name std, of the library, and not of a variable that shadows it.
IsLibrary(P, x) == /\ x = StdText
                   /\ \A j \in 2..Len(P.funs) : ~Has(P.funs[j], x)
                   /\ \A j \in 2..Len(P.funs[1].sc) : x \notin P.funs[1].sc[j]
\* The use of a name: the functions between it and its declaration capture it.
Use(P, x, ln) ==
  LET ds == {j \in 1..Len(P.funs) : Has(P.funs[j], x)}
      d == CHOOSE j \in ds : \A l \in ds : l <= j
  IN IF ~P.ok THEN P
     ELSE IF ds = {} THEN Rule(P, FALSE, ln, "undeclared variable", x)
     ELSE IF IsLibrary(P, x) THEN P
     ELSE [P EXCEPT !.funs = TLCEval([j \in 1..Len(P.funs) |->
                                IF j <= d \/ InSeq(x, P.funs[j].fv) THEN P.funs[j]
                                ELSE [P.funs[j] EXCEPT !.fv = Append(@, x)]])]
Enter(P) == [P EXCEPT !.funs[Len(P.funs)].sc = Append(@, {})]
Leave(P) == [P EXCEPT !.funs[Len(P.funs)].sc = SubSeq(@, 1, Len(@) - 1)]
SetLoop(P, b) == [P EXCEPT !.funs[Len(P.funs)].loop = b]
InLoop(P) == Last(P.funs).loop

-----------------------------------------------------------------------------
(* Commands.                                                                  *)
\* The parts of an argument, with adjacent literals joined; empty quotes only matter alone.
RECURSIVE JoinParts(_, _, _)
JoinParts(ps, lit, acc) ==
  LET done == IF lit = <<>> THEN acc ELSE Append(acc, Part("lit", lit, FALSE, 0))
      p == ps[1]
  IN IF ps = <<>> THEN done
     ELSE IF p.t = "lit" THEN JoinParts(Tail(ps), lit \o p.v, acc)
     ELSE IF p.t = "eq" THEN JoinParts(Tail(ps), Append(lit, 61), acc)
     ELSE JoinParts(Tail(ps), <<>>, Append(done, p))
ArgOf(ps, ln) ==
  LET js == JoinParts(ps, <<>>, <<>>)
      quoted == \E j \in 1..Len(ps) : ps[j].q
  IN [ln |-> ln, parts |-> IF js = <<>> /\ quoted THEN <<Part("lit", <<>>, TRUE, ln)>> ELSE js]
RECURSIVE UseParts(_, _, _)
UseParts(P, ps, j) == IF j > Len(ps) THEN P
                      ELSE UseParts(IF ps[j].t = "var" THEN Use(P, ps[j].v, ps[j].ln) ELSE P, ps, j + 1)
RECURSIVE UseArgs(_, _, _)
UseArgs(P, as, j) == IF j > Len(as) THEN P ELSE UseArgs(UseParts(P, as[j].parts, 1), as, j + 1)
\* A variable of the environment: its value is of no account if its name is at fault.
RECURSIVE UseEnv(_, _, _)
UseEnv(P, es, j) == IF j > Len(es) THEN P
                    ELSE LET K == UseParts(P, <<es[j].key>>, 1)
                         IN UseEnv(IF Len(K.err) > Len(P.err) THEN K ELSE UseParts(K, es[j].val.parts, 1), es, j + 1)

IsEnvAssign(ps) == Len(ps) >= 2 /\ ps[1].t \in {"lit", "var"} /\ ~ps[1].q /\ ps[2].t = "eq"
RedirOps == {"c>", "c>>", "c<", "c<<"}
\* The number of a file descriptor that an argument stands for, or -1.
FdOf(ps) ==
  LET v == ps[1].v
      d == IF v # <<>> /\ v[1] = 43 THEN Tail(v) ELSE v
      b == FromDigits(d, <<0>>)
  IN IF Len(ps) # 1 \/ ps[1].t # "lit" \/ ps[1].q \/ d = <<>> \/ ~AllDigits(d) THEN -1
     ELSE IF BCmp(b, BI(255)) > 0 THEN -1 ELSE Small(b)
FdHere(P) == IF Kind(P) = "arg" THEN FdOf(TokV(P)) ELSE -1
IsNumber(ps) == Len(ps) = 1 /\ ps[1].t = "lit" /\ ~ps[1].q /\ AllDigits(ps[1].v)
ArgHere(P) == IF Kind(P) = "arg" THEN Res(Adv(P, 1), ArgOf(TokV(P), Line(P))) ELSE Fail(P)

RECURSIVE EnvAssigns(_, _), Arguments(_, _), Redirections(_, _), Pipeline(_, _), Pipelines(_, _)
EnvAssigns(P, acc) ==
  IF Kind(P) = "arg" /\ IsEnvAssign(TokV(P))
  THEN LET ps == TokV(P)
       IN EnvAssigns(Adv(P, 1), Append(acc, [key |-> ps[1], val |-> ArgOf(SubSeq(ps, 3, Len(ps)), Line(P))]))
  ELSE Res(P, acc)
Arguments(P, acc) ==
  IF Kind(P) = "arg" /\ ~(IsNumber(TokV(P)) /\ KindAt(P, 1) \in RedirOps)
  THEN Arguments(Adv(P, 1), Append(acc, ArgOf(TokV(P), Line(P))))
  ELSE Res(P, acc)
Redirections(P, acc) ==
  LET k == Kind(P)
      fd == FdHere(P)
      Q == IF fd >= 0 THEN Adv(P, 1) ELSE P      \* At the operator.
      from == IF fd >= 0 THEN fd ELSE 1
      to == FdHere(Adv(Q, 1))
      A == ArgHere(Adv(Q, 1))
  IN CASE k \in {"c|", "c;", "}", "bad", "eof", "c?"} -> Res(P, acc)
       [] k \in {"c<", "c<<"} -> Redirections(A, Append(acc, [t |-> "in", lit |-> k = "c<<", a |-> A.r]))
       [] Kind(Q) = "c>>" -> Redirections(A, Append(acc, [t |-> "out", fd |-> from, to |-> "append", a |-> A.r]))
       [] Kind(Q) = "c>" -> IF to >= 0
                            THEN Redirections(Adv(Q, 2), Append(acc, [t |-> "out", fd |-> from, to |-> "fd", n |-> to]))
                            ELSE Redirections(A, Append(acc, [t |-> "out", fd |-> from, to |-> "write", a |-> A.r]))
       [] OTHER -> Fail(P)
BasicCommand(P) ==
  LET E == EnvAssigns(P, <<>>)
      G == ArgHere(E)
      A == Arguments(G, <<>>)
      R == Redirections(A, <<>>)
      try == Kind(R) = "c?"
  IN Res(IF try THEN Adv(R, 1) ELSE R,
         [env |-> E.r, prog |-> G.r, args |-> A.r, rd |-> R.r, ab |-> ~try, ln |-> Line(E)])
Pipeline(P, acc) ==
  LET B == BasicCommand(P)
      bs == Append(acc, B.r)
  IN IF Kind(B) = "c|" THEN Pipeline(Adv(B, 1), bs) ELSE Res(B, bs)

Builtins == {"alias", "cd", "exec", "exec0", "spawn0"}
BuiltinOf(st) == IF Len(st.prog.parts) = 1 /\ st.prog.parts[1].t = "lit" /\ st.prog.parts[1].v \in {Txt(b) : b \in Builtins}
                 THEN CHOOSE b \in Builtins : Txt(b) = st.prog.parts[1].v ELSE ""
RdArgs(rd) == SelectSeq(rd, LAMBDA x : x.t = "in" \/ x.to # "fd")
Misplaced(P, s) == Rule(P, FALSE, s.ln, "use of built-in command in async context", <<>>)
RECURSIVE UseStages(_, _, _)
UseStages(P, sts, j) ==
  IF j > Len(sts) THEN P
  ELSE LET s == sts[j]
           Used == UseArgs(UseEnv(UseArgs(P, <<s.prog>>, 1), s.env, 1),
                           s.args \o [e \in 1..Len(RdArgs(s.rd)) |-> RdArgs(s.rd)[e].a], 1)
       IN UseStages(IF BuiltinOf(s) = "" THEN Used ELSE Misplaced(P, s), sts, j + 1)
\* A builtin runs in the shell itself: alone, without redirections, in a block that waits for it.
UsePipeline(P, sts, kind) ==
  IF ~P.ok THEN P
  ELSE IF BuiltinOf(sts[1]) = "" THEN UseStages(P, sts, 1)
  ELSE IF kind = "{" /\ Len(sts) = 1 /\ sts[1].rd = <<>> THEN UseArgs(P, sts[1].args, 1)
  ELSE Misplaced(P, sts[1])
\* The pipelines of a block, whose kind is P.r; there is at least one.
Pipelines(P, kind) ==
  LET RECURSIVE Go(_, _)
      Go(Q, acc) == LET L == Pipeline(Q, <<>>)
                        U == UsePipeline(L, L.r, kind)
                        ls == Append(acc, [bi |-> IF L.ok THEN BuiltinOf(L.r[1]) ELSE "", st |-> L.r])
                    IN IF Kind(U) # "c;" THEN Res(U, ls)
                       ELSE IF KindAt(U, 1) = "}" THEN Res(Adv(U, 1), ls) ELSE Go(Adv(U, 1), ls)
  IN Go(P, <<>>)
CommandBlock(P) ==
  LET L == Pipelines(Adv(P, 1), Kind(P))
  IN Mk(Eat(L, "}"), [k |-> "cmd", b |-> Kind(P), cmds |-> L.r, ln |-> Line(P)])

-----------------------------------------------------------------------------
(* Expressions.  Operators by increasing precedence, all left associative.    *)
Levels == << {"or"}, {"and"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"++"}, {"+", "-"}, {"*", "/", "%"} >>
Terminators == {"end", "else", "elseif"}
RECURSIVE Binary(_, _), BinaryRest(_, _), Prefix(_), Postfix(_, _), Primary(_), ExprList(_, _, _), Entries(_, _, _),
          IfRest(_, _), Names(_, _), Stmts(_), Stmt(_), StmtN(_, _)
Expr(P) == Binary(P, 1)
Binary(P, lv) == IF lv > Len(Levels) THEN Prefix(P) ELSE BinaryRest(Binary(P, lv + 1), lv)
BinaryRest(P, lv) ==
  LET op == Kind(P)
      Q == Binary(Adv(P, 1), lv + 1)
  IN IF op \in Levels[lv]
     THEN BinaryRest(Mk(Q, [k |-> IF lv <= 2 THEN "sc" ELSE "bin", op |-> op, a |-> P.r, b |-> Q.r, ln |-> Line(P)]), lv)
     ELSE P
Prefix(P) ==
  IF Kind(P) \in {"not", "-"}
  THEN LET Q == Prefix(Adv(P, 1)) IN Mk(Q, [k |-> "un", op |-> Kind(P), a |-> Q.r, ln |-> Line(P)])
  ELSE Postfix(Primary(P), Len(P.err))
\* n violations were there before the operand, which hides a misplaced ? if it has any itself.
Postfix(P, n) ==
  LET ln == Line(P)
      A == ExprList(Adv(P, 1), ")", <<>>)
      I == Expr(Adv(P, 1))
      F == Mk(Eat(Adv(P, 1), "id"), [k |-> "lit", v |-> Str(TokAt(P, 1).v), ln |-> TokAt(P, 1).ln])
  IN CASE Kind(P) = "(" -> Postfix(Mk(Eat(A, ")"), [k |-> "call", f |-> P.r, args |-> A.r, ln |-> ln]), n)
       [] Kind(P) = "[" -> Postfix(Mk(Eat(I, "]"), [k |-> "acc", o |-> P.r, f |-> I.r, ln |-> ln]), n)
       [] Kind(P) = "." -> Postfix(Mk(F, [k |-> "acc", o |-> P.r, f |-> F.r, ln |-> ln]), n)
       [] Kind(P) = "?" -> Postfix(Mk(Rule(Adv(P, 1), InFunction(P) \/ Len(P.err) > n, ln, "try operator outside function", <<>>),
                                      [k |-> "un", op |-> "?", a |-> P.r, ln |-> ln]), n)
       [] OTHER -> P
\* Expressions with commas between them, and perhaps after the last one.
ExprList(P, close, acc) ==
  IF Kind(P) = close THEN Res(P, acc)
  ELSE LET E == Expr(P)
       IN IF Kind(E) = "," THEN ExprList(Adv(E, 1), close, Append(acc, E.r)) ELSE Res(E, Append(acc, E.r))
Entries(P, keys, acc) ==
  IF Kind(P) = "]" THEN Res(P, <<keys, acc>>)
  ELSE LET E == Expr(Eat(Rule(Eat(P, "id"), Kind(P) = "id" => ~InSeq(TokV(P), keys), Line(P), "duplicate key", TokV(P)), ":"))
           ks == Append(keys, TokV(P))
       IN IF Kind(E) = "," THEN Entries(Adv(E, 1), ks, Append(acc, E.r)) ELSE Res(E, <<ks, Append(acc, E.r)>>)
Names(P, acc) ==
  IF Kind(P) = ")" THEN Res(P, acc)
  ELSE LET D == Declare(Eat(P, "id"), TokV(P), Line(P))
       IN IF Kind(D) = "," THEN Names(Adv(D, 1), Append(acc, TokV(P))) ELSE Res(D, Append(acc, TokV(P)))
Block(P) == LET B == Stmts(P) IN Mk(B, [k |-> "blk", items |-> B.r, ln |-> Line(P)])
ScopedBlock(P) == Leave(Block(Enter(P)))
\* From the parentheses of a function on.
Function(P, ln) ==
  LET N == Names(Eat([P EXCEPT !.funs = Append(@, NewFun({}))], "("), <<>>)
      B == Block(Eat(N, ")"))
      f == Last(B.funs)
      Q == [Eat(B, "end") EXCEPT !.funs = SubSeq(@, 1, Len(@) - 1)]
  IN Mk(Q, [k |-> "fun", params |-> N.r, body |-> B.r, fv |-> f.fv, ns |-> f.ns, ln |-> ln])
\* From the condition of an if on, up to its end.
IfRest(P, ln) ==
  LET C == Expr(P)
      T == ScopedBlock(Eat(C, "then"))
      ln2 == Line(T)
      I == IfRest(Adv(T, 1), ln2)
      X == Mk(I, [k |-> "expr", e |-> I.r, ln |-> ln2])
      E == CASE Kind(T) = "elseif" -> Mk(X, [k |-> "blk", items |-> <<X.r>>, ln |-> ln2])
             [] Kind(T) = "else" -> ScopedBlock(Adv(T, 1))
             [] OTHER -> Res(T, 0)
  IN Mk(E, [k |-> "if", c |-> C.r, th |-> T.r, el |-> E.r, ln |-> ln])
Primary(P) ==
  LET k == Kind(P)
      ln == Line(P)
      A == ExprList(Adv(P, 1), "]", <<>>)
      D == Entries(Adv(P, 1), <<>>, <<>>)
      I == IfRest(Adv(P, 1), ln)
      lib == k = "id" /\ IsLibrary(P, TokV(P))
  IN CASE k = "id" ->
            IF lib /\ KindAt(P, 1) = "." /\ KindAt(P, 2) = "id" /\ KindAt(P, 3) = "." /\ KindAt(P, 4) = "id"
               /\ (TokAt(P, 2).v \o <<46>> \o TokAt(P, 4).v) \in DOMAIN StdOf
            THEN Mk(Adv(P, 5), [k |-> "std", f |-> StdOf[TokAt(P, 2).v \o <<46>> \o TokAt(P, 4).v], ln |-> TokAt(P, 3).ln])
            ELSE IF lib /\ KindAt(P, 1) = "." /\ KindAt(P, 2) = "id" /\ TokAt(P, 2).v \in DOMAIN StdOf
            THEN Mk(Adv(P, 3), [k |-> "std", f |-> StdOf[TokAt(P, 2).v], ln |-> TokAt(P, 1).ln])
            ELSE IF lib THEN Mk(Adv(P, 1), [k |-> "lib", ln |-> ln])
            ELSE Mk(Use(Adv(P, 1), TokV(P), ln), [k |-> "id", name |-> TokV(P), ln |-> ln])
       [] k = "self" -> Mk(Rule(Adv(P, 1), InFunction(P), ln, "self keyword outside function", <<>>), [k |-> "self", ln |-> ln])
       [] k = "lit" -> Mk(Adv(P, 1), [k |-> "lit", v |-> TokV(P), ln |-> ln])
       [] k = "[" -> Mk(Eat(A, "]"), [k |-> "arr", items |-> A.r, ln |-> ln])
       [] k = "@[" -> Mk(Eat(D, "]"), [k |-> "dict", keys |-> D.r[1], items |-> D.r[2], ln |-> ln])
       [] k = "function" -> Function(Adv(P, 1), ln)
       [] k \in {"{", "${", "&{"} -> CommandBlock(P)
       [] k = "if" -> Eat(I, "end")
       [] k = "(" -> Eat(Expr(Adv(P, 1)), ")")
       [] OTHER -> Fail(P)

-----------------------------------------------------------------------------
(* Statements.                                                                *)
StmtStep(B) ==     \* B: [p |-> parsing, v |-> the statements, fin |-> there are no more].
  LET Q == Stmt(B.p)
      \* A return ends a block, other than the program itself, where it's not allowed anyway.
      Outermost(P) == Len(P.funs) = 1 /\ Len(P.funs[1].sc) = 1
  IN IF Kind(B.p) \in Terminators \cup {"eof", "bad"} THEN [B EXCEPT !.fin = TRUE]
     ELSE [p |-> Q, v |-> Append(B.v, Q.r), fin |-> Kind(B.p) = "return" /\ ~Outermost(B.p)]
StmtN(B, n) == IF B.fin THEN B
               ELSE IF n = 1 THEN StmtStep(B)
               ELSE StmtN(StmtN(B, n \div 2), n - (n \div 2))
Stmts(P) == LET B == StmtN([p |-> P, v |-> <<>>, fin |-> ~P.ok], Len(P.t) + 2) IN Res(B.p, B.v)
\* A loop: around what its condition or iterator was, inside of which this is.
LoopBlock(P) == LET B == Block(SetLoop(P, TRUE)) IN SetLoop(Leave(B), InLoop(P))
Stmt(P) ==
  LET k == Kind(P)
      ln == Line(P)
      x == TokAt(P, 1).v
      xl == TokAt(P, 1).ln
      D == Declare(Eat(Adv(P, 1), "id"), x, xl)
      NilHere(Q) == Mk(Q, [k |-> "lit", v |-> Nil, ln |-> xl])
  IN CASE k = "let" ->
            LET E == IF Kind(D) = "=" THEN Expr(Adv(D, 1)) ELSE NilHere(D)
            IN Mk(E, [k |-> "let", name |-> x, sl |-> D.r, e |-> E.r, ln |-> xl])
       [] k = "function" /\ KindAt(P, 1) = "id" ->
            LET F == Function(D, ln)
            IN Mk(F, [k |-> "let", name |-> x, sl |-> D.r, e |-> F.r, ln |-> xl])
       [] k = "return" ->
            LET Q == Rule(Adv(P, 1), InFunction(P), ln, "return statement outside function", <<>>)
                E == IF Kind(Q) \in Terminators THEN NilHere(Q) ELSE Expr(Q)
            IN Mk(E, [k |-> "ret", e |-> E.r, ln |-> ln])
       [] k = "break" -> Mk(Rule(Adv(P, 1), InLoop(P), ln, "break statement outside loop", <<>>), [k |-> "brk", ln |-> ln])
       [] k = "while" ->
            LET C == Expr(Adv(P, 1))
                B == LoopBlock(Enter(Eat(C, "do")))
            IN Mk(Eat(B, "end"), [k |-> "while", c |-> C.r, b |-> B.r, ln |-> ln])
       [] k = "for" ->
            LET E == Expr(Eat(Eat(Adv(P, 1), "id"), "in"))
                V == Declare(Enter(Eat(E, "do")), x, xl)
                B == LoopBlock(V)
            IN Mk(Eat(B, "end"), [k |-> "for", name |-> x, sl |-> V.r, e |-> E.r, b |-> B.r, ln |-> ln])
       [] OTHER ->
            LET E == Expr(P)
                t == IF E.ok THEN E.nodes[E.r] ELSE [k |-> "bad"]
                R == Expr(Adv(E, 1))
            IN IF Kind(E) # "=" THEN Mk(E, [k |-> "expr", e |-> E.r, ln |-> ln])
               ELSE CASE t.k = "id" -> Mk(R, [k |-> "asg", name |-> t.name, o |-> 0, f |-> 0, e |-> R.r, ln |-> Line(E)])
                      [] t.k = "acc" -> Mk(R, [k |-> "asg", o |-> t.o, f |-> t.f, e |-> R.r, ln |-> t.ln])
                      [] t.k = "std" -> Mk(R, [k |-> "lib", ln |-> ln])
                      [] t.k = "lib" -> Mk(R, [k |-> "lib", ln |-> ln])
                      [] OTHER ->      \* What is on the left is of no account.
                           Mk([R EXCEPT !.err = P.err \o <<Breach(Line(E), "invalid assignment", <<>>)>> \o SubSeq(@, Len(E.err) + 1, Len(@))],
                              [k |-> "lib", ln |-> ln])

Moved(t, off) == [t EXCEPT !.ln = @ + off,
                           !.v = IF t.k = "arg" THEN [j \in 1..Len(t.v) |-> [t.v[j] EXCEPT !.ln = @ + off]] ELSE @]
\* A whole program, whose nodes are added to those given; its lines are counted from off.
ParseFrom(src, nodes, off) ==
  LET l == Lex(src)
      toks == IF off = 0 THEN l.v ELSE [j \in 1..Len(l.v) |-> Moved(l.v[j], off)]
      B == Block(Parsing(toks, nodes))
  IN IF ~l.ok \/ Kind(B) # "eof"
     THEN [ok |-> FALSE, nodes |-> nodes,      \* The first token that is wrong, if it's not for the lexer that it is.
           err |-> IF B.i <= Len(toks) THEN <<Breach(toks[B.i].ln, "syntax", <<>>)>> ELSE <<>>]
     ELSE IF B.err # <<>> THEN [ok |-> FALSE, nodes |-> nodes, err |-> B.err]
     ELSE [ok |-> TRUE, nodes |-> B.nodes, root |-> B.r, ns |-> B.funs[1].ns]
Parse(src, nodes) == ParseFrom(src, nodes, 0)
=============================================================================