----------------------------- MODULE HushShell -----------------------------
(* Programs that run commands.  The state of HushCore is extended with        *)
(*   epos   the position in the error output, which is matched like out;      *)
(*   x      the state of the system (see HushSys).                            *)
(* Besides the program itself, everything that runs takes steps of its own,   *)
(* in any order:                                                              *)
(*  - a block of commands (x.blks) starts the commands of a pipeline, the     *)
(*    last one first, waits until all of them are over, and goes on with the  *)
(*    next pipeline;                                                          *)
(*  - a process (x.procs) does the operations that its arguments tell.        *)
(* Pipes have no bound here; see HushPipes for what their bounds may cause.   *)
EXTENDS HushSys

ErrOut(S) == Cases[S.cid].err

-----------------------------------------------------------------------------
(* Processes.                                                                 *)
Live(p) == p.st = -1
\* The blocks that hold the writer of a pipe, until the command that it is for starts.
HasWriter(x, o) == \/ \E i \in 1..Len(x.procs) : Live(x.procs[i]) /\ (x.procs[i].out = o \/ x.procs[i].err = o)
                   \/ \E b \in 1..Len(x.blks) : x.blks[b].ph = "start" /\ x.blks[b].nxt = o
HasReader(x, o) == \/ \E i \in 1..Len(x.procs) : Live(x.procs[i]) /\ x.procs[i].in = o
                   \/ \E b \in 1..Len(x.blks) : x.blks[b].kind = "${" /\ x.blks[b].ph # "gone" /\ o \in {x.blks[b].o, x.blks[b].e}
Exited(S, i, n) == [S EXCEPT !.x.procs[i].st = n, !.x.procs[i].ops = <<>>]
SigPipe == 13
SigBase == 255
\* Writing.  The results are states, none if that's not what was observed.
PutFile(c, off, b) ==
  LET pad == IF off > Len(c) THEN [i \in 1..(off - Len(c)) |-> 0] ELSE <<>>
      d == c \o pad
  IN SubSeq(d, 1, off) \o b \o SubSeq(d, off + Len(b) + 1, Len(d))
Wrote(S, i, o, b) ==
  LET d == S.x.ofd[o]
      f == S.x.fs[d.p]
      at == IF d.app THEN Len(f.c) ELSE d.off
  IN IF b = <<>> THEN {S}
     ELSE CASE d.t = "o" -> {[S EXCEPT !.pos = q] : q \in At(Out(S), b, S.pos)}
            [] d.t = "e" -> {[S EXCEPT !.epos = q] : q \in At(ErrOut(S), b, S.epos)}
            [] d.t = "p" -> IF HasReader(S.x, o) THEN {[S EXCEPT !.x.ofd[o].b = @ \o b]}
                            ELSE {Exited(S, i, SigBase + SigPipe)}
            [] d.t = "f" -> {[S EXCEPT !.x.fs[d.p].c = PutFile(@, at, b), !.x.ofd[o].off = at + Len(b)]}
            [] OTHER -> {OUTSIDE(S)}
\* What can be read until the end: a sequence with it, or nothing when it isn't known yet.
Rest(x, o) ==
  LET d == x.ofd[o]
  IN CASE d.t = "p" -> IF HasWriter(x, o) THEN <<>> ELSE <<d.b>>
       [] d.t = "i" -> <<x.sin>>
       [] d.t = "f" -> <<SubSeq(x.fs[d.p].c, d.off + 1, Len(x.fs[d.p].c))>>
\* The first n bytes, or less if that's all.
First(x, o, n) ==
  LET d == x.ofd[o]
      r == Rest(x, o)
  IN IF d.t = "p" /\ Len(d.b) >= n THEN <<SubSeq(d.b, 1, n)>>
     ELSE IF r = <<>> THEN <<>> ELSE <<SubSeq(r[1], 1, IF n < Len(r[1]) THEN n ELSE Len(r[1]))>>
Took(x, o, n) ==
  LET d == x.ofd[o]
  IN CASE d.t = "p" -> [x EXCEPT !.ofd[o].b = SubSeq(@, n + 1, Len(@))]
       [] d.t = "i" -> [x EXCEPT !.sin = SubSeq(@, n + 1, Len(@)), !.used = TRUE]
       [] d.t = "f" -> [x EXCEPT !.ofd[o].off = @ + n]

\* Operations that take a step of their own for what they wrote.
Write1 == 1001
NumOf(s) == IF s # <<>> /\ AllDigits(s) THEN Small(FromDigits(s, <<0>>)) ELSE 0
\* The checksum of the bytes from i to j, and 31 to the number of them.
RECURSIVE SumOf(_, _, _)
SumOf(b, i, j) ==
  IF i > j THEN [s |-> 0, p |-> 1]
  ELSE IF i = j THEN [s |-> b[i], p |-> 31]
  ELSE LET m == (i + j) \div 2
           l == TLCEval(SumOf(b, i, m))
           r == TLCEval(SumOf(b, m + 1, j))
       IN [s |-> (l.s * r.p + r.s) % 32749, p |-> (l.p * r.p) % 32749]
Checksum(b) == SumOf(b, 1, Len(b)).s
RECURSIVE ShowArgs(_)
ShowArgs(as) == IF as = <<>> THEN <<10>>
                ELSE <<91>> \o BText(BI(Len(as[1]))) \o <<58>> \o as[1] \o <<93>> \o ShowArgs(Tail(as))
VarText(env, k) == IF k \in DOMAIN env THEN k \o <<61>> \o env[k] \o <<10>> ELSE k \o <<10>>
ProcStep(S, i) ==
  LET p == S.x.procs[i]
      op == p.ops[1]
      s == SubSeq(op, 3, Len(op))
      c == IF op = <<>> THEN 0 ELSE op[1]
      N == [S EXCEPT !.x.procs[i].ops = Tail(@)]
      Out1(b) == Wrote(N, i, p.out, b)
      colon == FindFrom(s, <<58>>, 1)
      fillN == NumOf(SubSeq(s, 1, IF colon = 0 THEN Len(s) ELSE colon - 1))
      fill == TLCEval([j \in 1..fillN |-> IF colon = 0 \/ colon = Len(s) THEN 0 ELSE s[colon + 1]])
      in == S.x.ofd[p.in]
      rest == Rest(S.x, p.in)
      some == First(S.x, p.in, NumOf(s))
      \* Reads n bytes, and then writes b.
      Then(n, b) == {[[S EXCEPT !.x = Took(S.x, p.in, n)] EXCEPT !.x.procs[i].ops = <<<<Write1>> \o b>> \o Tail(p.ops)]}
      new == LookupNewFrom(S.x, p.cwd, s)
      old == LookupFrom(S.x, p.cwd, s)
  IN IF ~Live(p) THEN {}
     ELSE IF p.ops = <<>> THEN {Exited(S, i, 0)}
     ELSE IF c \in {105, 112, 73, 104, 114} /\ in.t = "d" THEN {Exited(S, i, 97)}         \* Reading a folder.
     ELSE IF c \in {105, 112, 73, 104, 114} /\ in.t = "i" /\ S.x.rbuf # <<>> THEN {OUTSIDE(S)}
     ELSE CASE c = Write1 -> Wrote(N, i, p.out, SubSeq(op, 2, Len(op)))
            [] c = 111 -> Out1(s)                                       \* o
            [] c = 101 -> Wrote(N, i, p.err, s)                         \* e
            [] c = 110 -> Out1(fill)                                    \* n
            [] c = 78 -> Wrote(N, i, p.err, fill)                       \* N
            [] c = 105 -> IF rest = <<>> THEN {} ELSE Then(Len(rest[1]), rest[1])             \* i
            [] c = 112 -> IF rest = <<>> THEN {} ELSE Then(Len(rest[1]), s \o rest[1])        \* p
            [] c = 73 -> IF rest = <<>> THEN {} ELSE Then(Len(rest[1]), <<>>)                 \* I
            [] c = 104 -> IF rest = <<>> THEN {}                                              \* h
                          ELSE Then(Len(rest[1]), BText(BI(Len(rest[1]))) \o <<58>> \o BText(BI(Checksum(rest[1]))) \o <<10>>)
            [] c = 114 -> IF some = <<>> THEN {} ELSE Then(Len(some[1]), some[1])             \* r
            [] c = 120 -> {Exited(S, i, NumOf(s) % 256)}                                      \* x
            [] c = 107 -> {Exited(S, i, SigBase + NumOf(s))}                                  \* k
            [] c = 97 -> {[T EXCEPT !.x.procs[i].ops = <<>>] : T \in Out1(ShowArgs(Tail(p.ops)))}    \* a
            [] c = 118 -> Out1(VarText(p.env, s))                                             \* v
            [] c = 100 -> Out1(FullText(S.x, p.cwd) \o <<10>>)                                \* d
            [] c = 48 -> Out1(p.a0 \o <<10>>)                                                 \* 0
            [] c = 116 -> IF new.e = "OUT" THEN {OUTSIDE(S)}                                  \* t
                          ELSE IF new.e # "" THEN {Exited(S, i, 96)}
                          ELSE IF Exists(S.x, new.p) THEN {N}
                          ELSE {[N EXCEPT !.x.fs = (new.p :> [t |-> "f", c |-> <<>>]) @@ @]}
            [] c = 103 -> IF old.e = "" /\ Exists(S.x, old.p) THEN {N} ELSE {}                \* g
            [] c = 119 -> {N}                                                                 \* w
            [] c = 99 -> {OUTSIDE(S)}                                                         \* c
            [] OTHER -> {Exited(S, i, 95)}

-----------------------------------------------------------------------------
(* Blocks.  [kind, cmds, i |-> the current pipeline, j |-> the stage to start *)
(* next, s |-> how far that is, ph |-> phase, pids |-> stages to processes,   *)
(* nxt |-> where its output goes, o, e |-> outputs of the block, errs |-> the errors of each pipeline  *)
(* that failed, res |-> result].                                              *)
Block1(x, kind, cmds) ==
  LET k == Len(x.ofd)
      o == IF kind = "${" THEN k + 1 ELSE 1
      e == IF kind = "${" THEN k + 2 ELSE 2
      y == IF kind = "${" THEN NewOfd(NewOfd(x, Ofd("p", <<>>, <<>>, FALSE)), Ofd("p", <<>>, <<>>, FALSE)) ELSE x
  IN [y EXCEPT !.blks = Append(@, [kind |-> kind, cmds |-> cmds, i |-> 1, j |-> Len(cmds[1].st), ph |-> "start", pids |-> <<>>, s |-> <<>>,
                                   nxt |-> o, o |-> o, e |-> e, errs |-> <<>>, res |-> Ok(<<>>), joined |-> FALSE])]
Status(d, s, ln) == [d |-> d, s |-> s, ln |-> ln]
NonZero == Txt("command returned non-zero")
\* The statuses of the stages that failed, in order.
RECURSIVE Failed(_, _, _)
Failed(x, b, j) == IF j > Len(b.pids) THEN <<>>
                   ELSE LET s == x.procs[b.pids[j]].st
                        IN (IF s = 0 THEN <<>> ELSE <<Status(NonZero, s, b.cmds[b.i].st[j].ln)>>) \o Failed(x, b, j + 1)
Aborts(x, b) == \E j \in 1..Len(b.pids) : x.procs[b.pids[j]].st # 0 /\ b.cmds[b.i].st[j].ab
\* The pipeline is over: errors, and what's next.
Onward(S, n, errs, abort) ==
  LET b == S.x.blks[n]
      es == IF errs = <<>> THEN b.errs ELSE Append(b.errs, errs)
  IN IF abort \/ b.i = Len(b.cmds) THEN [S EXCEPT !.x.blks[n].errs = es, !.x.blks[n].ph = "done"]
     ELSE [S EXCEPT !.x.blks[n] = [b EXCEPT !.errs = es, !.i = b.i + 1, !.j = Len(b.cmds[b.i + 1].st), !.ph = "start",
                                            !.pids = <<>>, !.s = <<>>, !.nxt = b.o]]
\* Something could not be started: the block is over, as soon as what was started is.
Broken(S, n, y, r) == IF r.r = "out" THEN OUTSIDE(S)
                      ELSE [S EXCEPT !.x = y, !.x.blks[n].ph = "drain", !.x.blks[n].res = r]
\* Starts one stage.  All but the first one read from a pipe, that the one before writes to.
\* b.s: <<>>, or [g |-> what was resolved, R |-> its files, k |-> the number of redirections done].
BeginStage(S, n) ==
  LET b == S.x.blks[n]
      c == b.cmds[b.i]
      y == IF b.j = 1 THEN S.x ELSE NewOfd(S.x, Ofd("p", <<>>, <<>>, FALSE))
      in == IF b.j = 1 THEN 3 ELSE Len(y.ofd)
      g == ResolvedStage(S.x, c.st[b.j])
  IN IF g.r # "ok" THEN Broken(S, n, S.x, g)
     ELSE [S EXCEPT !.x = [y EXCEPT !.blks[n].s = <<[g |-> g.v, p |-> in, R |-> [in |-> in, out |-> b.nxt, err |-> IF b.j = Len(c.st) THEN b.e ELSE 2], k |-> 0]>>]]
OpenNext(S, n) ==
  LET b == S.x.blks[n]
      q == b.s[1]
      st1 == b.cmds[b.i].st[b.j]
      R == Redirect([x |-> S.x, in |-> q.R.in, out |-> q.R.out, err |-> q.R.err, r |-> Ok(<<>>)], st1.rd[q.k + 1], st1.ln)
  IN IF R.r.r # "ok" THEN Broken(S, n, R.x, R.r)
     ELSE [S EXCEPT !.x = [R.x EXCEPT !.blks[n].s = <<[q EXCEPT !.R = [in |-> R.in, out |-> R.out, err |-> R.err], !.k = @ + 1]>>]]
Create(S, n) ==
  LET b == S.x.blks[n]
      q == b.s[1]
      C == Created(S.x, q.g, q.R, b.cmds[b.i].st[b.j].ln)
      z == C.x
  IN IF C.r.r # "ok" THEN Broken(S, n, z, C.r)
     ELSE [S EXCEPT !.x = [z EXCEPT !.blks[n].pids = <<Len(z.procs)>> \o @, !.blks[n].j = b.j - 1, !.blks[n].s = <<>>,
                                    !.blks[n].nxt = q.p, !.blks[n].ph = IF b.j = 1 THEN "wait" ELSE "start"]]
NoPatterns(its) == \A i \in 1..Len(its) : ~its[i].p
\* Starting this command depends on no file.
Plain(st1) == /\ ~st1.prog.p /\ FindFrom(st1.prog.u, Slash, 1) = 0
              /\ NoPatterns(st1.args)
              /\ \A i \in 1..Len(st1.env) : ~st1.env[i].v.p
              /\ \A i \in 1..Len(st1.rd) : st1.rd[i].t = "fd" \/ (st1.rd[i].t = "lit" /\ ~st1.rd[i].a.p)
RECURSIVE StartSteps(_, _)
StartSteps(S, n) ==
  LET b == S.x.blks[n]
  IN IF S.c.m = "end" \/ b.ph # "start" \/ b.s = <<>> THEN S
     ELSE IF b.s[1].k < Len(b.cmds[b.i].st[b.j].rd) THEN StartSteps(OpenNext(S, n), n)
     ELSE Create(S, n)
StartStage(S, n) ==
  LET b == S.x.blks[n]
      T == BeginStage(S, n)
  IN IF b.s = <<>> THEN IF Plain(b.cmds[b.i].st[b.j]) THEN StartSteps(T, n) ELSE T
     ELSE IF b.s[1].k < Len(b.cmds[b.i].st[b.j].rd) THEN OpenNext(S, n)
     ELSE Create(S, n)
\* The commands that the shell itself does.
ArgErr(what, n) == ItemsErr(what, n)
StartBuiltin(S, n) ==
  LET x == S.x
      b == x.blks[n]
      c == b.cmds[b.i]
      s == c.st[1]
      a == ResolvedAll(x, s.args, s.ln, <<>>)
      arg0 == c.bi \in {"exec0", "spawn0"}
      dir == LookupOld(x, a.v[1])
      w == Program(x, a.v[1])
      args == IF arg0 THEN SubSeq(a.v, 3, Len(a.v)) ELSE Tail(a.v)
      y == [x EXCEPT !.procs = Append(@, Process(args, 3, 1, 2, x.env, x.cwd, IF arg0 THEN a.v[2] ELSE a.v[1]))]
  IN IF a.r # "ok" THEN Broken(S, n, x, a)
     ELSE IF a.v = <<>> THEN Broken(S, n, x, PanAt(ArgErr("argument", 0), s.ln))
     ELSE IF c.bi = "cd"
     THEN IF Len(a.v) > 1 THEN Broken(S, n, x, PanAt(ArgErr("argument", Len(a.v)), s.ln))
          ELSE IF HasNul(a.v[1]) THEN Broken(S, n, x, IoFail("PATHNUL", s.ln))
          ELSE IF dir.e # "" THEN Broken(S, n, x, IoFail(dir.e, s.ln))
          ELSE IF ~IsDir(x, dir.p) THEN Broken(S, n, x, IoFail("ENOTDIR", s.ln))
          ELSE Onward([S EXCEPT !.x.cwd = dir.p], n, <<>>, FALSE)
     ELSE IF c.bi = "alias" THEN OUTSIDE(S)
     ELSE IF arg0 /\ Len(a.v) = 1 THEN Broken(S, n, x, PanAt(ArgErr("arg0", 0), s.ln))
     ELSE IF \E i \in 1..Len(a.v) : HasNul(a.v[i]) THEN Broken(S, n, x, IoFail("ARGNUL", s.ln))
     ELSE IF w # "" THEN Broken(S, n, x, IoFail(w, s.ln))
     ELSE IF c.bi = "spawn0" THEN [S EXCEPT !.x = [y EXCEPT !.blks[n].pids = <<Len(y.procs)>>, !.blks[n].ph = "wait"]]
     ELSE [S EXCEPT !.x = y, !.c = [m |-> "end", how |-> "exec", pid |-> Len(y.procs)]]
AllOver(x, pids) == \A j \in 1..Len(pids) : ~Live(x.procs[pids[j]])
BlkStep(S, n) ==
  LET b == S.x.blks[n]
  IN CASE b.ph = "start" -> {IF b.cmds[b.i].bi = "" THEN StartStage(S, n) ELSE StartBuiltin(S, n)}
       [] b.ph = "wait" -> IF AllOver(S.x, b.pids) THEN {Onward(S, n, Failed(S.x, b, 1), Aborts(S.x, b))} ELSE {}
       [] b.ph = "drain" -> IF AllOver(S.x, b.pids) THEN {[S EXCEPT !.x.blks[n].ph = "done"]} ELSE {}
       [] OTHER -> {}

-----------------------------------------------------------------------------
(* The values of blocks.                                                      *)
StatusKey == Str(Txt("status"))
PosKey == Str(Txt("pos"))
ErrorKey == Str(Txt("error"))
StdoutKey == Str(Txt("stdout"))
StderrKey == Str(Txt("stderr"))
JoinKey == Str(Txt("join"))
ErrorOf(e, heap) ==
  LET d == NewDict(<< <<StatusKey, IntN(e.s)>>, <<PosKey, Str(<<64>> \o BText(BI(e.ln % LineBase)))>> >>, heap)
  IN NewError(e.d, d.v, d.heap)
RECURSIVE ErrorsOf(_, _, _, _), BlockErrors(_, _, _)
\* es: statuses.  One error, or an error with an array of them.
Together(vs, text, heap) ==
  IF Len(vs) = 1 THEN [v |-> vs[1], heap |-> heap]
  ELSE LET a == NewArray(vs, heap) IN LET r == NewError(Txt(text), a.v, a.heap) IN [v |-> r.v, heap |-> r.heap]
ErrorsOf(es, j, vs, heap) ==
  IF j > Len(es) THEN Together(vs, "Some commands failed in the pipeline", heap)
  ELSE LET e == ErrorOf(es[j], heap) IN ErrorsOf(es, j + 1, Append(vs, e.v), e.heap)
BlockErrors(ess, vs, heap) ==
  IF ess = <<>> THEN Together(vs, "Some commands failed in the block", heap)
  ELSE LET e == ErrorsOf(ess[1], 1, <<>>, heap) IN BlockErrors(Tail(ess), Append(vs, e.v), e.heap)
BlockValue(b, heap) ==
  LET ess == IF b.res.r = "io" THEN <<<<Status(b.res.d, 127, b.res.ln)>>>> ELSE b.errs
  IN IF ess = <<>> THEN [v |-> Nil, heap |-> heap] ELSE BlockErrors(ess, <<>>, heap)
\* The block that the program waited for is over.
Finish(S, n) ==
  LET b == S.x.blks[n]
      v == BlockValue(b, S.heap)
      ps == << <<StdoutKey, Str(S.x.ofd[b.o].b)>>, <<StderrKey, Str(S.x.ofd[b.e].b)>> >>
      G == [S EXCEPT !.x.blks[n].ph = "gone"]
  IN IF b.res.r = "pan" THEN PAN(G, b.res.p, b.res.ln)
     ELSE IF b.kind # "${" THEN RV([G EXCEPT !.heap = v.heap], v.v)
     ELSE IF v.v = Nil THEN Made(G, NewDict(ps, v.heap))
     ELSE LET d == NewDict(Append(ps, <<ErrorKey, ErrObj(v.v, v.heap).c>>), v.heap)
          IN RV([G EXCEPT !.heap = [d.heap EXCEPT ![v.v.v[1]].c = d.v]], v.v)
StepCmd(S) ==
  LET nd == Node(S, S.c.n)
      b == BuildCmds(S, nd.cmds, <<>>)
      n == Len(S.x.blks) + 1
      T == [S EXCEPT !.x = Block1(S.x, nd.b, b.v)]
      j == NewNat("join", <<>>, BI(n), S.heap)
      d == NewDict(<< <<JoinKey, j.v>> >>, j.heap)
  IN CASE b.r = "out" -> OUTSIDE(S)
       [] b.r = "pan" -> PAN(S, b.p, b.ln)
       [] b.r = "ok" -> IF nd.b = "&{" THEN RV([T EXCEPT !.heap = d.heap], d.v)
                        ELSE [T EXCEPT !.c = [m |-> "wt", b |-> n]]

-----------------------------------------------------------------------------
(* The functions of the library that deal with the system.                    *)
SysErr(S, e) == Made(S, NewError(OsError(e), Nil, S.heap))
LineOf(s) == LET i == FindFrom(s, <<10>>, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i)
IoPanic(b) == PanicX("simple", Nil, b)
InvalidUtf8 == Txt("stream did not contain valid UTF-8")
ReadLine(S, ln) ==      \* Everything is read ahead.
  LET s == S.x.rbuf \o S.x.sin
      l == LineOf(s)
      T == [S EXCEPT !.x.rbuf = SubSeq(s, Len(l) + 1, Len(s)), !.x.sin = <<>>]
  IN IF S.x.used \/ Len(s) > 8000 THEN OUTSIDE(S)
     ELSE IF ~IsUtf8(l) THEN PAN(T, IoPanic(InvalidUtf8), ln)
     ELSE RV(T, Str(l))
StdinPath == <<<<-2>>>>      \* The path of the script that the standard input is.
ModuleAt(S, p) == {i \in 1..Len(Cases[S.cid].mods) : Cases[S.cid].mods[i].p = p}
Import(S, s, ln) ==
  LET x == S.x
      from == Cases[S.cid].mods[(ln \div LineBase) + 1].p        \* The path of the module that this is a line of.
      r == IF from = <<>> THEN Missed("OUT") ELSE LookupFrom(x, IF from = StdinPath THEN Cases[S.cid].cwd ELSE Parent(from),
                                                                   IF s = <<>> THEN <<46>> ELSE s)
      m == CHOOSE i \in ModuleAt(S, r.p) : TRUE
      mod == Cases[S.cid].mods[m]
  IN IF HasNul(s) THEN PAN(S, IoPanic(OsError("PATHNUL")), ln)
     ELSE IF r.e = "OUT" THEN OUTSIDE(S)
     ELSE IF r.e # "" THEN PAN(S, IoPanic(OsError(r.e)), ln)
     ELSE IF ~Exists(x, r.p) THEN PAN(S, IoPanic(OsError("ENOENT")), ln)
     ELSE IF r.p \in DOMAIN x.mods THEN RV(S, x.mods[r.p])
     ELSE IF \E j \in 1..Len(S.k) : S.k[j].k = "imp" /\ S.k[j].p = r.p THEN PAN(S, PanicX("import", Nil, FullText(x, r.p)), ln)   \* A cycle.
     ELSE IF IsDir(x, r.p) THEN PAN(S, IoPanic(OsError("EISDIR")), ln)
     ELSE IF ModuleAt(S, r.p) = {} THEN OUTSIDE(S)
     ELSE IF ~mod.ok THEN PAN(S, PanicX("import", Nil, FullText(x, r.p)), ln)
     ELSE [S EXCEPT !.k = Append(@, [k |-> "imp", p |-> r.p, env |-> S.env, base |-> S.base, self |-> S.self]),
                    !.cells = @ \o [j \in 1..mod.ns |-> Nil], !.base = Len(S.cells), !.self = Nil, !.env = <<>>,
                    !.c = [m |-> "ev", n |-> mod.root]]
\* A module's value is that of its last statement; it is evaluated once.
Imported(S) == LET f == Top(S)
               IN [RV(Pop(S), S.c.v) EXCEPT !.env = f.env, !.base = f.base, !.self = f.self, !.x.mods = (f.p :> S.c.v) @@ @]
StrArg(S, i) == S.c.a[i].t = "string"
StepSys(S) ==
  LET f == S.c.f
      a == S.c.a
      ln == S.c.ln
      x == S.x
      s == a[1].v
      dir == LookupOld(x, s)
      B == [S EXCEPT !.x.blks[Small(FunObj(S.c.r, S.heap).i)].joined = TRUE]
      n == Small(FunObj(S.c.r, S.heap).i)
      g == Globbed(x, [i \in 1..Len(s) |-> CASE s[i] = 42 -> Star [] s[i] = 63 -> AnyOne [] OTHER -> s[i]])
      pat == [i \in 1..Len(s) |-> CASE s[i] = 42 -> Star [] s[i] = 63 -> AnyOne [] OTHER -> s[i]]
      badArgs == Len(a) # Arity(f)
      badType == PAN(S, TypeErr(a[1], "string"), ln)
  IN CASE f = "join" -> IF x.blks[n].joined THEN {PAN(S, Simple("attempt to call join more than once"), ln)}
                        ELSE {[B EXCEPT !.c = [m |-> "wt", b |-> n]]}
       [] f = "read" -> IF Len(a) > 1 THEN {PAN(S, ArgsErr(Len(a), 1), ln)}
                        ELSE IF a = <<>> THEN {ReadLine(S, ln)}
                        ELSE IF ~StrArg(S, 1) THEN {badType}
                        ELSE {ReadLine([S EXCEPT !.pos = q], ln) : q \in At(Out(S), s, S.pos)}
       [] badArgs -> {PAN(S, ArgsErr(Len(a), Arity(f)), ln)}
       [] f = "args" -> {RV(S, x.args)}       \* Always the same array.
       [] f = "cwd" -> {RV(S, Str(FullText(x, x.cwd)))}
       [] f = "sleep" -> IF a[1].t # "int" THEN {PAN(S, TypeErr(a[1], "int"), ln)}
                         ELSE IF Sgn(a[1].v) < 0 THEN {PAN(S, ValueErr(a[1], "positive integer"), ln)}
                         ELSE IF ~IsSmall(a[1].v) THEN {OUTSIDE(S)}
                         ELSE {RV([S EXCEPT !.x.slept = @ + Small(a[1].v)], Nil)}
       [] f = "export" ->
            IF ~StrArg(S, 1) THEN {badType}
            ELSE IF ~StrArg(S, 2) THEN {PAN(S, TypeErr(a[2], "string"), ln)}
            ELSE IF s = <<>> \/ HasNul(s) \/ FindFrom(s, <<61>>, 1) > 0 THEN {Made(S, NewError(Txt("invalid export key"), a[1], S.heap))}
            ELSE IF HasNul(a[2].v) THEN {Made(S, NewError(Txt("invalid export value"), a[2], S.heap))}
            ELSE {RV([S EXCEPT !.x.env = (s :> a[2].v) @@ @], Nil)}
       [] ~StrArg(S, 1) -> {badType}
       [] f = "env" -> IF FindFrom(s, <<61>>, 1) > 0 THEN {OUTSIDE(S)}
                       ELSE {RV(S, IF s \in DOMAIN x.env THEN Str(x.env[s]) ELSE Nil)}
       [] f = "cd" -> IF HasNul(s) THEN {SysErr(S, "PATHNUL")}
                      ELSE IF dir.e = "OUT" THEN {OUTSIDE(S)}
                      ELSE IF dir.e # "" THEN {SysErr(S, dir.e)}
                      ELSE IF ~IsDir(x, dir.p) THEN {SysErr(S, "ENOTDIR")}
                      ELSE {RV([S EXCEPT !.x.cwd = dir.p], Nil)}
       [] f = "glob" ->
            IF \E i \in 1..Len(s) : s[i] \in {91, 0} THEN {OUTSIDE(S)}
            ELSE IF ~IsUtf8(s) THEN {Made(S, NewError(Txt("Invalid pattern"), Nil, S.heap))}
            ELSE IF ~StarsOk(pat)
            THEN {Made(S, NewError(Txt("Invalid pattern"),
                                   Str(IF TooManyStars(pat) THEN Txt("wildcards are either regular `*` or recursive `**`")
                                       ELSE Txt("recursive wildcards must form a single path component")), S.heap))}
            ELSE IF ~g.ok THEN {OUTSIDE(S)}
            ELSE {Made(S, NewArray([i \in 1..Len(g.v) |-> Str(g.v[i])], S.heap))}
       [] f = "import" -> {Import(S, s, ln)}
       [] OTHER -> {OUTSIDE(S)}

-----------------------------------------------------------------------------
(* The program.  It reports a panic before it ends.                           *)
Reported(S) == { [S EXCEPT !.epos = q, !.c = [m |-> "end", how |-> "panic"]]
                 : q \in UNION { At(ErrOut(S), t \o <<10>>, S.epos) : t \in PanicText(S.c.p, S.c.ln, S.heap) } }
ShStep(S) == CASE S.c.m = "cmd" -> {StepCmd(S)}
               [] S.c.m = "sys" -> StepSys(S)
               [] S.c.m = "wt" -> IF S.x.blks[S.c.b].ph = "done" THEN {Finish(S, S.c.b)} ELSE {}
               [] S.c.m = "rv" /\ S.k # <<>> /\ Top(S).k = "imp" -> {Imported(S)}
               [] S.c.m = "pan" /\ Topmost(S, {"catch"}) = 0 -> Reported(S)
               [] OTHER -> Step(S)
Quiet(S) == \/ S.c.m \in {"ev", "fl"}
            \/ S.c.m = "rv"
            \/ S.c.m = "pan" /\ Topmost(S, {"catch"}) # 0
\* When the program is over, what it held is released, and its blocks start nothing more.
Ended(T) == IF T.c.m = "end" /\ T.c.how # "outside"
            THEN [T EXCEPT !.x.blks = [b \in 1..Len(@) |-> [@[b] EXCEPT !.ph = "gone"]]] ELSE T
MainStep(S) == IF S.c.m = "end" THEN {} ELSE {Ended(T) : T \in ShStep(S)}
\* Everything that can happen.
Nexts(S) == MainStep(S) \cup {Ended(T) : T \in UNION {BlkStep(S, b) : b \in 1..Len(S.x.blks)}}
            \cup UNION {ProcStep(S, i) : i \in 1..Len(S.x.procs)}

-----------------------------------------------------------------------------
(* Steps that can come first, because they commute with all that others may   *)
(* do before them; no behaviour that can be observed is lost when only one of *)
(* them is considered.                                                        *)
Active(b) == b.ph \in {"start", "wait", "drain"}
Alone(x) == (\A i \in 1..Len(x.procs) : ~Live(x.procs[i])) /\ (\A b \in 1..Len(x.blks) : ~Active(x.blks[b]))
\* The program's own steps, unless they can be seen, end it or change the system; any when nothing else runs.
Hidden(S, T) ==
  /\ Cardinality(T) = 1
  /\ LET U == CHOOSE u \in T : TRUE
     IN /\ U.c.m # "end"
        /\ \/ /\ \/ Quiet(S) \/ S.c.m \in {"cmd", "wt"}
                 \/ S.c.m = "sys" /\ S.c.f = "join"
              /\ U.pos = S.pos
           \/ Alone(S.x)
MainBurst1(B) == LET T == ShStep(B.s)
                 IN IF B.s.c.m # "end" /\ Hidden(B.s, T) THEN [s |-> CHOOSE u \in T : TRUE, fin |-> FALSE, moved |-> TRUE]
                    ELSE [B EXCEPT !.fin = TRUE]
RECURSIVE MainBurst(_, _)
MainBurst(B, n) == IF B.fin THEN B
                   ELSE IF n = 1 THEN MainBurst1(B)
                   ELSE MainBurst(MainBurst(B, n \div 2), n - (n \div 2))
\* A pipe that only process i can still write to.
SoleWriter(x, o, i) == /\ \A k \in 1..Len(x.procs) : (k # i /\ Live(x.procs[k])) => o \notin {x.procs[k].out, x.procs[k].err}
                       /\ \A b \in 1..Len(x.blks) : x.blks[b].ph = "start" => x.blks[b].nxt # o
\* A pipe whose reader won't be over before all is read.
ReadsAll(p) == p.ops # <<>> /\ p.ops[1] # <<>> /\ p.ops[1][1] \in {105, 112, 73, 104}
KeptOpen(x, o) == \/ \E k \in 1..Len(x.procs) : Live(x.procs[k]) /\ x.procs[k].in = o /\ ReadsAll(x.procs[k])
                  \/ \E b \in 1..Len(x.blks) : x.blks[b].kind = "${" /\ Active(x.blks[b]) /\ o \in {x.blks[b].o, x.blks[b].e}
\* Nothing runs but the processes of the pipeline that the program waits for.
OnePipeline(S) == S.c.m = "wt" /\ (\A b \in 1..Len(S.x.blks) : Active(S.x.blks[b]) => (b = S.c.b /\ S.x.blks[b].ph # "start"))
WriteFirst(S, i, o) ==
  CASE S.x.ofd[o].t = "p" -> SoleWriter(S.x, o, i) /\ KeptOpen(S.x, o)
    [] S.x.ofd[o].t \in {"o", "e"} -> OnePipeline(S) /\ SoleWriter(S.x, o, i)
    [] OTHER -> FALSE
ReadFirst(x, p) == x.ofd[p.in].t = "p"
\* The end of a reader may end a writer.
EndFirst(x, p) == x.ofd[p.in].t # "p" \/ ~HasWriter(x, p.in)
ProcFirst(S, i) ==
  LET p == S.x.procs[i]
      c == IF p.ops = <<>> \/ p.ops[1] = <<>> THEN 0 ELSE p.ops[1][1]
  IN /\ Live(p)
     /\ CASE p.ops = <<>> -> EndFirst(S.x, p)
          [] c \in {111, 110, Write1, 97, 118, 100, 48} -> WriteFirst(S, i, p.out)
          [] c \in {101, 78} -> WriteFirst(S, i, p.err)
          [] c \in {105, 112, 73, 104, 114} -> ReadFirst(S.x, p)
          [] c \in {116, 103, 99} -> FALSE
          [] OTHER -> EndFirst(S.x, p)
     /\ ProcStep(S, i) # {}
NoBuiltins(b) == \A i \in 1..Len(b.cmds) : b.cmds[i].bi = ""
BlkFirst(S, n) ==
  LET b == S.x.blks[n]
  IN CASE b.ph \in {"wait", "drain"} -> AllOver(S.x, b.pids)
       [] b.ph = "start" -> /\ (S.c.m = "wt" /\ S.c.b = n)
                            /\ b.cmds[b.i].bi = "" /\ Plain(b.cmds[b.i].st[b.j])
                            /\ \A m \in 1..Len(S.x.blks) : (m # n /\ Active(S.x.blks[m])) => NoBuiltins(S.x.blks[m])
       [] OTHER -> FALSE
Min(s) == CHOOSE i \in s : \A j \in s : i <= j
ShNext(S, n) ==
  LET B == MainBurst([s |-> S, fin |-> FALSE, moved |-> FALSE], n)
      P == {i \in 1..Len(S.x.procs) : ProcFirst(S, i)}
      K == {b \in 1..Len(S.x.blks) : BlkFirst(S, b)}
  IN IF S.c.m # "end" /\ B.moved THEN {B.s}
     ELSE IF P # {} THEN ProcStep(S, Min(P))
     ELSE IF K # {} THEN BlkStep(S, Min(K))
     ELSE Nexts(S)
Over(S) == S.c.m = "end" /\ (S.c.how = "outside" \/ \A i \in 1..Len(S.x.procs) : ~Live(S.x.procs[i]))

RECURSIVE FunOf(_, _)
FunOf(ps, i) == IF i > Len(ps) THEN <<>> ELSE (ps[i].k :> ps[i].v) @@ FunOf(ps, i + 1)
FsOf(fs) == TLCEval([p \in {fs[i].p : i \in 1..Len(fs)} |->
                       LET e == fs[CHOOSE i \in 1..Len(fs) : fs[i].p = p] IN [t |-> e.t, c |-> e.c]])

(* The command line.  Flags come first, until the first argument that isn't   *)
(* one; that is the script, if it's a file.  Otherwise the script is read     *)
(* from the standard input.  All that follows is for the script.              *)
Flags == {Txt("--check"), Txt("--lex"), Txt("--ast"), Txt("--program")}
Dash == <<45>>
Dashes == <<45, 45>>
Cli(how, fl, rest) == [how |-> how, fl |-> fl, rest |-> rest]
RECURSIVE CliFlags(_, _)
CliFlags(av, fl) ==
  IF av = <<>> THEN Cli("run", fl, <<>>)
  ELSE LET s == av[1]
       IN IF s = Dashes THEN Cli("run", fl, Tail(av))
          ELSE IF s = <<>> \/ s[1] # 45 \/ s = Dash THEN Cli("run", fl, av)
          ELSE IF s \in Flags THEN IF s \in fl THEN Cli("bad", fl, <<>>) ELSE CliFlags(Tail(av), fl \cup {s})
          ELSE IF s \in {Txt("--help"), Txt("--version"), <<45, 104>>, <<45, 86>>} THEN Cli("help", fl, <<>>)
          ELSE IF FindFrom(s, <<61>>, 1) > 0 THEN Cli("outside", fl, <<>>)
          ELSE Cli("bad", fl, <<>>)
CliScript(x, rest) ==        \* [p |-> path of the script, args |-> its arguments, out |-> is that outside?]
  LET r == LookupOld(x, rest[1])
  IN IF rest = <<>> THEN [p |-> StdinPath, args |-> <<>>, out |-> FALSE]
     ELSE IF rest[1] = Dash THEN [p |-> StdinPath, args |-> Tail(rest), out |-> FALSE]
     ELSE IF r.e = "" /\ ~IsDir(x, r.p) THEN [p |-> r.p, args |-> Tail(rest), out |-> FALSE]
     ELSE [p |-> StdinPath, args |-> rest, out |-> r.e = "OUT"]

ShStart(i) ==
  LET o == Cases[i]
      x == [root |-> o.rootdir, fs |-> FsOf(o.fs), cwd |-> o.cwd, env |-> TLCEval(FunOf(o.env, 1)), sin |-> o.stdin, rbuf |-> <<>>,
            used |-> FALSE, ofd |-> <<Ofd("o", <<>>, <<>>, FALSE), Ofd("e", <<>>, <<>>, FALSE), Ofd("i", <<>>, <<>>, FALSE)>>,
            procs |-> <<>>, blks |-> <<>>, mods |-> <<>>, args |-> Nil, slept |-> 0]
      arr(as) == NewArray([j \in 1..Len(as) |-> Str(as[j])], <<>>)
      S(y, m, as) == [cid |-> i, c |-> [m |-> "ev", n |-> o.mods[m].root], env |-> <<>>, base |-> 0, self |-> Nil,
                  k |-> <<>>, cells |-> [j \in 1..o.mods[m].ns |-> Nil], heap |-> arr(as).heap, pos |-> 1, fuel |-> 0, epos |-> 1,
                      x |-> [y EXCEPT !.args = arr(as).v]]
      End(how, code) == [S(x, 1, <<>>) EXCEPT !.c = [m |-> "end", how |-> how, code |-> code]]
      \* Listings are between lines of dashes; o.seps: the positions after these.
      After(T, n) == IF n = 0 THEN T ELSE IF Len(o.seps) < n THEN [T EXCEPT !.c = [m |-> "end", how |-> "nolisting", code |-> 0]]
                     ELSE [T EXCEPT !.pos = o.seps[n]]
      cl == CliFlags(o.argv, {})
      sc == CliScript(x, cl.rest)
      ms == {m \in 1..Len(o.mods) : o.mods[m].p = sc.p}
      m1 == CHOOSE m \in ms : TRUE
      y == [x EXCEPT !.sin = IF sc.p = StdinPath THEN <<>> ELSE @]
  IN IF ~o.cli THEN S(x, 1, o.args)
     ELSE IF cl.how = "bad" THEN End("exit", 1)
     ELSE IF cl.how = "help"           \* Information about hush, and nothing else.
          THEN IF Len(o.out) > 8 /\ SubSeq(o.out, 1, 5) = Txt("Hush ") THEN [End("exit", 0) EXCEPT !.pos = Len(o.out) + 1]
               ELSE End("exit", 0)
     ELSE IF cl.how = "outside" \/ sc.out \/ ms = {} THEN End("outside", 0)
     ELSE IF ~o.mods[m1].ok 
          THEN LET n == 2 * Cardinality(cl.fl \cap {Txt("--lex"), Txt("--ast")})     \* The last listing is of valid programs at least.
               IN After(End("exit", 2), IF Txt("--program") \in cl.fl /\ Len(o.seps) = n + 2 THEN n + 2 ELSE n)
     ELSE LET n == 2 * Cardinality(cl.fl \ {Txt("--check")})
          IN IF Txt("--check") \in cl.fl THEN After(End("exit", 0), n)
             ELSE After(S(y, m1, sc.args), n)
\* What was observed: the outputs, the exit status (minus the signal that ended it), and the files.
ShOk(S) ==
  LET o == Cases[S.cid]
      s == S.x.procs[S.c.pid].st
  IN /\ S.pos = Len(o.out) + 1
     /\ S.epos = Len(o.err) + 1
     /\ o.code = CASE S.c.how = "ok" -> 0
                   [] S.c.how = "exit" -> S.c.code
                   [] S.c.how = "nolisting" -> -1000
                   [] S.c.how = "panic" -> 127
                   [] S.c.how = "exec" -> IF s > SigBase THEN SigBase - s ELSE s
     /\ S.x.fs = FsOf(o.fsend)
     /\ o.ms >= S.x.slept          \* The time that it took, in milliseconds.
=============================================================================
