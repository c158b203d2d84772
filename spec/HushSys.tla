------------------------------ MODULE HushSys ------------------------------
(* What the operating system provides, as far as commands need it: files and  *)
(* their names, environments, the expansion of arguments, patterns of file    *)
(* names, and starting programs.  Everything here is a function of the state  *)
(* x of the system:                                                           *)
(*   root   the folder that represents the whole file system, as a text;      *)
(*   fs     paths (sequences of names, from the root) to files:               *)
(*          [t |-> "d"] folders, [t |-> "f", c |-> contents] files that can   *)
(*          not be executed, and [t |-> "x"] copies of the helper program;    *)
(*   cwd    the path of the working directory;    env  the environment;       *)
(*   sin    what is left of the standard input;                               *)
(*   ofd    the open files: outputs "o", "e"; the standard input "i"; pipes   *)
(*          "p", with what was written and not read, b; files "f", with their *)
(*          path p, the offset off, and whether writes append; and "d".       *)
(*   procs  the processes started (see HushShell);                            *)
(*   blks   the command blocks started (see HushShell);                       *)
(*   mods   the modules loaded.                                               *)
EXTENDS HushCore

Slash == <<47>>
OutPath == <<<<-1>>>>      \* A path outside of the root.

-----------------------------------------------------------------------------
(* Paths.  The result is [e |-> error, p |-> path]; the file need not exist.  *)
IsDir(x, p) == p \in DOMAIN x.fs /\ x.fs[p].t = "d"
Exists(x, p) == p \in DOMAIN x.fs
Parent(p) == IF p = <<>> \/ p = OutPath THEN OutPath ELSE SubSeq(p, 1, Len(p) - 1)
Found(p) == [e |-> "", p |-> p]
Missed(e) == [e |-> e, p |-> <<>>]
RECURSIVE Walk(_, _, _)
Walk(x, cur, ps) ==
  IF cur = OutPath THEN Missed("OUT")
  ELSE IF ps = <<>> THEN Found(cur)
  ELSE IF ~Exists(x, cur) THEN Missed("ENOENT")
  ELSE IF ~IsDir(x, cur) THEN Missed("ENOTDIR")
  ELSE IF ps[1] \in {<<>>, <<46>>} THEN Walk(x, cur, Tail(ps))
  ELSE IF ps[1] = <<46, 46>> THEN Walk(x, Parent(cur), Tail(ps))
  ELSE Walk(x, Append(cur, ps[1]), Tail(ps))
IsAbsolute(s) == s # <<>> /\ s[1] = 47
UnderRoot(x, s) == IsAt(s, x.root, 1) /\ (Len(s) = Len(x.root) \/ s[Len(x.root) + 1] = 47)
LookupFrom(x, cwd, s) ==
  IF s = <<>> THEN Missed("ENOENT")
  ELSE IF IsAbsolute(s) THEN IF UnderRoot(x, s) THEN Walk(x, <<>>, SplitBy(SubSeq(s, Len(x.root) + 1, Len(s)), Slash))
                             ELSE Missed("OUT")
  ELSE Walk(x, cwd, SplitBy(s, Slash))
Lookup(x, s) == LookupFrom(x, x.cwd, s)
\* An existing file.
LookupOld(x, s) == LET r == Lookup(x, s) IN IF r.e = "" /\ ~Exists(x, r.p) THEN Missed("ENOENT") ELSE r
RECURSIVE NoSlash(_)
NoSlash(s) == IF s # <<>> /\ s[Len(s)] = 47 THEN NoSlash(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* A file to write to, which is created if it doesn't exist.
LookupNewFrom(x, cwd, s) ==
  LET t == NoSlash(s)
      r == LookupFrom(x, cwd, IF t = <<>> THEN s ELSE t)
  IN IF r.e # "" THEN r
     ELSE IF t # s \/ IsDir(x, r.p) THEN Missed("EISDIR")
     ELSE IF Exists(x, r.p) /\ x.fs[r.p].t = "x" THEN Missed("OUT")
     ELSE r
LookupNew(x, s) == LookupNewFrom(x, x.cwd, s)
OsError(e) == CASE e = "ENOENT" -> Txt("No such file or directory (os error 2)")
                [] e = "ENOTDIR" -> Txt("Not a directory (os error 20)")
                [] e = "EISDIR" -> Txt("Is a directory (os error 21)")
                [] e = "EACCES" -> Txt("Permission denied (os error 13)")
                [] e = "ARGNUL" -> Txt("nul byte found in provided data")
                [] e = "PATHNUL" -> Txt("file name contained an unexpected NUL byte")
HasNul(s) == \E i \in 1..Len(s) : s[i] = 0
RECURSIVE PathText(_)
PathText(p) == IF p = <<>> THEN <<>> ELSE Slash \o p[1] \o PathText(Tail(p))
FullText(x, p) == x.root \o PathText(p)

-----------------------------------------------------------------------------
(* Patterns.  A pattern is a sequence of bytes, Star and AnyOne.                 *)
Star == 256
AnyOne == 257
Wild(u) == u \in {Star, AnyOne}
IsWild(c) == \E i \in 1..Len(c) : Wild(c[i])
StarStar == <<Star, Star>>
PatBytes(u) == [i \in 1..Len(u) |-> IF Wild(u[i]) THEN 42 ELSE u[i]]
\* Two stars stand alone in a component, and there never are three.
RECURSIVE StarRun(_, _)
StarRun(u, i) == IF i <= Len(u) /\ u[i] = Star THEN 1 + StarRun(u, i + 1) ELSE 0
StarsOk(u) == \A i \in 1..Len(u) :
                (u[i] = Star /\ (i = 1 \/ u[i - 1] # Star)) =>
                  LET n == StarRun(u, i)
                  IN n = 1 \/ (n = 2 /\ (i = 1 \/ u[i - 1] = 47) /\ (i + 2 > Len(u) \/ u[i + 2] = 47))
TooManyStars(u) == \E i \in 1..Len(u) : StarRun(u, i) > 2
PatternOk(u) == IsUtf8(PatBytes(u)) /\ StarsOk(u)
\* Characters: of names, and of patterns.
RECURSIVE CharsOf(_)
CharsOf(s) == IF s = <<>> THEN <<>>
              ELSE LET n == IF Wild(s[1]) THEN 1 ELSE CharLen(SubSeq(PatBytes(s), 1, Len(s)))
                   IN <<SubSeq(s, 1, n)>> \o CharsOf(SubSeq(s, n + 1, Len(s)))
RECURSIVE MatchChars(_, _)
MatchChars(pat, cs) ==
  IF pat = <<>> THEN cs = <<>>
  ELSE IF pat[1] = <<Star>> THEN MatchChars(Tail(pat), cs) \/ (cs # <<>> /\ MatchChars(pat, Tail(cs)))
  ELSE cs # <<>> /\ (pat[1] = <<AnyOne>> \/ pat[1] = cs[1]) /\ MatchChars(Tail(pat), Tail(cs))
NameMatches(c, name) == IsUtf8(name) /\ MatchChars(CharsOf(c), CharsOf(name))

\* The names in a folder, in order.
RECURSIVE SortNames(_)
SortNames(s) == IF s = {} THEN <<>>
                ELSE LET m == CHOOSE a \in s : \A b \in s : LexCmp(a, b, 1) <= 0
                     IN <<m>> \o SortNames(s \ {m})
Children(x, p) == SortNames({q[Len(q)] : q \in {q \in DOMAIN x.fs : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}})

\* A place: its path p, the text t that denotes it, and whether that is the current directory.
Here(x) == [p |-> x.cwd, t |-> <<46>>, cur |-> TRUE]
Down(P, name) == [p |-> IF P.p = OutPath THEN OutPath ELSE Append(P.p, name),
                  t |-> IF P.cur THEN name ELSE P.t \o Slash \o name, cur |-> FALSE]
Special(P, s) ==    \* . and ..
  [p |-> IF s = <<46>> THEN P.p ELSE Parent(P.p),
   t |-> P.t \o Slash \o s, cur |-> P.cur /\ s = <<46>>]
SpecialLit(P, s) == [Special(P, s) EXCEPT !.t = IF P.cur THEN s ELSE @]
OutMark == <<-1>>
\* The texts of what matches the components cs from i on, at a place; dir: only folders.
RECURSIVE Fill(_, _, _, _, _), Visit(_, _, _, _, _), Visits(_, _, _, _, _, _), Recursives(_, _)
Recursives(cs, i) == IF i < Len(cs) /\ cs[i + 1] = StarStar THEN Recursives(cs, i + 1) ELSE i
Final(x, P, dir) == IF ~dir \/ IsDir(x, P.p) THEN <<P.t>> ELSE <<>>
Enter1(x, P, cs, i, dir) == IF P.p = OutPath THEN <<OutMark>>
                            ELSE IF i = Len(cs) THEN Final(x, P, dir) ELSE Fill(x, P, cs, i + 1, dir)
Matched(x, P, cs, i, dir) == IF NameMatches(cs[i], P.p[Len(P.p)]) THEN Enter1(x, P, cs, i, dir) ELSE <<>>
Fill(x, P, cs, i, dir) ==
  LET c == cs[i]
  IN IF c \in {<<46>>, <<46, 46>>} THEN IF IsDir(x, P.p) THEN Enter1(x, SpecialLit(P, c), cs, i, dir) ELSE <<>>
     ELSE IF ~IsWild(c) THEN LET D == Down(P, c) IN IF c # <<>> /\ IsDir(x, P.p) /\ Exists(x, D.p) THEN Enter1(x, D, cs, i, dir) ELSE <<>>
     ELSE IF ~IsDir(x, P.p) THEN <<>>
     ELSE LET sp(s) == IF c # StarStar /\ c[1] = 46 /\ NameMatches(c, s) THEN Enter1(x, Special(P, s), cs, i, dir) ELSE <<>>
          IN sp(<<46, 46>>) \o sp(<<46>>) \o Visits(x, P, Children(x, P.p), cs, i, dir)
Visits(x, P, names, cs, i, dir) ==
  IF names = <<>> THEN <<>> ELSE Visit(x, Down(P, names[1]), cs, i, dir) \o Visits(x, P, Tail(names), cs, i, dir)
Visit(x, P, cs, i, dir) ==
  IF cs[i] # StarStar THEN Matched(x, P, cs, i, dir)
  ELSE LET j == Recursives(cs, i)
           below == IF IsDir(x, P.p) THEN Fill(x, P, cs, j, dir) ELSE <<>>
       IN IF j = Len(cs) THEN (IF IsDir(x, P.p) THEN <<P.t>> \o below ELSE <<>>)
          ELSE Matched(x, P, cs, j + 1, dir) \o below
\* The texts of the files that match: [ok |-> BOOLEAN, v |-> them]; not ok when that's outside of the root.
Globbed(x, u) ==
  LET abs == IsAbsolute(u)
      in == abs /\ UnderRoot(x, u)
      s == IF in THEN SubSeq(u, Len(x.root) + 2, Len(u)) ELSE u
      dir == s # <<>> /\ s[Len(s)] = 47
      cs == SplitBy(IF dir THEN SubSeq(s, 1, Len(s) - 1) ELSE s, Slash)
      P == IF in THEN [p |-> <<>>, t |-> x.root, cur |-> FALSE] ELSE Here(x)
      v == Fill(x, P, cs, 1, dir)
  IN IF (abs /\ (~in \/ s = <<>>)) \/ (Len(cs) > 1 /\ \E i \in 1..Len(cs) : cs[i] = <<>>) THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> ~\E i \in 1..Len(v) : v[i] = OutMark, v |-> v]

-----------------------------------------------------------------------------
(* Building commands: the values of the variables are put into the arguments. *)
(* An argument becomes a sequence of items, [p |-> is it a pattern?, u |-> a  *)
(* sequence of bytes and wildcards].  The results are [r |-> "ok", v |-> ...] *)
(* or [r |-> "pan", p |-> panic, ln |-> line] or [r |-> "out"].               *)
Ok(v) == [r |-> "ok", v |-> v]
PanAt(p, ln) == [r |-> "pan", p |-> p, ln |-> ln]
\* The text of a value that isn't a collection, function or error.
Basic(v, ln) ==
  CASE v.t = "nil" -> Ok(<<>>)
    [] v.t \in {"string", "char"} -> Ok(v.v)
    [] v.t \in {"bool", "int", "float"} -> Ok(CHOOSE s \in Shows(v, <<>>) : TRUE)
    [] OTHER -> PanAt(TypeErr(v, "nil, bool, int, float, byte or string"), ln)
RECURSIVE Basics(_, _, _)
Basics(vs, ln, acc) == IF vs = <<>> THEN Ok(acc)
                       ELSE LET b == Basic(vs[1], ln)
                            IN IF b.r # "ok" THEN b ELSE Basics(Tail(vs), ln, Append(acc, b.v))
VarVal(S, name) == S.cells[S.env[name]]
HomeText(x) == LET k == Txt("HOME")
               IN IF k \notin DOMAIN x.env \/ x.env[k] = <<>> THEN <<>>
                  ELSE IF x.env[k][Len(x.env[k])] = 47 THEN x.env[k] ELSE x.env[k] \o Slash
\* The alternatives for a part of an argument; there may be none.
PartVals(S, p) ==
  CASE p.t = "lit" -> Ok(<<p.v>>)
    [] p.t = "home" -> Ok(<<HomeText(S.x)>>)
    [] p.t = "star" -> Ok(<<<<Star>>>>)
    [] p.t = "pct" -> Ok(<<<<AnyOne>>>>)
    [] p.t = "var" -> LET v == VarVal(S, p.v)
                      IN IF v.t = "array" THEN Basics(Items(v, S.heap), p.ln, <<>>) ELSE Basics(<<v>>, p.ln, <<>>)
\* Each text with each of the alternatives; the texts vary fastest.
Product(ts, as) == [i \in 1..(Len(ts) * Len(as)) |-> ts[((i - 1) % Len(ts)) + 1] \o as[((i - 1) \div Len(ts)) + 1]]
\* A part without alternatives adds nothing at all.
RECURSIVE Expand(_, _, _, _)
Expand(S, parts, i, acc) ==
  IF i > Len(parts) THEN Ok(acc)
  ELSE LET v == PartVals(S, parts[i])
       IN IF v.r # "ok" THEN v
          ELSE Expand(S, parts, i + 1, IF v.v = <<>> THEN acc ELSE TLCEval(Product(IF acc = <<>> THEN <<<<>>>> ELSE acc, v.v)))
BuildArg(S, a) ==
  LET e == Expand(S, a.parts, 1, <<>>)
      pat == \E i \in 1..Len(a.parts) : a.parts[i].t \in {"star", "pct"}
  IN IF e.r # "ok" THEN e ELSE Ok([i \in 1..Len(e.v) |-> [p |-> pat, u |-> e.v[i]]])
ItemsErr(what, n) == PanicX("simple", Nil, Txt(what) \o Txt(" expansion resulted in ") \o BText(BI(n)) \o Txt(" items"))
BuildOne(S, a, what) ==
  LET b == BuildArg(S, a)
  IN IF b.r # "ok" THEN b
     ELSE IF Len(b.v) = 1 THEN Ok(b.v[1])
     ELSE PanAt(ItemsErr(what, IF b.v = <<>> THEN 0 ELSE Len(b.v) - 1), a.ln)
RECURSIVE BuildArgs(_, _, _), BuildEnv(_, _, _), BuildRds(_, _, _), BuildStages(_, _, _), BuildCmds(_, _, _)
BuildArgs(S, as, acc) == IF as = <<>> THEN Ok(acc)
                         ELSE LET b == BuildArg(S, as[1]) IN IF b.r # "ok" THEN b ELSE BuildArgs(S, Tail(as), acc \o b.v)
BuildEnv(S, es, acc) ==
  IF es = <<>> THEN Ok(acc)
  ELSE LET k == IF es[1].key.t = "var" THEN Basic(VarVal(S, es[1].key.v), es[1].key.ln) ELSE Ok(es[1].key.v)
           v == BuildOne(S, es[1].val, "env")
       IN IF k.r # "ok" THEN k ELSE IF v.r # "ok" THEN v
          ELSE BuildEnv(S, Tail(es), Append(acc, [k |-> k.v, v |-> v.v]))
NoItem == [p |-> FALSE, u |-> <<>>]
BuildRds(S, rs, acc) ==
  IF rs = <<>> THEN Ok(acc)
  ELSE IF rs[1].t = "out" /\ rs[1].to = "fd"
       THEN BuildRds(S, Tail(rs), Append(acc, [t |-> "fd", fd |-> rs[1].fd, n |-> rs[1].n, a |-> NoItem]))
  ELSE LET b == BuildOne(S, rs[1].a, "redirection")
       IN IF b.r # "ok" THEN b
          ELSE BuildRds(S, Tail(rs), Append(acc, [t |-> IF rs[1].t = "in" THEN (IF rs[1].lit THEN "lit" ELSE "in") ELSE rs[1].to,
                                                  fd |-> IF rs[1].t = "in" THEN 0 ELSE rs[1].fd, n |-> 0, a |-> b.v]))
BuildStages(S, sts, acc) ==
  IF sts = <<>> THEN Ok(acc)
  ELSE LET s == sts[1]
           p == BuildOne(S, s.prog, "program")
           e == BuildEnv(S, s.env, <<>>)
           a == BuildArgs(S, s.args, <<>>)
           r == BuildRds(S, s.rd, <<>>)
       IN IF p.r # "ok" THEN p ELSE IF e.r # "ok" THEN e ELSE IF a.r # "ok" THEN a ELSE IF r.r # "ok" THEN r
          ELSE BuildStages(S, Tail(sts), Append(acc, [prog |-> p.v, env |-> e.v, args |-> a.v, rd |-> r.v, ab |-> s.ab, ln |-> s.ln]))
BuildCmds(S, cs, acc) ==
  IF cs = <<>> THEN Ok(acc)
  ELSE LET b == IF cs[1].bi = "" THEN BuildStages(S, cs[1].st, <<>>)
                ELSE LET s == cs[1].st[1]
                         a == BuildArgs(S, s.args, <<>>)
                     IN IF a.r # "ok" THEN a
                        ELSE Ok(<<[prog |-> NoItem, env |-> <<>>, args |-> a.v, rd |-> <<>>, ab |-> s.ab, ln |-> s.ln]>>)
       IN IF b.r # "ok" THEN b ELSE BuildCmds(S, Tail(cs), Append(acc, [bi |-> cs[1].bi, st |-> b.v]))

-----------------------------------------------------------------------------
(* Starting a command.  Items are resolved in the current directory: patterns *)
(* become the names of the files that match them, with ./ in front.           *)
InvalidPattern == Simple("pattern has invalid UTF-8")
Resolved(x, it, ln) ==
  IF ~it.p THEN Ok(<<it.u>>)
  ELSE IF ~PatternOk(it.u) THEN PanAt(InvalidPattern, ln)
  ELSE LET g == Globbed(x, it.u)
       IN IF ~g.ok THEN [r |-> "out"]
          ELSE Ok(IF IsAbsolute(it.u) THEN g.v ELSE [i \in 1..Len(g.v) |-> <<46, 47>> \o g.v[i]])
ResolvedOne(x, it, what, ln) ==
  LET r == Resolved(x, it, ln)
  IN IF r.r # "ok" THEN r ELSE IF Len(r.v) = 1 THEN Ok(r.v[1]) ELSE PanAt(ItemsErr(what, Len(r.v)), ln)
RECURSIVE ResolvedAll(_, _, _, _), ResolvedEnv(_, _, _, _)
ResolvedAll(x, its, ln, acc) ==
  IF its = <<>> THEN Ok(acc)
  ELSE LET r == Resolved(x, its[1], ln) IN IF r.r # "ok" THEN r ELSE ResolvedAll(x, Tail(its), ln, acc \o r.v)
ResolvedEnv(x, es, ln, acc) ==
  IF es = <<>> THEN Ok(acc)
  ELSE LET r == ResolvedOne(x, es[1].v, "env variable", ln)
       IN IF r.r # "ok" THEN r ELSE ResolvedEnv(x, Tail(es), ln, Append(acc, <<es[1].k, r.v>>))
RECURSIVE WithEnv(_, _)
WithEnv(env, ps) == IF ps = <<>> THEN env ELSE WithEnv((ps[1][1] :> ps[1][2]) @@ env, Tail(ps))

\* Whether a program can be executed.
PathKey == Txt("PATH")
BinText == Txt("/bin")
Program(x, s) ==
  LET r == IF FindFrom(s, Slash, 1) > 0 THEN LookupOld(x, s)
           ELSE IF s = <<>> THEN Missed("ENOENT")
           ELSE IF PathKey \notin DOMAIN x.env \/ x.env[PathKey] # x.root \o BinText THEN Missed("OUT")
           ELSE LookupOld(x, x.root \o BinText \o Slash \o s)
  IN IF r.e # "" THEN r.e ELSE IF x.fs[r.p].t = "x" THEN "" ELSE "EACCES"

\* Redirections, one after the other.  R: [x, in, out, err, r |-> "ok" or what went wrong].
NewOfd(x, o) == [x EXCEPT !.ofd = Append(@, o)]
Ofd(t, b, p, app) == [t |-> t, b |-> b, p |-> p, app |-> app, off |-> 0]
RdFail(R, f) == [R EXCEPT !.r = f]
IoFail(e, ln) == IF e = "OUT" THEN [r |-> "out"] ELSE [r |-> "io", d |-> OsError(e), ln |-> ln]
FdErr(n) == PanicX("simple", Nil, Txt("unsupported file descriptor (") \o BText(BI(n)) \o <<41>>)
ToFd(R, fd, o, ln) == CASE fd = 1 -> [R EXCEPT !.out = o]
                        [] fd = 2 -> [R EXCEPT !.err = o]
                        [] OTHER -> RdFail(R, PanAt(FdErr(fd), ln))
Redirect(R, rd, ln) ==
  LET x == R.x
      a == ResolvedOne(x, rd.a, "redirection", ln)
      n == LookupNew(x, a.v)
      o == LookupOld(x, a.v)
      opened(y, d) == [R EXCEPT !.x = NewOfd(y, d)]
      k == Len(x.ofd) + 1
  IN IF rd.t = "fd"
     THEN IF rd.n \notin {1, 2} THEN RdFail(R, PanAt(FdErr(rd.n), ln)) ELSE ToFd(R, rd.fd, IF rd.n = 1 THEN R.out ELSE R.err, ln)
     ELSE IF a.r # "ok" THEN RdFail(R, a)
     ELSE IF rd.t = "lit" THEN [opened(x, Ofd("p", Append(a.v, 10), <<>>, FALSE)) EXCEPT !.in = k]
     ELSE IF HasNul(a.v) THEN RdFail(R, IoFail("PATHNUL", ln))
     ELSE IF rd.t = "in"
     THEN IF o.e # "" THEN RdFail(R, IoFail(o.e, ln))
          ELSE IF x.fs[o.p].t = "x" THEN RdFail(R, [r |-> "out"])
          ELSE [opened(x, Ofd(x.fs[o.p].t, <<>>, o.p, FALSE)) EXCEPT !.in = k]
     ELSE IF n.e # "" THEN RdFail(R, IoFail(n.e, ln))
     ELSE LET y == IF rd.t = "append" /\ Exists(x, n.p) THEN x ELSE [x EXCEPT !.fs = (n.p :> [t |-> "f", c |-> <<>>]) @@ @]
          IN ToFd(opened(y, Ofd("f", <<>>, n.p, rd.t = "append")), rd.fd, k, ln)
RECURSIVE Redirects(_, _, _)
Redirects(R, rds, ln) == IF R.r.r # "ok" \/ rds = <<>> THEN R ELSE Redirects(Redirect(R, rds[1], ln), Tail(rds), ln)

\* A process: the operations that it has to do, its open files, and its status when it's over (or -1).
Process(ops, in, out, err, env, cwd, a0) ==
  [ops |-> ops, in |-> in, out |-> out, err |-> err, st |-> -1, env |-> env, cwd |-> cwd, a0 |-> a0]
EnvOdd(es) == \E i \in 1..Len(es) : es[i][1] = <<>> \/ es[i][1] = PathKey \/ (\E j \in 1..Len(es[i][1]) : es[i][1][j] = 61)
\* Starting a command takes several steps, during which others may act: its items are resolved, its files are opened,
\* one after the other, and then the process is created.  The results have r.r "ok", "io", "pan" or "out".
ResolvedStage(x, sg) ==
  LET p == ResolvedOne(x, sg.prog, "program", sg.ln)
      e == ResolvedEnv(x, sg.env, sg.ln, <<>>)
      a == ResolvedAll(x, sg.args, sg.ln, <<>>)
  IN IF p.r # "ok" THEN p ELSE IF e.r # "ok" THEN e ELSE IF a.r # "ok" THEN a
     ELSE Ok([p |-> p.v, e |-> e.v, a |-> a.v])
\* g: what was resolved; R: the redirections done.
Created(x, g, R, ln) ==
  LET nul == HasNul(g.p) \/ (\E i \in 1..Len(g.a) : HasNul(g.a[i])) \/ (\E i \in 1..Len(g.e) : HasNul(g.e[i][1]) \/ HasNul(g.e[i][2]))
      w == Program(x, g.p)
  IN IF EnvOdd(g.e) THEN [x |-> x, r |-> [r |-> "out"]]
     ELSE IF nul THEN [x |-> x, r |-> IoFail("ARGNUL", ln)]
     ELSE IF w # "" THEN [x |-> x, r |-> IoFail(w, ln)]
     ELSE [x |-> [x EXCEPT !.procs = Append(@, Process(g.a, R.in, R.out, R.err, TLCEval(WithEnv(x.env, g.e)), x.cwd, g.p))],
           r |-> Ok(<<>>)]
=============================================================================
