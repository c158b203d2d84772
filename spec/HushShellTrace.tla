--------------------------- MODULE HushShellTrace ---------------------------
(* Every behaviour observed of a program that runs commands has to be one of  *)
(* HushShell.                                                                 *)
EXTENDS HushShell
CONSTANTS MaxFuel, Burst

Report(S) == IF S.c.how = "outside" THEN PrintT(<<"OUTSIDE", Cases[S.cid].id>>)
             ELSE IF ShOk(S) THEN PrintT(<<"ACCEPT", Cases[S.cid].id>>)
             ELSE PrintT(<<"REJECT", Cases[S.cid].id, S.pos, S.epos, S.c.how, S.x.fs = FsOf(Cases[S.cid].fsend)>>)
Init == \E i \in 1..Len(Cases) : LET S == TLCEval(ShStart(i)) IN (Over(S) => Report(S)) /\ st = S
Next == /\ ~Over(st)
        /\ LET T == IF st.fuel >= MaxFuel THEN {OUTSIDE(st)} ELSE ShNext(st, Burst)
           IN IF T = {} THEN PrintT(<<"STUCK", Cases[st.cid].id, st.pos, st.epos, st.c.m>>) /\ FALSE
              ELSE \E s \in T : /\ (Over(s) => Report(s))
                                /\ st' = [s EXCEPT !.fuel = IF s.c = st.c THEN @ ELSE @ + 1]

\* Processes, blocks and open files refer to what exists.
WellFormed ==
  /\ \A i \in 1..Len(st.x.procs) : {st.x.procs[i].in, st.x.procs[i].out, st.x.procs[i].err} \subseteq 1..Len(st.x.ofd)
  /\ \A b \in 1..Len(st.x.blks) : \A j \in 1..Len(st.x.blks[b].pids) : st.x.blks[b].pids[j] \in 1..Len(st.x.procs)
  /\ st.c.m # "end" => IsDir(st.x, st.x.cwd)
\* A pipe has one reader: what is written to it is read once, and in order.
OneReader == \A i, j \in 1..Len(st.x.procs) :
               (i # j /\ Live(st.x.procs[i]) /\ Live(st.x.procs[j]) /\ st.x.procs[i].in = st.x.procs[j].in)
                 => st.x.ofd[st.x.procs[i].in].t # "p"
\* The program goes on after a block only when all that the block started is over.
Waited == \A b \in 1..Len(st.x.blks) :
            (st.x.blks[b].ph \in {"done", "gone"} /\ st.c.m # "end") => AllOver(st.x, st.x.blks[b].pids)
\* At most one pipeline of each block runs at a time.
Running == \A b \in 1..Len(st.x.blks) :
             Cardinality({i \in 1..Len(st.x.procs) : Live(st.x.procs[i]) /\ \E j \in 1..Len(st.x.blks[b].pids) : st.x.blks[b].pids[j] = i})
               <= Len(st.x.blks[b].cmds[st.x.blks[b].i].st)
=============================================================================
