---------------------------- MODULE HushCoreTrace ----------------------------
(* Every behaviour observed has to be one of the machine.                     *)
EXTENDS HushCore
CONSTANTS MaxFuel, Burst

Init == \E i \in 1..Len(Cases) : st = Start(i)
Report(S) == IF S.c.how = "outside" THEN PrintT(<<"OUTSIDE", Cases[S.cid].id>>)
             ELSE IF EndOk(S) THEN PrintT(<<"ACCEPT", Cases[S.cid].id>>)
             ELSE PrintT(<<"REJECT", Cases[S.cid].id, S.pos, S.c.how,
                           IF S.c.how = "panic" THEN CHOOSE t \in PanicText(S.c.p, S.c.ln, S.heap) : TRUE ELSE <<>> >>)
Next == /\ st.c.m # "end"
        /\ LET T == IF st.fuel >= MaxFuel THEN {OUTSIDE(st)} ELSE Steps(st, Burst)
           IN IF T = {} THEN PrintT(<<"STUCK", Cases[st.cid].id, st.pos>>) /\ FALSE
              ELSE \E s \in T : /\ (s.c.m = "end" => Report(s))
                                /\ st' = [s EXCEPT !.fuel = st.fuel + 1]

\* The variables in scope exist, and so do the objects that they refer to.
WellFormed ==
  /\ \A x \in DOMAIN st.env : st.env[x] \in 1..Len(st.cells)
  /\ \A i \in 1..Len(st.cells) :
       st.cells[i].t \in {"array", "dict", "error", "function"} =>
         st.cells[i].v[1] <= Len(st.heap)

-----------------------------------------------------------------------------
(* Properties of the machine, which hold of every single step (Burst = 0).    *)
Range(f) == {f[x] : x \in DOMAIN f}
Changed == {i \in 1..Len(st.cells) : st'.cells[i] # st.cells[i]}
\* A step changes no variable but one that's in scope, and forgets none.
ScopeStep == /\ Len(st'.cells) >= Len(st.cells)
             /\ Cardinality(Changed) <= 1
             /\ \A i \in Changed : i \in Range(st.env) \/ i \in Range(st'.env)
\* Objects keep their identity and their type; at most one changes, and none in a panic or a return.
HeapStep == /\ Len(st'.heap) >= Len(st.heap)
            /\ \A i \in 1..Len(st.heap) : st'.heap[i].t = st.heap[i].t
            /\ Cardinality({i \in 1..Len(st.heap) : st'.heap[i] # st.heap[i]}) <= 1
            /\ st.c.m \in {"pan", "fl"} => SubSeq(st'.heap, 1, Len(st.heap)) = st.heap
\* Output is never taken back, and is only made by a call.
OutputStep == st'.pos >= st.pos /\ (st.c.m \in {"pan", "fl"} => st'.pos = st.pos)
\* Unwinding for a panic goes to the innermost std.catch, with the variables and the self that it had.
PanicStep == (st.c.m = "pan" /\ st'.c.m = "rv") =>
               /\ st'.cells = st.cells
               /\ LET f == st.k[Len(st'.k) + 1]
                  IN /\ f.k = "catch" /\ st'.env = f.env /\ st'.base = f.base /\ st'.self = f.self
                     /\ \A j \in (Len(st'.k) + 2)..Len(st.k) : st.k[j].k # "catch"
                     /\ SubSeq(st.k, 1, Len(st'.k)) = st'.k
\* A return ends the innermost activation, and a break the innermost loop.
FlowStep == st.c.m = "fl" =>
              LET f == st.k[Len(st'.k) + 1]
                  ks == IF st.c.f = "ret" THEN {"fn"} ELSE {"whb", "forb"}
              IN /\ f.k \in ks
                 /\ \A j \in (Len(st'.k) + 2)..Len(st.k) : st.k[j].k \notin ks
                 /\ st.c.f = "brk" => \A j \in (Len(st'.k) + 1)..Len(st.k) : st.k[j].k # "fn"
                 /\ st'.env = f.env
\* The contexts that wait are never touched.
StackStep == \A j \in 1..(Len(st'.k) - 1) : j < Len(st.k) => st'.k[j] = st.k[j]
ScopeProp == [][ScopeStep]_st
HeapProp == [][HeapStep]_st
OutputProp == [][OutputStep]_st
PanicProp == [][PanicStep]_st
FlowProp == [][FlowStep]_st
StackProp == [][StackStep]_st
=============================================================================
