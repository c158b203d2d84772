------------------------------ MODULE HushRand ------------------------------
(* std.rand, std.randint and std.randseed, as the draws of several processes. *)
(*                                                                            *)
(* A case is a sequence of runs, each a sequence of calls                     *)
(*   [op |-> "seed", a |-> seed], [op |-> "int", a |-> from, b |-> to, r |-> *)
(*   text], [op |-> "rand", r |-> text], or [op |-> "bad", want, got], a call  *)
(* that has to panic.  A generator is an unknown function of its seed and of  *)
(* the calls made since it was seeded: it's known as far as it was observed.  *)
EXTENDS HushStd, TLC

VARIABLE st      \* [cid, run, ev, seed, hist: the draws since the seed, traces: those of before, seen: per case]
Run(S) == Cases[S.cid].runs[S.run]
Call(e) == CASE e.op = "int" -> <<"int", e.a, e.b>> [] OTHER -> <<"rand">>
\* No seed was given in this process: the seed is one of its own, which no other process has.
Unseeded(run) == <<-2, run>>

\* The draws are in range.
IntOk(e) == LET p == ParseInt(e.r)
            IN p # <<>> /\ BText(p[1]) = e.r /\ BCmp(p[1], e.a) >= 0 /\ BCmp(p[1], e.b) <= 0
\* A float of 0 <= r < 1, as text: 0.0, 0.digits, or digits[.digits]e-digits.
ExpAt(s) == {i \in 1..Len(s) : s[i] = 101}
FloatOk(s) ==
  IF ExpAt(s) = {}
  THEN Len(s) >= 3 /\ s[1] = 48 /\ s[2] = 46 /\ AllDigits(SubSeq(s, 3, Len(s)))
  ELSE LET i == CHOOSE i \in ExpAt(s) : TRUE
           m == SubSeq(s, 1, i - 1)
           x == SubSeq(s, i + 1, Len(s))
       IN /\ Len(x) >= 2 /\ x[1] = 45 /\ AllDigits(Tail(x))
          /\ m # <<>> /\ IsDigit(m[1]) /\ (Len(m) = 1 \/ (m[2] = 46 /\ Len(m) > 2 /\ AllDigits(SubSeq(m, 3, Len(m)))))
\* Which tenth a float is in.
Tenth(s) == IF ExpAt(s) # {} THEN 0 ELSE s[3] - 48

\* The draws are those that were made before with this seed after these calls.
Agrees(S, e) == \A t \in S.traces :
                  (t.seed = S.seed /\ Len(t.hist) > Len(S.hist) /\ SubSeq(t.hist, 1, Len(S.hist)) = S.hist
                   /\ t.hist[Len(S.hist) + 1].c = Call(e))
                    => t.hist[Len(S.hist) + 1].r = e.r
Draw(S, e) == [S EXCEPT !.hist = Append(S.hist, [c |-> Call(e), r |-> e.r]),
                        !.seen = S.seen \cup {IF e.op = "int" THEN <<Call(e), e.r>> ELSE <<Call(e), Tenth(e.r)>>},
                        !.ev = S.ev + 1]
\* Forget the draws since the seed, but remember that they were made.
Keep(S) == IF S.hist = <<>> THEN S.traces ELSE S.traces \cup {[seed |-> S.seed, hist |-> S.hist]}
Accepts(S, e) == CASE e.op = "seed" -> TRUE
                   [] e.op = "int" -> IntOk(e) /\ Agrees(S, e)
                   [] e.op = "rand" -> FloatOk(e.r) /\ Agrees(S, e)
                   [] OTHER -> e.got = e.want
After(S, e) == CASE e.op = "seed" -> [S EXCEPT !.traces = Keep(S), !.hist = <<>>, !.seed = e.a, !.ev = S.ev + 1]
                 [] e.op = "bad" -> [S EXCEPT !.ev = S.ev + 1]       \* It draws nothing.
                 [] OTHER -> Draw(S, e)
NextRun(S) == [S EXCEPT !.traces = Keep(S), !.hist = <<>>, !.run = S.run + 1, !.ev = 1, !.seed = Unseeded(S.run + 1)]

\* Different seeds have different draws, from the fourth float on.
Floats(h) == {i \in 1..Len(h) : h[i].c = <<"rand">>}
Differ == \A t, u \in st.traces :
            (t.seed # u.seed /\ Cardinality(Floats(t.hist)) >= 4 /\ [i \in 1..Len(t.hist) |-> t.hist[i].c] = [i \in 1..Len(u.hist) |-> u.hist[i].c])
              => t.hist # u.hist
\* Draws of the same seed differ among themselves.
Moves == \A t \in st.traces : \A i \in 1..(Len(t.hist) - 3) :
            (i..(i + 3)) \subseteq Floats(t.hist) => Cardinality({t.hist[j].r : j \in i..(i + 3)}) > 1
\* Of a case with many draws, all values of small ranges, and all tenths, were seen.
Covered(S) == \A x \in 1..Len(Cases[S.cid].cover) :
                LET c == Cases[S.cid].cover[x]
                IN IF c.op = "int" THEN \A n \in Small(c.a)..Small(c.b) : <<Call(c), BText(BI(n))>> \in S.seen
                   ELSE \A n \in 0..9 : <<Call(c), n>> \in S.seen

Init == \E i \in 1..Len(Cases) : st = [cid |-> i, run |-> 1, ev |-> 1, seed |-> Unseeded(1), hist |-> <<>>, traces |-> {}, seen |-> {}]
Done == st.run > Len(Cases[st.cid].runs)
Stuck(why) == PrintT(<<"STUCK", Cases[st.cid].id, st.run, st.ev, why>>) /\ FALSE
Next == /\ ~Done
        /\ IF st.ev > Len(Run(st))
           THEN LET T == NextRun(st)
                IN /\ st' = T
                   /\ IF T.run <= Len(Cases[st.cid].runs) THEN TRUE
                      ELSE IF ~Covered(T) THEN Stuck("not all values were drawn")
                      ELSE IF ~Differ' THEN Stuck("different seeds, the same draws")
                      ELSE IF ~Moves' THEN Stuck("the same draw four times")
                      ELSE PrintT(<<"ACCEPT", Cases[st.cid].id>>)
           ELSE LET e == Run(st)[st.ev]
                IN IF Accepts(st, e) THEN st' = After(st, e) ELSE Stuck(e.op)
\* Of one seed and the same calls, there's one sequence of draws.
Functional == st.ev = 1 => \A t, u \in st.traces :
                t.seed = u.seed => \A i \in 1..Len(t.hist) :
                  (i <= Len(u.hist) /\ SubSeq(t.hist, 1, i - 1) = SubSeq(u.hist, 1, i - 1) /\ t.hist[i].c = u.hist[i].c) => t.hist[i].r = u.hist[i].r
=============================================================================
