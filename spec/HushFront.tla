------------------------------ MODULE HushFront ------------------------------
(* What the front end does with sources: it accepts or rejects each one.  The *)
(* tables of nodes of those accepted are written to files, for HushCoreTrace  *)
(* and HushShellTrace to evaluate.  A case may have several sources (modules) *)
(* that share one table.                                                      *)
EXTENDS HushParser
VARIABLE case
RECURSIVE ParseAll(_, _, _)
ParseAll(srcs, j, R) ==
  IF j > Len(srcs) THEN R
  ELSE LET p == TLCEval(ParseFrom(srcs[j], R.nodes, (j - 1) * 100000))
       IN ParseAll(srcs, j + 1, [nodes |-> p.nodes, ok |-> Append(R.ok, p.ok),
                                 roots |-> Append(R.roots, IF p.ok THEN p.root ELSE 0),
                                 nss |-> Append(R.nss, IF p.ok THEN p.ns ELSE 0),
                                 errs |-> Append(R.errs, IF p.ok THEN <<>> ELSE p.err)])
Init == case \in 1..Len(Cases)
Next == /\ case > 0
        /\ LET R == TLCEval(ParseAll(Cases[case].srcs, 1, [nodes |-> <<>>, ok |-> <<>>, roots |-> <<>>, nss |-> <<>>, errs |-> <<>>]))
           IN /\ PrintT(<<IF R.ok[1] THEN "VALID" ELSE "INVALID", Cases[case].id>>)
              /\ ndJsonSerialize("nodes" \o ToString(Cases[case].id) \o ".json",
                                 <<IF Cases[case].nodes THEN R ELSE [R EXCEPT !.nodes = <<>>]>>)
        /\ case' = 0
=============================================================================
