----------------------------- MODULE PanicTree -----------------------------
(* Recorded executions on maps and sets in which code supplied by the user     *)
(* panics.                                                                     *)
EXTENDS TraceTree

Part(i) == IF set THEN E.c[i] ELSE <<E.c[2 * i - 1], E.c[2 * i]>>
Count == IF set THEN Len(E.c) ELSE Len(E.c) \div 2
RECURSIVE Sub(_, _)
\* the entries of e that are still seen, in order
Sub(q, S) == IF q = <<>> THEN <<>>
             ELSE (IF (IF set THEN q[1][1] ELSE q[1]) \in S THEN <<q[1]>> ELSE <<>>) \o Sub(Tail(q), S)
Rest1 == Sub(e, {Part(i) : i \in 1..Count})
Survive == /\ IF E.op = "clear" /\ E.x = 2 THEN e' = Rest1 ELSE e' = e
           /\ UNCHANGED ord /\ Did(E.op, a, <<>>, 1)
PNext == \/ More /\ (IF E.x = 0 \/ (E.x = 2 /\ E.op # "clear") THEN Act ELSE Survive) /\ Adv /\ UNCHANGED <<set, own>>
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = last.p)
=============================================================================
