----------------------------- MODULE PanicDeque ----------------------------
(* Recorded deque and queue executions in which code supplied by the user      *)
(* panics: elements being dropped, and the iterator a deque is built from.     *)
EXTENDS TraceDeque

Survive == UNCHANGED <<s, w, it>> /\ Did(E.op, a, <<>>, 1)
\* a consuming jump stops at the element whose drop panicked: how many were passed over is seen from the elements left
Jumps == {"inth", "inthb"}
Stopped == /\ it # None /\ Has("ol")
           /\ \E j \in 0..a[1] : /\ it' = Jumped(E.op = "inthb", j)
                                /\ Len(it'[1].q) = Len(E.ol) - Len(w)
           /\ Left # <<>> /\ UNCHANGED <<s, w>> /\ Did(E.op, a, <<>>, 1)
PNext == \/ More /\ Adv /\ (IF E.x = 2 /\ E.op \in Jumps /\ it # None /\ it[1].k = 2 THEN Stopped
                           ELSE IF E.x = 0 \/ E.x = 2 THEN Act ELSE Survive)
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = last.p)
=============================================================================
