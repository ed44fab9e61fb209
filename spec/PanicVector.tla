---------------------------- MODULE PanicVector ----------------------------
(* Recorded vector executions in which code supplied by the user panics.       *)
EXTENDS TraceVector

Loose == {"clear", "assign"}
\* what an interrupted operation may leave behind
Allowed(q) ==
    CASE E.op = "append" -> \E k \in 0..Len(a) : q = s \o SubSeq(a, 1, k)
      [] E.op = "assign" -> Range(q) \subseteq Range(s) \cup Range(a) /\ NoDup(q)
      [] E.op = "clear"  -> Range(q) \subseteq Range(s) /\ NoDup(q)
      [] OTHER -> q = s
Survive == /\ Allowed(E.c) /\ s' = E.c
           /\ E.k >= Len(E.c) /\ cap' = E.k
           /\ Keep /\ Did(E.op, a, <<>>, 1)
\* the drop of an element that was replaced or given up does not stop the replacement
\* a consuming jump stops at the element whose drop panicked: how many were passed over is seen from the elements left
Jumps == {"inth", "inthb"}
Stopped == /\ it # None /\ Has("ic") /\ Len(E.ic) < Len(it[1].s) /\ Len(it[1].s) - Len(E.ic) <= a[1] + 1
           /\ it' = Some([it[1] EXCEPT !.s = IF E.op = "inth" THEN DropFirst(@, Len(@) - Len(E.ic)) ELSE SubSeq(@, 1, Len(E.ic))])
           /\ UNCHANGED <<s, cap, w>> /\ Did(E.op, a, <<>>, 1)
PNext == \/ More /\ Adv /\ (IF E.x = 2 /\ E.op \in Jumps THEN Stopped
                           ELSE IF E.x = 0 \/ (E.x = 2 /\ E.op \notin Loose) THEN Act ELSE Survive)
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = last.p)
=============================================================================
