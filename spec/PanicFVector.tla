---------------------------- MODULE PanicFVector ---------------------------
(* Recorded fixed vector executions in which code supplied by the user panics. *)
EXTENDS TraceFVector

Loose == {"clear", "assign"}
Allowed(q) ==
    CASE E.op = "append" -> \E k \in 0..Len(a) : q = s \o SubSeq(a, 1, k)
      [] E.op = "assign" -> Range(q) \subseteq Range(s) \cup Range(a) /\ NoDup(q)
      [] E.op = "clear"  -> Range(q) \subseteq Range(s) /\ NoDup(q)
      [] OTHER -> q = s
Survive == /\ Allowed(E.c) /\ s' = E.c
           /\ E.k >= Len(E.c) /\ cap' = E.k /\ over' = (E.of = 1) /\ UNCHANGED size
           /\ Keep /\ Did(E.op, a, <<>>, 1)
PNext == \/ More /\ (IF E.x = 0 \/ (E.x = 2 /\ E.op \notin Loose) THEN Act ELSE Survive) /\ Adv
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = last.p)
=============================================================================
