----------------------------- MODULE PanicList -----------------------------
(* Recorded list executions in which code supplied by the user panics.  Where  *)
(* the elements live is not judged here.                                       *)
EXTENDS TraceList

Loose == {"clear"}
Allowed(q) ==
    CASE E.op = "extend" -> \E k \in 0..(Len(a) - 1) : q = s \o SubSeq(Tail(a), 1, k)
      [] E.op = "clear"  -> Range(q) \subseteq Range(s) /\ NoDup(q)
      [] OTHER -> q = s
Survive == /\ Allowed(E.c) /\ s' = E.c /\ ow' = [i \in 1..Len(E.c) |-> 0] /\ K
           /\ Did(E.op, a, <<>>, 1, 0, 0)
PNext == \/ More /\ (IF E.x = 0 \/ (E.x = 2 /\ E.op \notin Loose) THEN Act ELSE Survive) /\ Adv
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = last.p)
=============================================================================
