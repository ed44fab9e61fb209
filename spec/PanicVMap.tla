----------------------------- MODULE PanicVMap -----------------------------
(* Recorded vector map executions in which code supplied by the user panics.   *)
EXTENDS TraceVMap

Replaces == {"new", "default", "newin", "withcap", "drop", "fromslice", "frommut", "fromarr", "fromarrref", "fromiter"}
Seen == {E.c[i] : i \in 1..Len(E.c)}
SeenMap == [k \in {Cls(p[1]) : p \in Seen} |-> CHOOSE p \in Seen : Cls(p[1]) = k]
Keyed == E.op \notin (Replaces \cup {"clear"}) /\ Len(a) > 0
Own(k) == Keyed /\ k = Cls(a[1])
Allowed(f) ==
    IF E.op = "clear" THEN E.x = 2 /\ \A k \in DOMAIN f : k \in DOMAIN m /\ f[k] = m[k]
    ELSE /\ \A k \in (DOMAIN m \cup DOMAIN f) : ~Own(k) => k \in DOMAIN m /\ k \in DOMAIN f /\ f[k] = m[k]
         /\ \A k \in DOMAIN f : Own(k) => \/ k \in DOMAIN m /\ f[k] = m[k]
                                          \/ /\ f[k][2] \in {a[i] : i \in 2..Len(a)}
                                             /\ f[k][1] = IF k \in DOMAIN m THEN m[k][1] ELSE a[1]
         /\ (Keyed /\ E.x # 2) => (In(a[1]) => Cls(a[1]) \in DOMAIN f)
AsBefore == Seen = {m[k] : k \in DOMAIN m} /\ Len(E.c) = N
Survive == /\ Cardinality(Seen) = Len(E.c) /\ Cardinality(DOMAIN SeenMap) = Len(E.c)
           /\ Allowed(SeenMap) /\ m' = SeenMap /\ K /\ Did(E.op, a, <<>>)
PNext == \/ More /\ (IF E.x = 0 \/ (E.x = 2 /\ E.op \in Replaces /\ ~AsBefore) THEN Act ELSE Survive) /\ Adv
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = 0)
=============================================================================
