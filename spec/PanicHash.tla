----------------------------- MODULE PanicHash -----------------------------
(* Recorded hash map and hash set executions in which code supplied by the     *)
(* user panics.                                                                *)
EXTENDS TraceHash

\* replaced as a whole: the panic of an old element's drop does not stop it
Replaces == {"new", "default", "newin", "drop", "fromiter"}
Seen == {E.c[i] : i \in 1..Len(E.c)}
SeenMap == [k \in {Cls(p[1]) : p \in Seen} |-> CHOOSE p \in Seen : Cls(p[1]) = k]
Keyed == E.op \notin (Replaces \cup {"clear"}) /\ Len(a) > 0
Own(k) == Keyed /\ k = Cls(a[1])
Vals == IF IsSet THEN {0} ELSE {a[i] : i \in 2..Len(a)}
\* every other key keeps its entry; the key of the operation has an entry from before, or one the call supplied, or none
Allowed(f) ==
    IF E.op = "clear" THEN E.x = 2 /\ \A k \in DOMAIN f : k \in DOMAIN m /\ f[k] = m[k]
    ELSE /\ \A k \in (DOMAIN m \cup DOMAIN f) : ~Own(k) => k \in DOMAIN m /\ k \in DOMAIN f /\ f[k] = m[k]
         /\ \A k \in DOMAIN f : Own(k) => \/ k \in DOMAIN m /\ f[k] = m[k]
                                          \/ f[k][2] \in Vals /\ f[k][1] = IF k \in DOMAIN m THEN m[k][1] ELSE a[1]
         /\ (Keyed /\ E.x # 2) => (In(a[1]) => Cls(a[1]) \in DOMAIN f)
AsBefore == Seen = Pairs /\ Len(E.c) = N
Survive == /\ Cardinality(Seen) = Len(E.c) /\ Cardinality(DOMAIN SeenMap) = Len(E.c)
           /\ Allowed(SeenMap) /\ m' = SeenMap
           /\ bc' = IF "bc" \in DOMAIN E THEN E.bc ELSE bc
           /\ NoIt /\ Did(E.op, a, <<>>)
HAct == Both \/ (~IsSet /\ OfMap) \/ (IsSet /\ OfSet)
PNext == \/ More /\ (IF E.x = 0 \/ (E.x = 2 /\ E.op \in Replaces /\ ~AsBefore) THEN HAct ELSE Survive) /\ Adv
         \/ Done /\ UNCHANGED tvars
PSpec == TInit /\ [][PNext]_tvars
\* (how many buckets there should be is not judged here: a panic while the table grows may put the growth off)
PArrayFits == Judge(Has("bb") => IF O.bc = 1 THEN O.bb = 0 ELSE O.bb > O.bc)
PResult == Judge(IF O.x > 0 THEN O.p = 1 ELSE O.r = last.r /\ O.p = 0)
=============================================================================
