----------------------------- MODULE TraceVMap ------------------------------
(* Conformance of recorded vector map executions with VMapSpec.                *)
EXTENDS VMapSpec, TraceBase
tvars == <<vvars, tid, l>>
OrdOf(t) == IF "cmp" \in DOMAIN Traces[t].cfg THEN Traces[t].cfg.cmp ELSE 0
TInit == TraceStart /\ VInit(OrdOf(tid))
a == E.a
Act ==
    \/ \E op \in {"new", "default", "newin", "withcap", "drop", "fin"} : Is(op) /\ New(op, a)
    \/ \E op \in {"fromslice", "frommut", "fromarr", "fromarrref"} : Is(op) /\ From(op, a, a)
    \/ Is("adopt") /\ From("adopt", a, Tail(a))
    \/ Is("fromiter") /\ From("fromiter", a, Tail(a))
    \/ Is("insert") /\ Insert(a[1], a[2])
    \/ Is("get") /\ Get("get", a[1])
    \/ Is("getmut") /\ Get("getmut", a[1])
    \/ Is("getset") /\ GetSet(a[1], a[2])
    \/ Is("has") /\ Contains(a[1])
    \/ Is("remove") /\ Remove(a[1])
    \/ Is("removeent") /\ RemoveEntry(a[1])
    \/ Is("clear") /\ Clear
    \/ Is("entq") /\ EntQ(a[1])
    \/ Is("entocc") /\ EntOcc(a[1], a[2])
    \/ Is("entvin") /\ EntVIn(a[1], a[2])
    \/ Is("entvinset") /\ EntVInSet(a[1], a[2], a[3])
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
\* q lists the entries in order: the same as q = Sorted, without sorting
IsSlice(q) == /\ Len(q) = N
              /\ \A i \in 1..Len(q) : In(q[i][1]) /\ q[i] = m[Cls(q[i][1])]
              /\ \A i \in 1..(Len(q) - 1) : Before(Cls(q[i][1]), Cls(q[i + 1][1]))
Result == Judge(O.r = last.r /\ O.p = 0)
Lengths == Judge(Has("n") => O.n = N /\ O.e = B(N = 0))
Room == Judge(Has("k") => O.k >= N /\ (O.op = "withcap" => O.k >= O.a[1]))
Lookup == Judge(Has("g") => \A i \in 1..Len(O.g) : O.g[i] = IF In(i - 1) THEN Val(i - 1) ELSE 0)
Member == Judge(Has("h") => \A i \in 1..Len(O.h) : O.h[i] = B(In(i - 1)))
Slice == Judge(Has("c") => IsSlice(O.c))
Printed == Judge(Has("dbg") => Len(O.dbg) = 2 * N /\ IsSlice([i \in 1..N |-> <<O.dbg[2 * i - 1], O.dbg[2 * i]>>]))
=============================================================================
