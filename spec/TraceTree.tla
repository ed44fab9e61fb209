------------------------------ MODULE TraceTree -----------------------------
(* Conformance of recorded executions on maps and sets with TreeSpec.          *)
EXTENDS TreeSpec, TraceBase
VARIABLES set, own       \* is it a set; how many nodes of its own it has
tvars == <<tvs, set, own, tid, l>>
TInit == /\ TraceStart /\ e = <<>> /\ ord = Cfg.cmp /\ set = (Cfg.tk = 1)
         /\ own = (IF Cfg.tk >= 2 THEN Cfg.cap ELSE 0)
         /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
a == E.a
Node(i) == [k |-> a[5 * i - 3], v |-> a[5 * i - 2], l |-> a[5 * i - 1], r |-> a[5 * i], c |-> a[5 * i + 1]]
Act == \/ Is("build") /\ Build(a[1], [i \in 1..((Len(a) - 1) \div 5) |-> Node(i)], a)
       \/ Is("has") /\ Hask(a[1])
       \/ Is("get") /\ Get(a[1])
       \/ Is("set") /\ SetV(a[1], a[2])
       \/ Is("iter") /\ Iter(a[1], set)
       \/ Is("itermut") /\ IterMut(a[1], a[2])
       \/ Is("clear") /\ Clear
       \/ Is("new") /\ New(a[1])
       \/ Is("fin") /\ Fin
       \/ Is("room") /\ Room(own)
TNext == \/ More /\ Act /\ Adv /\ UNCHANGED <<set, own>>
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Lengths == Judge(Has("n") => O.n = Len(e) /\ O.e = B(e = <<>>))
Entries == Judge(Has("c") => O.c = Show(e, set))
Printed == Judge(Has("dbg") => O.dbg = Flat(e))
\* nodes inside the object, outside it, blocks taken from the allocator
Placed == Judge(Has("z") => O.z = <<Min(own, Len(e)), Len(e) - Min(own, Len(e)), Len(e) - Min(own, Len(e))>>)
=============================================================================
