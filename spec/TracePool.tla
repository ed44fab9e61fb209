----------------------------- MODULE TracePool ------------------------------
(* Conformance of recorded pool executions with PoolSpec.                      *)
EXTENDS PoolSpec, TraceBase
tvars == <<pvars, tid, l>>
C(t) == Traces[t].cfg
TInit == /\ TraceStart
         /\ PInit([size |-> C(tid).sz, align |-> C(tid).al, off |-> C(tid).off, len |-> C(tid).len, ov |-> Min(1, C(tid).ov)])
\* a block the pool may hand out comes from the pool; an exhausted pool hands out none of its own
Act == \/ Is("build") /\ Build(E.a[1])
       \/ Is("adopt") /\ Adopt(E.a, E.r)
       \/ Is("alloc") /\ IF E.r = <<>> THEN AllocNone
                         ELSE AllocPool(E.r[2]) \/ AllocOver(E.r[2])
       \/ Is("free") /\ Free(E.a[1])
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = 0)        \* the remainder by the alignment included
Truthful == Judge(Has("can") => O.can = B(CanAllocate))
Overflow == Judge(O.oc = calls)
Intact == Judge(O.ok = 1 /\ O.kept = 1)
Contained == Judge(O.out = 0)
=============================================================================
